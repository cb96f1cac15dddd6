"""Seeded search, violation gating, minimisation, replay files, evidence. One module per property in props/."""
import base64, copy, hashlib, importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "driver"))
import build, sim
from concurrent.futures import ThreadPoolExecutor

def jenc(o):
    if isinstance(o, (bytes, bytearray)):
        b = bytes(o)
        try:
            s = b.decode("ascii")
            if all(c >= " " or c in "\n\t\r" for c in s): return {"$a": s}
        except UnicodeDecodeError: pass
        return {"$b": base64.b64encode(b).decode()}
    if isinstance(o, dict): return {k: jenc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [jenc(v) for v in o]
    return o
def jdec(o):
    if isinstance(o, dict):
        if set(o) == {"$a"}: return o["$a"].encode()
        if set(o) == {"$b"}: return base64.b64decode(o["$b"])
        return {k: jdec(v) for k, v in o.items()}
    if isinstance(o, list): return [jdec(v) for v in o]
    return o

class Ctx:
    """Collects what one case did."""
    def __init__(self, sims):
        self.sims = sims
        self.runs = 0; self.sim_us = 0; self.steps = 0
        self.faults = {}; self.tags = {}
        self.h = hashlib.sha1(); self.cov = 0
        self.sigs = []
        self.violation = None
        self.nontrivial = False
        self.key = None
        self.events = 0; self.preempts = 0
    def run(self, flavour="plain", **sc):
        r = self.sims(flavour).run(**sc)
        self.runs += 1; self.sim_us += r.now; self.steps += r.steps; self.events += r.events; self.preempts += r.preempts
        fl = sc.get("faults", ())
        for i, f in enumerate(fl):
            if i < 64 and r.fired[i]:
                k = f["cls"] + (":" + errname(f.get("err", 5)) if f["cls"] not in ("shrink", "malloc", "xmalloc") else "") + (":torn" if f.get("off", -1) > 0 else "")
                self.faults[k] = self.faults.get(k, 0) + r.fired[i]
        if sc.get("rchunk"): self.count_fault("short_read", sum(1 for e in r.log if e[0] == "READ" and e[3] > 0))
        if sc.get("wchunk"): self.count_fault("short_write", sum(1 for e in r.log if e[0] == "WRITE" and e[3] > 0))
        if r.kind == "killed" and "crash" in sc: self.count_fault("process_killed", 1)
        self.h.update(r.hash.encode())
        self.cov |= int.from_bytes(r.cov, "little")
        self.sigs.append(r.hash[:12])
        if r.kind == "stop" and r.why in ("KILLED:host",): raise RuntimeError("host killed a simulated process")
        return r
    def count_fault(self, k, n):
        if n: self.faults[k] = self.faults.get(k, 0) + n
    def tag(self, t, n=1): self.tags[t] = self.tags.get(t, 0) + n
    def violate(self, cls, msg):
        if self.violation is None: self.violation = (cls, msg)

def errname(e):
    import errno
    return errno.errorcode.get(e, str(e))

_sims = {}
def get_sim(flavour):
    s = _sims.get(flavour)
    if s is not None and s.nruns > 3000: s.close(); s = None
    if s is None: s = _sims[flavour] = sim.Sim(flavour)
    return s
def drop_sims():
    for s in _sims.values(): s.close()
    _sims.clear()

def load(pid): return importlib.import_module("props." + pid.lower())

def case_rng(seed, pid, i): return random.Random("%s/%s/%s" % (seed, pid, i))

def execute(mod, case, sims=get_sim):
    c = Ctx(sims)
    mod.run(case, c)
    return c

def _work(args):
    pid, seed, i, tier = args
    mod = load(pid)
    for attempt in (0, 1):
        try:
            case = mod.gen_case(case_rng(seed, pid, i), i, tier)
            c = execute(mod, case)
            return dict(i=i, v=c.violation, runs=c.runs, us=c.sim_us, steps=c.steps, faults=c.faults, tags=c.tags, h=c.h.hexdigest(), cov=c.cov,
                        sigs=c.sigs, nt=c.nontrivial, key=c.key, events=c.events, preempts=c.preempts, err=None)
        except (RuntimeError, BrokenPipeError) as e:
            drop_sims()
            err = traceback.format_exc()
        except Exception:
            drop_sims()
            return dict(i=i, err=traceback.format_exc())
    return dict(i=i, err=err)

# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []
def is_known(pid, cls):
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == pid and cls in k["classes"]: return k
    return None

# ------------------------------------------------------------------ minimisation
def minimise(mod, case, cls, budget_s=60, budget_n=1500):
    t0 = time.time(); n = 0
    best = case
    progress = True
    while progress and time.time() - t0 < budget_s and n < budget_n:
        progress = False
        for cand in mod.shrink(copy.deepcopy(best)):
            if time.time() - t0 > budget_s or n >= budget_n: break
            n += 1
            try: c = execute(mod, cand)
            except Exception: continue
            if c.violation and c.violation[0] == cls:
                best = cand; progress = True
                break
    return best, n

def gate(mod, case, cls):
    """same violation and same history twice in fresh simulator processes"""
    hs = []
    for _ in range(2):
        drop_sims()
        c = execute(mod, case)
        if not c.violation or c.violation[0] != cls: return None
        hs.append((c.h.hexdigest(), c.violation[1]))
    return hs[0] if hs[0] == hs[1] else None

def write_replay(pid, seed, idx, cls, msg, case, h, known=False):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (pid, seed, hashlib.sha1(cls.encode()).hexdigest()[:8])
    p = os.path.join(d, name)
    json.dump(dict(property=pid, seed=seed, case_index=idx, cls=cls, message=msg, history=h, case=jenc(case)), open(p, "w"), indent=1, ensure_ascii=True)
    return p

def replay(path):
    j = json.load(open(path))
    mod = load(j["property"])
    c = execute(mod, jdec(j["case"]))
    same = c.violation is not None and c.violation[0] == j["cls"]
    if c.violation: print("VIOLATION property=%s replay=%s" % (j["property"], path)); print(c.violation[0], "|", c.violation[1])
    else: print("no violation: the property held on this replay")
    if same: print("history %s" % ("identical" if c.h.hexdigest() == j["history"] else "differs"))
    return 1 if c.violation else 0

# ------------------------------------------------------------------ main
def main(pid, tier, n=None, workers=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = load(pid)
    print("property %s tier %s seed %d" % (pid, tier, seed)); sys.stdout.flush()
    with ThreadPoolExecutor() as ex: list(ex.map(build.build, mod.FLAVOURS))
    tb = time.time() - t0
    n = n or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = getattr(mod, "CAP", 330) if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", "3600"))
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(16, os.cpu_count() or 4)
    agg = dict(evals=0, runs=0, us=0, steps=0, events=0, preempts=0, faults={}, tags={}, cov=0)
    hists = set(); keys = set(); errors = []; viol = {}; hall = hashlib.sha1()
    t1 = time.time()
    def feed():
        for i in range(n):
            if time.time() - t1 > cap or len(viol) >= int(os.environ.get('VERIF_MAXVIOL', '6')): return
            yield (pid, seed, i, tier)
    pool = mp.get_context("fork").Pool(workers)
    try:
        it = windowed(pool, feed(), workers * 8)
        for r in it:
            if r["err"]: errors.append(r["err"]); continue
            agg["evals"] += 1
            for k in ("runs", "us", "steps", "events", "preempts"): agg[k] += r[k]
            for k, v in r["faults"].items(): agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k, v in r["tags"].items(): agg["tags"][k] = agg["tags"].get(k, 0) + v
            agg["cov"] |= r["cov"]
            hists.update(r["sigs"]); hall.update(r["h"].encode())
            if r["nt"]: keys.add(r["key"] or r["h"])
            if r["v"]:
                cls = r["v"][0]
                if cls not in viol: viol[cls] = (r["i"], r["v"][1])
    finally:
        pool.terminate()
    wall_search = time.time() - t1
    rc = 0; nviol = 0; notes = []
    for cls, (i, msg) in sorted(viol.items(), key=lambda kv: kv[1][0]):
        k = is_known(pid, cls)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"])); continue
        case = mod.gen_case(case_rng(seed, pid, i), i, tier)
        if gate(mod, case, cls) is None:
            errors.append("violation %s of case %d did not reproduce: %s" % (cls, i, msg)); continue
        mcase, tries = minimise(mod, case, cls, (25 if nviol == 0 else 8) if tier == "quick" else 200)
        g = gate(mod, mcase, cls)
        if g is None: mcase = case; g = gate(mod, case, cls)
        p = write_replay(pid, seed, i, cls, g[1], mcase, g[0])
        # replay in a fresh interpreter must fail identically
        import subprocess
        rr = subprocess.run([sys.executable, os.path.join(VERIF, "driver", "check.py"), "--replay", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if rr.returncode != 1 or b"history identical" not in rr.stdout:
            errors.append("replay of %s not identical: %s" % (p, rr.stdout.decode(errors="replace")[-400:])); continue
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  case %d, %d shrink runs: %s | %s" % (i, tries, cls, g[1][:1500]))
        nviol += 1; rc = 1
    listed = set()
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == pid and not any(c in viol for c in k["classes"]):
            # show the finding from its own recorded case
            if "case" in k:
                c = execute(mod, jdec(k["case"]))
                if c.violation and c.violation[0] in k["classes"]: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    samples = []
    for i in range(3):
        try: samples.append(trim(jenc(mod.gen_case(case_rng(seed, pid, i), i, tier))))
        except Exception: pass
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=agg["evals"], distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
                            simulated_processes=agg["runs"], seam_events=agg["events"], basic_blocks_executed=agg["steps"],
                            simulated_seconds=round(agg["us"] / 1e6, 3), runs_per_hour=int(agg["runs"] / max(wall_search, .001) * 3600),
                            seeds_per_hour=int(agg["evals"] / max(wall_search, .001) * 3600),
                            faults_fired=agg["faults"], probes=agg["tags"], preemptions=agg["preempts"],
                            distinct_histories=len(hists), code_locations_reached=bin(agg["cov"]).count("1"),
                            history_digest=hall.hexdigest(), real_components=REAL, stubbed_components=STUB, case_errors=len(errors)),
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d cases, %d simulated processes, %.1fs (build %.1fs), %d histories, faults %s, violations %d" %
          (pid, agg["evals"], agg["runs"], wall, tb, len(hists), json.dumps(agg["faults"], sort_keys=True), nviol))
    if verbose: print("probes", json.dumps(agg["tags"], sort_keys=True), "digest", hall.hexdigest())
    if errors:
        print("check errors: %d\n%s" % (len(errors), errors[0]))
        if rc == 0: rc = 2
    return rc

REAL = ["xmq-cli.c", "xmq.c and parts/*.c", "glibc stdio and pure libc", "libxml2", "libxslt"]
STUB = ["kernel files, pipes, terminal, signals, clock, processes (simulated)", "shell and browser commands (recorded, scripted result)", "allocator front end (fill patterns, failures, accounting over host malloc)"]

def trim(o, n=600):
    if isinstance(o, str) and len(o) > n: return o[:n] + "...(%d)" % len(o)
    if isinstance(o, dict): return {k: trim(v, n) for k, v in list(o.items())[:40]}
    if isinstance(o, list): return [trim(v, n) for v in o[:40]]
    return o

def windowed(pool, gen, w):
    """ordered results with a bounded number in flight"""
    from collections import deque
    q = deque()
    for a in gen:
        q.append(pool.apply_async(_work, (a,)))
        if len(q) >= w: yield q.popleft().get()
    while q: yield q.popleft().get()
