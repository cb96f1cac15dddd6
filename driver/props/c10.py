"""C10: running out of memory never yields a silently wrong result."""
import gen
from props.common import *
from props import apigen, c13
FLAVOURS = ["plain"]
QUICK, THOROUGH = 60000, 4_000_000
CAP = 240
RULE = "a command line or library program is run healthy, counting memory requests of the program and of libxml2, and again with seeded requests refused; distinct by the history of the failing run; trivial when no request is refused"
def gen_case(rng, i, tier):
    # the k-th request, early ones (loading) preferred now and then, or the k-th large one
    def refuse():
        c = rng.choice(["malloc", "malloc", "xmalloc"]); m = rng.choice([0, 0, 0, 1, 5])
        if rng.random() < .3: return [c, 0., m, rng.choice([100, 500, 1000, 1024, 2000, 4000, 10000, 15000, 25000, 40000]), rng.choice([0, 0, 1, 1, 2, 3, 5, 8])]
        return [c, rng.random() ** rng.choice([1, 1, 1, 4]), m]
    faults = [refuse() for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
    if rng.random() < .2:
        files = {}
        units = [apigen.unit(rng, 0, files, None, 0) for _ in range(rng.choice([1, 1, 2]))]
        return dict(kind="api", units=units, files=files, faults=faults)
    if rng.random() < .08: return dict(kind="each", each=dict(c13.gen_case(rng, i, tier), faults=[]), faults=faults)
    cmd = gen.command(rng, broken=0, sized=.2, ixml=.12, tokenize=.06, edits=.5, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text", "clines"))
    if rng.random() < .3 and "tokenize" not in cmd["argv"]: cmd["argv"] += ["save-to", "saved.out"]
    return dict(kind="cli", cmd=cmd, faults=faults, fifo=rng.random() < .2)
def sc(case):
    if case["kind"] == "api": return dict(api=dict(threads=1, ops=apigen.flat([case["units"]])), files=case["files"])
    if case["kind"] == "each": return dict(c13.sc(case["each"]), shells=case["each"]["shells"])
    s = sc_of(case["cmd"]); m = case["cmd"]["main"]
    if case["fifo"] and m in s["files"] and isinstance(s["files"][m], bytes): s["files"][m] = dict(kind=2, data=s["files"][m])
    return s
def results(r): return [x[4] for x in r.log if x[0] == "RESULT"]
def commands(r): return [c13.parse_exec(e[4]) for e in r.log if e[0] == "EXEC" and e[2] == 0]
def run(case, ctx):
    b = ctx.run("plain", **sc(case))
    if b.kind != "exit" or (case["kind"] != "api" and b.code): ctx.tag("baseline:fails"); return
    fl = []
    for cls, at, more, *big in case["faults"]:
        if case["kind"] == "api": cls = "malloc"     # what libxml2 drops is the command's to notice
        if not b.counts.get(cls, 0): cls = "malloc"
        n = b.counts.get(cls, 0)
        if big: fl.append(dict(cls=cls, off=big[0], arg=big[1], nth=-1, err=12, sticky=int(more > 1)))
        elif n: k = int(at * n) if at >= 0 else -at; fl += [dict(cls=cls, nth=k + j, err=12) for j in range(more + 1)]
    if not fl: ctx.tag("no requests"); return
    r = ctx.run("plain", faults=fl[:30], **sc(case))
    if not any(r.fired[:len(fl)]): ctx.tag("not reached"); return
    ctx.nontrivial = True; ctx.key = r.hash
    end = r.kind + (str(r.code) if r.kind in ("exit", "killed", "crash") else "")
    ctx.tag("end:" + end)
    what = "%s; refused %s: %s" % (" ".join(map(str, case["cmd"]["argv"])) if case["kind"] == "cli" else " ".join(map(str, c13.sc(case["each"])["argv"])) if case["kind"] == "each" else " ;; ".join(apigen.describe(u) for u in case["units"])[:1200], [(f["cls"], f["nth"]) if f["nth"] >= 0 else (f["cls"], ">=", f["off"], f["arg"]) for f in fl], r.outcome())
    where = next((x[4].decode() for x in r.log if x[0] == "FAULT"), "")
    if r.kind == "stop": return ctx.violate("unbounded", what)
    if case["kind"] == "each":
        # no command is ever run with the wrong text or values, and none is left out unnoticed
        x, y = commands(b), commands(r)
        if y != x[:len(y)] or (r.kind == "exit" and r.code == 0 and len(y) < len(x)):
            k = next((k for k in range(len(y)) if y[k:k + 1] != x[k:k + 1]), len(y))
            return ctx.violate("wrong:command", what + "; command %d was %s instead of %s; stderr %s" % (k, clip(str(y[k:k + 1])), clip(str(x[k:k + 1])), clip(r.err)))
    if case["kind"] != "api":
        if r.kind == "exit" and r.code == 0:
            if r.out != b.out: return ctx.violate("wrong:stdout", what + "; " + diff_at(b.out, r.out) + "; stderr " + clip(r.err))
            x = {k: v for k, v in b.files.items() if k in b.touched}; y = {k: v for k, v in r.files.items() if k in r.touched}
            if x != y: return ctx.violate("wrong:file", what + "; saved " + clip(str(y)) + " instead of " + clip(str(x)))
        elif r.kind == "exit" and not r.err and not r.out: ctx.tag("silent failure")
    else:
        x, y = results(b), results(r)
        for k in range(len(y)):
            if k < len(x) and x[k] == y[k]: continue
            # the first result that differs must be a reported failure
            if y[k].startswith((b"ok", b"g:ok ok")): return ctx.violate("wrong:api", what + "; call %d gave %s instead of %s" % (k, clip(y[k]), clip(x[k]) if k < len(x) else "nothing"))
            break
def shrink(case):
    for l in gen.shrink_list(case["faults"]):
        if l: yield dict(case, faults=l)
    for i, (c, a, m, *z) in enumerate(case["faults"]):
        if m: yield dict(case, faults=case["faults"][:i] + [[c, a, 0] + z] + case["faults"][i + 1:])
    if case.get("fifo"): yield dict(case, fifo=False)
    if case["kind"] == "cli":
        for c in shrink_cmd(case["cmd"]): yield dict(case, cmd=c)
    elif case["kind"] == "each":
        for c in c13.shrink(case["each"]): yield dict(case, each=c)
    else:
        us = case["units"]
        for i in range(len(us)):
            if len(us) > 1: yield dict(case, units=us[:i] + us[i + 1:])
            for u in apigen.shrink_unit(us[i]): yield dict(case, units=us[:i] + [u] + us[i + 1:])
