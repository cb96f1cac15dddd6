"""C07: documents used by different threads do not influence each other."""
import random, gen
from props.common import *
from props import apigen
FLAVOURS = ["plain", "asan"]
QUICK, THOROUGH = 12000, 2_000_000
CAP = 240
RULE = "2..4 caller threads with their own documents, preempted at seeded basic blocks of the library; every thread's results and the threads' output compared with the thread alone; distinct by event history (which holds the switch points); trivial when no preemption took place"
ASSUME = ["a thread is preempted only inside the library and the program, at basic blocks; libxml2 calls run as one step"]
def gen_case(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    kinds = None
    r = rng.random()
    if r < .25: kinds = ["ixml"]
    elif r < .4: kinds = ["doc"]
    br = rng.choice([0, .3, .3, .7])
    th = [[apigen.unit(rng, 0, None, kinds, br) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
    if rng.random() < .3: th = [[list(u) for u in th[0]] for _ in range(n)]       # all threads do the same
    return dict(threads=th, slice=rng.choice([3, 20, 100, 1000, 10000]), seed=rng.randrange(1 << 31), flavour="asan" if rng.random() < .12 else "plain", preempt=None)
def results(r): 
    o = {}
    for x in r.log:
        if x[0] == "RESULT": o.setdefault(x[2], []).append(x[4])
    return o
def run(case, ctx):
    n = len(case["threads"])
    api = dict(threads=n, ops=apigen.flat(case["threads"]), slice=case["slice"], seed=case["seed"])
    if case["preempt"] is not None: api.update(mode=1, preempt=[tuple(p) for p in case["preempt"]])
    alone = []
    for t in range(n):
        a = ctx.run("plain", api=dict(threads=1, ops=apigen.flat([case["threads"][t]])))
        if bad_end(a): ctx.tag("alone:" + bad_end(a).split(":")[0]); return
        alone.append(a)
    total = sum(a.steps for a in alone)
    api["slice"] = max(api["slice"], total // 40000)            # keeps the number of switches, which are all recorded, bounded
    r = ctx.run(case["flavour"], api=api, max_steps=50_000_000 + 5 * total, max_events=1_000_000)
    ctx.key = r.hash; ctx.nontrivial = r.preempts > 0; ctx.tag("threads:%d" % n)
    what = "%d threads, %d preemptions: %s" % (n, r.preempts, " || ".join(" ;; ".join(apigen.describe(u) for u in us) for us in case["threads"]))[:3000]
    b = bad_end(r)
    if b: return ctx.violate(b, what + "; " + r.outcome() + " asan " + clip(r.asan, 900) + clip(r.err))
    got = results(r)
    for t in range(n):
        w = results(alone[t]).get(0, [])
        g = got.get(t, [])
        for k in range(len(w)):
            if k >= len(g) or g[k] != w[k]:
                op = [c for u in case["threads"][t] for c, a in u][k]
                return ctx.violate("result:%s" % op, what + "; thread %d call %d gave %s, alone %s" % (t, k, clip(g[k], 300) if k < len(g) else "nothing", clip(w[k], 300)))
    # diagnostics are not lost or invented
    if sorted(r.err) != sorted(b"".join(a.err for a in alone)): return ctx.violate("stderr", what + "; stderr %s, alone %s" % (clip(r.err), clip(b"".join(a.err for a in alone))))
def shrink(case):
    if case["preempt"] is None:
        c = __import__("harness").Ctx(__import__("harness").get_sim)
        run(case, c)
        n = len(case["threads"])
        total = sum(c.run("plain", api=dict(threads=1, ops=apigen.flat([u]))).steps for u in case["threads"])
        r = c.run(case["flavour"], api=dict(threads=n, ops=apigen.flat(case["threads"]), slice=max(case["slice"], total // 40000), seed=case["seed"]), max_steps=50_000_000 + 5 * total, max_events=1_000_000)
        import struct
        yield dict(case, preempt=[[struct.unpack("<Q", x[4])[0], max(0, x[3]), x[2]] for x in r.log if x[0] == "SWITCH"])
        for t in range(n):
            if n > 2: yield dict(case, threads=case["threads"][:t] + case["threads"][t + 1:])
    th = case["threads"]
    for t in range(len(th)):
        for i in range(len(th[t])):
            if len(th[t]) > 1: yield dict(case, threads=th[:t] + [th[t][:i] + th[t][i + 1:]] + th[t + 1:])
            for u in apigen.shrink_unit(th[t][i]): yield dict(case, threads=th[:t] + [th[t][:i] + [u] + th[t][i + 1:]] + th[t + 1:])
    if case["preempt"] is not None:
        for l in gen.shrink_list(case["preempt"][1:]): yield dict(case, preempt=case["preempt"][:1] + l)
