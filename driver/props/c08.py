"""C08: a call's result does not depend on the calls made before it."""
import random, gen
from props.common import *
from props import apigen
FLAVOURS = ["plain", "asan"]
QUICK, THOROUGH = 40000, 2_000_000
CAP = 240
RULE = "a probe (calls on a fresh document) after a seeded history of other calls, with failing parses, aborted iterations, failing writers and failing file reads, compared with the probe in a new process, and all units in reverse order, each thus with another history; distinct by event history; trivial when the history is empty"
def gen_case(rng, i, tier):
    files = {}
    hist = [apigen.unit(rng, rng.choice([0, 1, 2]), files, None, rng.choice([0, .3, .6])) for _ in range(rng.choice([1, 1, 2, 3, 5, 8]))]
    probe = apigen.unit(rng, 0, files, None, rng.choice([0, .3]))
    if rng.random() < .25: probe = [list(o) for o in rng.choice(hist)]
    keep = rng.random() < .3
    if keep: hist = [[o for o in u if o[0] != 7 or rng.random() < .5] for u in hist]
    fl = []
    if files and rng.random() < .3:
        used = {a[1] if c in (3, 18, 19) else a[0] for c, a in probe if c in (3, 18, 19, 11)}
        c = [f for f in sorted(files) if f not in used]
        if c: fl = [dict(cls=rng.choice(["open_r", "read"]), path=rng.choice(c), nth=0, err=5, sticky=1)]
    return dict(hist=hist, probe=probe, files=files, faults=fl, flavour="asan" if rng.random() < .15 else "plain")
def run(case, ctx):
    hops = apigen.flat([case["hist"]]); pops = apigen.flat([[case["probe"]]])
    kw = dict(files=case["files"], faults=case["faults"])
    # slots the history left in use are freed by "new" on the same slot: the probe starts with a new document
    fresh = ctx.run("plain", api=dict(threads=1, ops=pops), **kw)
    if bad_end(fresh): ctx.tag("fresh:" + bad_end(fresh).split(":")[0]); return
    r = ctx.run(case["flavour"], api=dict(threads=1, ops=hops + pops), **kw)
    what = "history %s; probe %s" % (" ;; ".join(apigen.describe(u) for u in case["hist"])[:1500], apigen.describe(case["probe"])[:1500])
    ctx.key = r.hash; ctx.nontrivial = bool(hops)
    b = bad_end(r)
    if b:
        # a unit that ends the process alone is not this property's business
        for u in case["hist"]:
            a = ctx.run("plain", api=dict(threads=1, ops=apigen.flat([[u]])), **kw)
            if bad_end(a): ctx.tag("unit:" + bad_end(a).split(":")[0]); return
        return ctx.violate(b, what + "; " + r.outcome() + " asan " + clip(r.asan, 900) + clip(r.err))
    w = [x[4] for x in fresh.log if x[0] == "RESULT"]
    g = [x[4] for x in r.log if x[0] == "RESULT"]
    if len(g) < len(w): return ctx.violate("ends", what + "; " + r.outcome())
    g = g[-len(w):] if w else []
    for k in range(len(w)):
        if g[k] != w[k]: return ctx.violate("result:%s" % case["probe"][k][0], what + "; call %d gave %s, in a new process %s" % (k, clip(g[k]), clip(w[k])))
    # the other way round: each unit has another history
    units = case["hist"] + [case["probe"]]
    z = ctx.run("plain", api=dict(threads=1, ops=apigen.flat([units[::-1]])), **kw)
    b = bad_end(z)
    if b: return ctx.violate(b, "in reverse: " + what + "; " + z.outcome() + clip(z.err))
    split = lambda log, us: (lambda it: [[next(it, None) for _ in u] for u in us])(x[4] for x in log if x[0] == "RESULT")
    x = split(r.log, units); y = split(z.log, units[::-1])[::-1]
    for k in range(len(units)):
        for j in range(len(units[k])):
            if x[k][j] != y[k][j]: return ctx.violate("reverse:%s" % units[k][j][0], what + "; in unit %d call %d gave %s, in reverse %s" % (k, j, clip(x[k][j]), clip(y[k][j])))
    if not r.out.endswith(fresh.out): return ctx.violate("stdout", what + "; printed %s, in a new process %s" % (clip(r.out), clip(fresh.out)))
    if not r.err.endswith(fresh.err): return ctx.violate("stderr", what + "; stderr %s, in a new process %s" % (clip(r.err), clip(fresh.err)))
def shrink(case):
    for l in gen.shrink_list(case["hist"]): yield dict(case, hist=l)
    for f in shrink_faults(case): yield f
    for i, u in enumerate(case["hist"]):
        for v in apigen.shrink_unit(u): yield dict(case, hist=case["hist"][:i] + [v] + case["hist"][i + 1:])
    for v in apigen.shrink_unit(case["probe"]): yield dict(case, probe=v)
    for f in sorted(case["files"]):
        for b in gen.shrink_bytes(case["files"][f]): yield dict(case, files={**case["files"], f: b})
