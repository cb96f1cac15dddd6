"""C11: everything acquired for a document is released, on success and on failure."""
import errno, os, random, re, gen
from props.common import *
from props import apigen
FLAVOURS = ["plain", "asan"]
QUICK, THOROUGH = 30000, 2_000_000
CAP = 240
REPEAT = 4
RULE = "a seeded program of library calls, with malformed input, failing opens and reads, stopped iterations and failing writers, run %d times in one process; blocks, bytes and descriptors held at the end of each round; distinct by event history" % REPEAT
def gen_case(rng, i, tier):
    files = {}
    prog = [apigen.unit(rng, 0, files, None, rng.choice([0, .3, .7])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    fl = []
    if files and rng.random() < .5:
        f = rng.choice(sorted(files)); e = rng.choice([errno.EIO, errno.EMFILE, errno.EINTR])
        fl = [dict(cls=rng.choice(["open_r", "read", "read", "seek", "close"]), path=f, nth=rng.choice([0, 0, 1, 2]), err=e, sticky=0 if e == errno.EINTR else 1)]
    return dict(prog=prog, files=files, faults=fl, flavour="asan" if rng.random() < .1 else "plain")
def run(case, ctx):
    ops = apigen.flat([case["prog"]])
    r = ctx.run(case["flavour"], files=case["files"], faults=case["faults"], api=dict(threads=1, ops=ops, repeat=REPEAT))
    what = " ;; ".join(apigen.describe(u) for u in case["prog"])[:2500] + (" faults %s" % case["faults"] if case["faults"] else "")
    ctx.key = r.hash; ctx.nontrivial = True
    b = bad_end(r)
    if b:
        a = ctx.run("plain", files=case["files"], faults=case["faults"], api=dict(threads=1, ops=ops))
        if bad_end(a) and os.environ.get("XSTRICT"): return ctx.violate("once:" + bad_end(a), what + "; " + a.outcome() + " asan " + clip(r.asan, 900))
        if bad_end(a): ctx.tag("once:" + bad_end(a).split(":")[0]); ctx.nontrivial = False; return
        return ctx.violate(b, what + "; " + r.outcome() + " asan " + clip(r.asan, 900))
    rounds = []
    for x in r.log:
        if x[0] == "LEAK":
            m = re.match(rb"(\d+) blocks=(-?\d+) bytes=(-?\d+) fds=(-?\d+)", x[4])
            if m: rounds.append([int(v) for v in m.groups()])
    ctx.tag("rounds:%d" % len(rounds))
    if len(rounds) < REPEAT: ctx.tag("ended early"); return
    # the first round may fill caches; nothing may grow after that
    for k, (i, blocks, by, fds) in enumerate(rounds):
        if fds > 0: return ctx.violate("descriptors", what + "; %d descriptors still open after round %d" % (fds, k))
    late = rounds[1:]
    if all(b[1] > 0 for b in late):
        l = ctx.run("plain", files=case["files"], faults=case["faults"], api=dict(threads=1, ops=ops, repeat=REPEAT), mem=(99, 8))
        sites = [x[4].decode("utf-8", "replace") for x in l.log if x[0] == "LEAK" and not re.match(rb"\d+ blocks=", x[4])]
        sites = resolve(sites)
        return ctx.violate("memory:" + leak_class(sites), what + "; every round leaves %s blocks, %s bytes; %s" % (late[-1][1], late[-1][2], "; ".join(sites)[:600]))
def resolve(sites):
    """allocation sites of the code under test by function name"""
    import build, subprocess
    o = []
    for s in sites:
        m = re.match(r"exe:.*\+(0x[0-9a-f]+)$", s)
        if m:
            a = subprocess.run(["addr2line", "-f", "-s", "-e", build.build("plain"), "0x%x" % (int(m.group(1), 16) - 1)], stdout=subprocess.PIPE).stdout.decode().split("\n")
            s = a[0] if a and a[0] else s
        o.append(s)
    return o
def leak_class(sites):
    """the sites in the code under test, or libxml2's if there are none"""
    u = sorted({s for s in sites if not s.startswith("lib")} or {s for s in sites if ".so" in s})
    return ",".join(u[:2]) or "?"
def shrink(case):
    for l in gen.shrink_list(case["prog"]):
        if l: yield dict(case, prog=l)
    for f in shrink_faults(case): yield f
    for i, u in enumerate(case["prog"]):
        for v in apigen.shrink_unit(u): yield dict(case, prog=case["prog"][:i] + [v] + case["prog"][i + 1:])
    for f in sorted(case["files"]):
        for b in gen.shrink_bytes(case["files"][f]): yield dict(case, files={**case["files"], f: b})
