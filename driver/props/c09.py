"""C09: results do not depend on the contents of uninitialised memory."""
import errno, gen
from props.common import *
from props import apigen
FLAVOURS = ["plain", "zero", "patt"]
QUICK, THOROUGH = 24000, 2_000_000
CAP = 240
RULE = "one command line or library program run with zeroed memory and again with other initial heap and stack contents, other placement of blocks, no reuse of freed blocks, and automatic variables that start as zero or as a pattern; everything observable compared; distinct by event history; trivial when nothing is printed"
ASSUME = ["uninitialised automatic variables take the values the compiler's zero and pattern modes, the scribbled stack and earlier calls give them"]
FILLS = [0, 1, 2, 3, 4, 5, 99]
def gen_case(rng, i, tier):
    vs = []
    for _ in range(rng.choice([2, 2, 3])):
        vs.append([rng.choice(["plain", "plain", "zero", "patt"]), rng.choice(FILLS), rng.choice([0, 0, 1])])
    base = ["plain", rng.choice([0, 0, 99]), 0]
    if rng.random() < .3:
        files = {}
        units = [apigen.unit(rng, 0, files, None, rng.choice([0, .3, .6])) for _ in range(rng.choice([1, 1, 2, 3]))]
        fl = []
        if files and rng.random() < .3: fl = [dict(cls="read", path=rng.choice(sorted(files)), nth=0, err=errno.EIO, sticky=1)]
        return dict(kind="api", units=units, files=files, faults=fl, base=base, vars=vs)
    cmd = gen.command(rng, broken=rng.choice([.1, .5]), sized=.2, ixml=.15, tokenize=.08, edits=.45, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text", "clines"))
    if rng.random() < .12 and "tokenize" not in cmd["argv"]: cmd["argv"] += ["save-to", "saved.out"]
    fl = []
    if rng.random() < .2:
        names = sorted(cmd["files"]) + (["<stdin>"] if cmd["main"] == "-" else [])
        if names: fl.append(dict(cls="read", path=rng.choice(names), nth=rng.randrange(3), err=rng.choice([errno.EINTR, errno.EIO])))
    if rng.random() < .1: fl.append(dict(cls="write", path="<stdout>", nth=rng.randrange(3), err=rng.choice([errno.EINTR, errno.EIO, errno.ENOSPC])))
    if rng.random() < .15: cmd["argv"][1:1] = [rng.choice(["--debug", "--verbose", "--trace"])] if rng.random() < .5 else ["--silent"]
    return dict(kind="cli", cmd=cmd, faults=fl, base=base, vars=vs, rchunk=gen.chunks(rng) if rng.random() < .3 else None)
def sc(case, v):
    if case["kind"] == "api": s = dict(api=dict(threads=1, ops=apigen.flat([case["units"]])), files=case["files"])
    else:
        s = sc_of(case["cmd"])
        if case["rchunk"]: s["rchunk"] = case["rchunk"]
    s["faults"] = case["faults"]; s["mem"] = (v[1], v[2])
    return s
def seen(r):
    return [("end", r.outcome()), ("stdout", r.out), ("stderr", r.err), ("files", tuple(sorted((k, v) for k, v in r.files.items() if k in r.touched))),
            ("results", tuple(x[4] for x in r.log if x[0] == "RESULT"))]
def run(case, ctx):
    b = ctx.run(case["base"][0], **sc(case, case["base"]))
    ctx.key = b.hash; ctx.nontrivial = bool(b.out or b.log)
    ctx.tag("base:" + b.kind)
    if b.kind not in ("exit", "killed"): ctx.tag("baseline " + b.outcome()[:60])
    for v in case["vars"]:
        r = ctx.run(v[0], **sc(case, v))
        ctx.tag("fill%d%s:%s" % (v[1], "+placed" if v[2] else "", v[0]))
        for (n, x), (_, y) in zip(seen(b), seen(r)):
            if x != y:
                what = " ".join(map(str, case["cmd"]["argv"])) if case["kind"] == "cli" else " ;; ".join(apigen.describe(u) for u in case["units"])[:1500]
                d = diff_at(x, y) if isinstance(x, bytes) else "%s vs %s" % (clip(str(x)), clip(str(y)))
                return ctx.violate("differs:" + n, "%s: memory %s gives other %s than %s: %s" % (what, v, n, case["base"], d))
        if r.hash != b.hash: return ctx.violate("differs:history", "memory %s against %s: the sequence of system calls differs" % (v, case["base"]))
def shrink(case):
    for i in range(len(case["vars"])):
        if len(case["vars"]) > 1: yield dict(case, vars=case["vars"][:i] + case["vars"][i + 1:])
    for i, v in enumerate(case["vars"]):
        def put(n): return dict(case, vars=case["vars"][:i] + [n] + case["vars"][i + 1:])
        if v[2]: yield put([v[0], v[1], 0])
        if v[0] != "plain": yield put(["plain", v[1], v[2]])
        if v[1] not in (1, 99): yield put([v[0], 1, v[2]])
    for l in gen.shrink_list(case["faults"]): yield dict(case, faults=l)
    if case["kind"] == "cli":
        if case["rchunk"]: yield dict(case, rchunk=None)
        for c in shrink_cmd(case["cmd"]): yield dict(case, cmd=c)
    else:
        us = case["units"]
        for i in range(len(us)):
            if len(us) > 1: yield dict(case, units=us[:i] + us[i + 1:])
            for u in apigen.shrink_unit(us[i]): yield dict(case, units=us[:i] + [u] + us[i + 1:])
