"""C12: torn or corrupted stored bytes give a document or an error."""
import gen
from props.common import *
FLAVOURS = ["asan", "plain"]
QUICK, THOROUGH = 50000, 2_000_000
CAP = 240
RULE = "one stored file of a valid setup (document, grammar, stylesheet, schema, replacement) is torn, bit flipped, zeroed, spliced or overwritten; the same command or library program runs on it; distinct by the whole event history"
TYPES = ["detect", "xmq", "htmq", "xml", "html", "json", "ixml", "text", "clines"]
TYPENUM = {"detect": 1, "xmq": 2, "htmq": 3, "xml": 4, "html": 5, "json": 6, "ixml": 7, "text": 8, "clines": 9}
def gen_case(rng, i, tier):
    r = rng.random()
    if r < .62:
        cmd = gen.command(rng, broken=0, sized=.04, ixml=.12, tokenize=.12, edits=.35)
        targets = sorted(cmd["files"]) + (["-"] if cmd["main"] == "-" else [])
        t = rng.choice(targets) if rng.random() < .4 else cmd["main"]
        if t == "-": cmd["data"] = gen.corrupt(rng, cmd["data"])
        else:
            cmd["files"][t] = gen.corrupt(rng, cmd["files"][t])
            if t == cmd["main"]: cmd["data"] = cmd["files"][t]
        return dict(kind="cli", cmd=cmd, flavour="asan" if rng.random() < .8 else "plain")
    if r < .70:
        g, d = gen.ixml_case(rng)
        if rng.random() < .6: g = gen.corrupt(rng, g)
        if rng.random() < .5: d = gen.corrupt(rng, d)
        return dict(kind="apiixml", grammar=g, data=d, fmt=rng.randint(1, 3), flavour="asan")
    k, d = gen.doc(rng, ("xmq", "xmq", "xml", "json", "json", "html", "htmq", "clines"), .03, 0)
    if rng.random() < .93: d = gen.corrupt(rng, d)
    ty = k if rng.random() < .8 else rng.choice(TYPES)
    return dict(kind=rng.choice(["api", "api", "tok"]), data=d, type=TYPENUM[ty], fmt=rng.randrange(7), flags=rng.choice([0, 0, 1, 2, 3, 4]),
                render=rng.randrange(5), bits=rng.choice([0, 0, 1, 2 + 4 + 8, 16]), nul=int(rng.random() < .5), flavour="asan")
def case_sc(case):
    k = case["kind"]
    if k == "cli": return sc_of(case["cmd"])
    if k == "apiixml":
        ops = [(0, 1, [0]), (0, 1, [1]), (0, 5, [0, case["data"].replace(b"\0", b""), case["grammar"].replace(b"\0", b""), 0, 1]), (0, 6, [0, case["fmt"], 0, 0, 4, "", 0, 0, "", ""]), (0, 14, [0]), (0, 7, [0]), (0, 7, [1])]
    elif k == "api":
        ops = [(0, 1, [0]), (0, 2, [0, case["data"], case["type"], "", case["flags"], "n"]), (0, 14, [0]), (0, 6, [0, case["fmt"], case["render"], case["bits"], 4, "", 0, 0, "", ""]), (0, 8, [0, "//*", 3, ""]), (0, 7, [0])]
    else:
        ops = [(0, 10, [case["data"], 1 + case["fmt"] % 7, case["render"], case["bits"]])]
    return dict(api=dict(threads=1, ops=ops))

def run(case, ctx):
    sc = case_sc(case)
    r = ctx.run(case["flavour"], **sc)
    ctx.tag("kind:" + case["kind"]); ctx.count_fault("stored_bytes_corrupted", 1)
    ctx.tag("end:%s" % (r.kind if r.kind != "exit" else "exit%d" % r.code))
    ctx.nontrivial = r.kind == "exit"; ctx.key = r.hash
    b = bad_end(r)
    if b: return ctx.violate(b, "%s %s; stderr %s; asan %s" % (case["kind"], r.outcome(), clip(r.err), clip(r.asan, 900)))
    if case["kind"] == "cli" and r.kind == "exit" and r.code != 0 and not r.err and not r.out and "--silent" not in case["cmd"]["argv"]:
        return ctx.violate("silent-failure", "exit %d without any diagnostic: %s" % (r.code, case["cmd"]["argv"]))
def shrink(case):
    if case["kind"] == "cli":
        for c in shrink_cmd(case["cmd"]): yield dict(case, cmd=c)
    else:
        for k in ("data", "grammar"):
            if k in case:
                for b in gen.shrink_bytes(case[k]): yield {**case, k: b}
