"""C01: what is read does not depend on how the bytes arrive."""
import errno, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 40000, 3_000_000
CAP = 240
RULE = "one input read whole from a healthy regular file, then the same bytes split, interrupted, through a pipe, standard input or a caller's buffer; distinct by result and the history of the varied deliveries; trivial when the whole read gives no document"
WORDS = {"delete", "select", "add", "to-xml", "help", "print", "pager"}
def delivery(rng, cmd):
    v = dict(src=rng.choice(["file", "file", "fifo", "pipe", "pipe", "stdinfile"]), rchunk=gen.chunks(rng) if rng.random() < .85 else None, faults=[], aux=rng.choice([0, 0, 1]))
    d = cmd["data"]
    if cmd["kind"] != "ixml" and rng.random() < .08 and d and b"\0" not in d and d[:1] not in b"-" and d.decode("utf-8", "replace") not in WORDS: v["src"] = "content"
    if rng.random() < .5:
        name = "<stdin>" if v["src"] in ("pipe", "stdinfile") else cmd["main"]
        for _ in range(rng.choice([1, 1, 2, 5])):
            path = name if rng.random() < .8 or not cmd["files"] else rng.choice(sorted(cmd["files"]))
            v["faults"].append(dict(cls="read", path=path, nth=rng.choice([0, 0, 1, 2, 3, 5, 9, rng.randint(0, 40)]), err=errno.EINTR) if rng.random() < .6 else
                               dict(cls="read", path=path, off=rng.randint(0, max(1, len(d))), err=errno.EINTR))
    return v
def gen_case(rng, i, tier):
    if rng.random() < .8:
        cmd = gen.command(rng, source="file", sized=.4, broken=.08, tokenize=.08, edits=.35, ixml=.12, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text", "clines"))
        return dict(kind="cli", cmd=cmd, vars=[delivery(rng, cmd) for _ in range(rng.choice([2, 3, 4]))])
    ix = rng.random() < .25
    if ix:
        g, d = gen.ixml_case(rng)
        d = d.replace(b"\0", b""); ty = 0
    else:
        g = b""; k, d = gen.doc(rng, ("xmq", "xmq", "xml", "json", "html"), .4, .08)
        ty = rng.choice([1, {"xmq": 2, "xml": 4, "html": 5, "json": 6}[k]])
    cmd = dict(main="f", files={"f": d}, data=d, kind="api")
    vs = [delivery(rng, cmd) for _ in range(2)]
    for v in vs:
        v["src"] = {"content": "buffer", "pipe": "fifo", "stdinfile": "buffer"}.get(v["src"], v["src"])
        for f in v["faults"]: f["path"] = "f"
    return dict(kind="api", data=d, grammar=g, ix=ix, type=ty, fmt=rng.randint(1, 3), tok=int(not ix and rng.random() < .2), vars=vs)

def vary(cmd, v):
    argv = list(cmd["argv"]); files = dict(cmd["files"]); sc = {}
    s = v["src"]
    if v["aux"]:
        for f in files:
            if f != cmd["main"]: files[f] = dict(kind=2, data=files[f])
    if s == "fifo": files[cmd["main"]] = dict(kind=2, data=cmd["data"])
    elif s in ("pipe", "stdinfile"):
        argv[argv.index(cmd["main"])] = "-"; files.pop(cmd["main"])
        sc["stdin"] = (0 if s == "pipe" else 3, cmd["data"])
    elif s == "content":
        i = argv.index(cmd["main"]); argv[i:i + 1] = [cmd["data"]]; argv[1:1] = ["-i"]; files.pop(cmd["main"])
    sc.setdefault("stdin", (2, b""))
    sc.update(argv=argv, files=files, faults=v["faults"])
    if v["rchunk"]: sc["rchunk"] = v["rchunk"]
    return sc
def api_sc(case, v):
    src = v["src"] if v else "file"
    d = case["data"]
    pr = (0, 6, [0, case["fmt"], 0, 0, 4, "", 0, 0, "", ""])
    if case["tok"]: ops = [(0, 10, [d, 1, 0, 0])] if src == "buffer" else [(0, 11, ["f", 1, 0, 0])]
    elif case["ix"]:
        ops = [(0, 1, [0]), (0, 5, [0, d, case["grammar"], 0, 1]) if src == "buffer" else (0, 19, [0, "f", case["grammar"], 0]), pr, (0, 7, [0])]
    else: ops = [(0, 1, [0]), (0, 2, [0, d, case["type"], "", 0, "f"]) if src == "buffer" else (0, 3, [0, "f", case["type"], "", 0]), (0, 14, [0]), pr, (0, 7, [0])]
    sc = dict(api=dict(threads=1, ops=ops), files={"f": dict(kind=2, data=d) if src == "fifo" else d})
    if v:
        sc["faults"] = v["faults"]
        if v["rchunk"]: sc["rchunk"] = v["rchunk"]
    return sc
def results(r):
    """API results; the sizes and 'type=' of file and buffer calls are reported differently and left out"""
    o = []
    for e in r.log:
        if e[0] == "RESULT": o.append(re.sub(rb" (type|size|root)=\S+", b"", e[4]))
    return o
def observe(r): return (r.kind, r.code, r.why, r.out, tuple(sorted((k, v) for k, v in r.files.items() if k in r.touched)))
def run(case, ctx):
    cli = case["kind"] == "cli"
    if cli: base = ctx.run("plain", **sc_of(case["cmd"]))
    else: base = ctx.run("plain", **api_sc(case, None))
    if base.kind != "exit": ctx.tag("baseline:" + base.kind); return
    ctx.nontrivial = base.code == 0 and (len(base.out) > 0 or not cli)
    ctx.tag("baseline:exit%d" % base.code)
    hs = [base.hash]
    for v in case["vars"]:
        ctx.tag("via:" + v["src"] + ("+split" if v["rchunk"] else ""))
        if not cli and case["tok"] and v["src"] == "buffer": continue
        # no input at all on standard input means: only check the grammar
        if cli and v["src"] in ("pipe", "stdinfile") and not case["cmd"]["data"] and any(str(a).startswith("--ixml") for a in case["cmd"]["argv"]): continue
        r = ctx.run("plain", **(vary(case["cmd"], v) if cli else api_sc(case, v)))
        hs.append(r.hash)
        if cli:
            if observe(r) != observe(base):
                what = "result"
                if r.kind != base.kind or r.code != base.code: what = "outcome"
                elif r.out != base.out: what = "output"
                return ctx.violate("delivery:%s:%s" % (what, v["src"]), "%s: whole file gives %s, via %s gives %s; %s; stderr %s" % (" ".join(map(str, case["cmd"]["argv"][:8])), base.outcome(), v, r.outcome(), diff_at(base.out, r.out), clip(r.err)))
            if v["src"] in ("file", "fifo") and r.err != base.err:
                return ctx.violate("delivery:diagnostic", "%s: %s" % (v, diff_at(base.err, r.err)))
        else:
            a, b = results(base), results(r)
            if a != b or r.kind != base.kind:
                j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                return ctx.violate("delivery:api:" + v["src"], "via %s: %s; result %d: %s" % (v, r.outcome(), j, diff_at(a[j] if j < len(a) else b"", b[j] if j < len(b) else b"")))
    ctx.key = "".join(h[:8] for h in hs)
def shrink(case):
    for i in range(len(case["vars"])):
        if len(case["vars"]) > 1: yield dict(case, vars=case["vars"][:i] + case["vars"][i + 1:])
    for i, v in enumerate(case["vars"]):
        def put(n): return dict(case, vars=case["vars"][:i] + [n] + case["vars"][i + 1:])
        for f in gen.shrink_list(v["faults"]): yield put(dict(v, faults=f))
        if v["aux"]: yield put(dict(v, aux=0))
        if v["rchunk"]:
            yield put(dict(v, rchunk=None))
            if len(v["rchunk"]) > 1:
                for l in gen.shrink_list(v["rchunk"]):
                    if l: yield put(dict(v, rchunk=l))
    if case["kind"] == "cli":
        for c in shrink_cmd(case["cmd"]):
            if c["main"] in c["files"]: yield dict(case, cmd=dict(c, data=c["files"][c["main"]]))
    else:
        for b in gen.shrink_bytes(case["data"]): yield dict(case, data=b)
