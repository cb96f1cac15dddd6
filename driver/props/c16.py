"""C16: every destination receives the same bytes, in order and exactly once."""
import random, gen
from props.common import *
FLAVOURS = ["plain", "asan"]
QUICK, THOROUGH = 30000, 2_000_000
CAP = 240
RULE = "one document, one output format and setting, rendered to memory, to a caller's writer (also one that fails after a seeded number of pieces), to standard output and, by the command, to standard output and into a saved file, with short and interrupted writes; distinct by event histories"
TYPENUM = {"detect": 1, "xmq": 2, "htmq": 3, "xml": 4, "html": 5, "json": 6, "ixml": 7, "text": 8, "clines": 9}
THEMES = ["", "", "lightbg", "darkbg", "nosuch"]
def gen_case(rng, i, tier):
    if rng.random() < .35:
        cmd = gen.command(rng, broken=.02, sized=.2, tokenize=.05, edits=.2, ixml=.05, big=30000 if rng.random() < .1 else 0)
        return dict(kind="cli", cmd=cmd, wchunk=gen.chunks(rng) if rng.random() < .6 else None, out_kind=rng.choice([0, 2]), buf=rng.choice([0, 0, 1, 16, 1024]), old=rng.choice([-1, -1, 0, 1, 100, 5000, 70000]))
    k, d = gen.doc(rng, ("xmq", "xmq", "xml", "json", "html", "htmq", "text", "clines"), .15, .01, 30000 if rng.random() < .15 else 0)
    return dict(kind="api", data=d, type=TYPENUM[k], flags=rng.choice([0, 0, 0, 1, 2, 3, 4]), fmt=rng.randrange(0, 10), render=rng.randrange(6), bits=sum(b for b in (1, 2, 4, 8, 16, 32, 64, 128, 256) if rng.random() < .22),
                indent=rng.choice([0, 1, 4, 4, 9]), theme=rng.choice(THEMES), fail=[rng.choice([1, 2, 3, 5, 10, 30, 100, 1000]) for _ in range(2)], id=rng.choice(["", "", "foo"]), cls=rng.choice(["", "", "bar"]),
                wchunk=gen.chunks(rng) if rng.random() < .4 else None, buf=rng.choice([0, 0, 1, 16, 1024]), flavour="asan" if rng.random() < .15 else "plain", second=int(rng.random() < .3))
def texts(r): return [x[4] for x in r.log if x[0] == "RESULT"]
def run(case, ctx):
    if case["kind"] == "cli":
        cmd = case["cmd"]
        kw = dict(stdout_kind=case["out_kind"], stdout_buf=case["buf"])
        if case["wchunk"]: kw["wchunk"] = case["wchunk"]
        a = ctx.run("plain", **sc_of(cmd))
        s = ctx.run("plain", **sc_of(cmd, **kw))
        c2 = dict(cmd, argv=cmd["argv"] + ["save-to", "saved.out"])
        if case["old"] >= 0: c2["files"] = dict(c2["files"], **{"saved.out": b"OLD " * (case["old"] // 4) + b"o" * (case["old"] % 4)})
        f = ctx.run("plain", **sc_of(c2, **kw))
        what = "%s: stdout %s, short writes %s, saved %s" % (" ".join(cmd["argv"]), a.outcome(), s.outcome(), f.outcome())
        ctx.key = a.hash + f.hash; ctx.nontrivial = len(a.out) > 0 and a.exit0(); ctx.tag("cli:" + cmd["argv"][-1][:12])
        for r in (a, s, f):
            b = bad_end(r)
            if b: return ctx.violate(b, what)
        if a.code != s.code or a.out != s.out or a.err != s.err: return ctx.violate("stdout", what + "; " + diff_at(a.out, s.out))
        if not any(x in cmd["argv"] for x in ("tokenize", "statistics")):
            if a.code != f.code: return ctx.violate("save-status", what + "; stderr %s / %s" % (clip(a.err), clip(f.err)))
            if a.code == 0:
                if f.out: return ctx.violate("save-stdout", what + "; saving also printed " + clip(f.out))
                got = f.files.get("saved.out")
                if got is None or got != a.out: return ctx.violate("save-bytes", what + "; " + (diff_at(a.out, got) if got is not None else "nothing saved"))
        return
    pr = lambda w, fail=0: (0, 6, [0, case["fmt"], case["render"], case["bits"], case["indent"], case["theme"], w, fail, case["id"], case["cls"]])
    parse = [(0, 1, [0]), (0, 2, [0, case["data"], case["type"], "", case["flags"], "n"])]
    if case["second"]: parse = parse + [pr(0)]
    n = len(parse)
    def go(ops):
        kw = {}
        if case["wchunk"]: kw["wchunk"] = case["wchunk"]
        return ctx.run(case["flavour"], stdout_buf=case["buf"], api=dict(threads=1, ops=parse + ops + [(0, 7, [0])]), **kw)
    mem = go([pr(0)])
    what = "format %d render %d bits %d indent %d theme %r of type %d %s" % (case["fmt"], case["render"], case["bits"], case["indent"], case["theme"], case["type"], clip(case["data"], 300))
    b = bad_end(mem)
    if b: return ctx.violate(b, what + " in memory; asan " + clip(mem.asan, 600) + clip(mem.err))
    t = texts(mem)
    if not t[1].startswith(b"ok"): ctx.tag("rejected"); return
    m = t[n]
    if m == b"(none)": m = b""
    if case["second"]:
        m0 = b"" if t[n - 1] == b"(none)" else t[n - 1]
        if m0 != m: ctx.tag("second print differs")   # printing to html or xml may repair the document
    ctx.tag("fmt:%d" % case["fmt"]); ctx.nontrivial = len(m) > 0
    cb = go([pr(1)]); b = bad_end(cb)
    if b: return ctx.violate(b, what + " to a writer; asan " + clip(cb.asan, 600) + clip(cb.err))
    c = texts(cb)[n]
    if c.endswith(b"(BADRANGE)") and not m.endswith(b"(BADRANGE)"): return ctx.violate("bad-range", what)
    if c != m: return ctx.violate("writer", what + "; memory vs writer " + diff_at(m, c))
    so = go([pr(2)]); b = bad_end(so)
    if b: return ctx.violate(b, what + " to stdout; " + clip(so.err))
    if so.out != m: return ctx.violate("stdout", what + "; memory vs stdout " + diff_at(m, so.out))
    for k in case["fail"]:
        fb = go([pr(1, k)]); b = bad_end(fb)
        if b: return ctx.violate(b, what + " to a writer failing at piece %d; asan " % k + clip(fb.asan, 600) + clip(fb.err))
        x = texts(fb)[n]
        if not m.startswith(x): return ctx.violate("writer-prefix", what + "; writer failing at piece %d got %s" % (k, clip(x)))
        ctx.count_fault("writer_callback_failed", 1)
    ctx.key = mem.hash + cb.hash + so.hash
def shrink(case):
    if case["kind"] == "cli":
        for c in shrink_cmd(case["cmd"]): yield dict(case, cmd=c)
        if case["wchunk"]: yield dict(case, wchunk=None)
        if case["old"] != -1: yield dict(case, old=-1)
        return
    for d in gen.shrink_bytes(case["data"]): yield dict(case, data=d)
    for b in (1, 2, 4, 8, 16, 32, 64, 128, 256):
        if case["bits"] & b: yield dict(case, bits=case["bits"] & ~b)
    for k, v in (("wchunk", None), ("buf", 0), ("second", 0), ("theme", ""), ("id", ""), ("cls", ""), ("flags", 0), ("indent", 4), ("fail", [1])):
        if case[k] != v: yield dict(case, **{k: v})
