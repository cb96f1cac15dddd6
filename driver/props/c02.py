"""C02: an input that cannot be read in full is an error, never a partial document."""
import errno, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 70000, 4_000_000
CAP = 240
RULE = "a command line that succeeds on healthy inputs is run again with one of its inputs failing to open, failing at some byte, shrinking while it is read, or being a directory or a closed descriptor; distinct by the history of the failing run; trivial when the fault is never reached"
OPEN_E = [errno.ENOENT, errno.EACCES, errno.EMFILE, errno.EIO, errno.ELOOP, errno.ENAMETOOLONG]
READ_E = [errno.EIO, errno.EIO, errno.EISDIR, errno.ENOMEM, errno.ESTALE, errno.EAGAIN, errno.ENXIO, errno.EBADF]
STYLES = [
 (b'xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform) {\n xsl:import(href=lib.xslq)\n xsl:template(match=/) { out { xsl:call-template(name=t) } }\n}\n', "lib.xslq",
  b'xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform) {\n xsl:template(name=t) { x { xsl:value-of(select=count(//*)) } }\n}\n'),
 (b'xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform) {\n xsl:include(href=lib.xsl)\n xsl:template(match=/) { out { xsl:call-template(name=t) } }\n}\n', "lib.xsl",
  b'<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"><xsl:template name="t"><y>1</y></xsl:template></xsl:stylesheet>\n'),
]
def fault(rng, path, size, stdin):
    r = rng.random()
    if path is None: return None
    if r < .2 and not stdin: return dict(cls="open_r", path=path, nth=0, err=rng.choice(OPEN_E), sticky=int(rng.random() < .7))
    if r < .8:
        off = rng.choice([0, 1, max(0, size - 1), size, size // 2, rng.randint(0, max(1, size)), 512, 1023, 1024, 4095, 4096, 9999, 10000, 20000])
        return dict(cls="read", path=path, off=min(off, size), err=rng.choice(READ_E), sticky=int(rng.random() < .7))
    if r < .88: return dict(cls="read", path=path, nth=rng.randrange(3), err=rng.choice(READ_E), sticky=int(rng.random() < .6))
    if r < .91 and not stdin: return dict(cls="seek", path=path, nth=rng.randrange(3), err=errno.EIO)
    if not stdin and size > 0:
        at = rng.choice([0, size // 2, rng.randint(0, size)]); return dict(cls="shrink", path=path, off=at, arg=rng.randint(0, max(0, size - 1)))
    return dict(cls="read", path=path, off=0, err=errno.EIO, sticky=1)
def gen_case(rng, i, tier):
    if rng.random() < .16:
        k, d = gen.doc(rng, ("xmq", "xml", "json", "html", "text", "xmq"), .5, 0)
        ixml = rng.random() < .15
        g = b""
        if ixml: g, d = gen.ixml_case(rng); d = d.replace(b"\0", b"")
        op = "ixml" if ixml else rng.choice(["typed", "typed", "plain", "tok"])
        f = fault(rng, "f", len(d), False)
        return dict(kind="api", op=op, data=d, grammar=g, type=rng.choice([1, {"xmq": 2, "xml": 4, "html": 5, "json": 6, "text": 8}[k] if not ixml else 1]), rchunk=gen.chunks(rng) if rng.random() < .3 else None, faults=[f])
    cmd = gen.command(rng, broken=0, sized=.4, ixml=.12, tokenize=.07, edits=.5, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text", "clines"))
    if rng.random() < .05 and "tokenize" not in cmd["argv"] and cmd["kind"] != "ixml":
        st, n, lib = rng.choice(STYLES)
        cmd["files"]["main.xslq"] = st; cmd["files"][n] = lib
        j = 2 if cmd["main"] != "-" else 1
        p = cmd["argv"].index(cmd["main"]) + 1 if cmd["main"] in cmd["argv"] else None
        if p: cmd["argv"][p:p] = ["transform", "main.xslq"]
    if rng.random() < .35 and "tokenize" not in cmd["argv"]:
        cmd["argv"] += ["save-to", "saved.out"]
        if rng.random() < .5: cmd["files"]["saved.out"] = b"old content\n"
    if rng.random() < .05 and "save-to" in cmd["argv"] and cmd["main"] != "-": cmd["argv"][-1] = cmd["main"]
    names = [n for n in sorted(cmd["files"]) if n != "saved.out"] + (["<stdin>"] if cmd["main"] == "-" else [])
    main = "<stdin>" if cmd["main"] == "-" else cmd["main"]
    how = rng.random(); t = main if rng.random() < .3 or len(names) == 1 else rng.choice([n for n in names if n != main])
    size = len(cmd["data"] if t == main else cmd["files"][t])
    c = dict(kind="cli", cmd=cmd, target=t, mode="fault", faults=[], rchunk=gen.chunks(rng) if rng.random() < .3 else None)
    if how < .05 and t != "<stdin>": c["mode"] = "dir"
    elif how < .08 and t != "<stdin>": c["mode"] = "missing"
    elif how < .1 and t == "<stdin>": c["mode"] = "closed"
    elif how < .16 and t != "<stdin>": c["mode"] = "fifo"; c["faults"] = [dict(cls="read", path=t, off=rng.randint(0, size), err=rng.choice(READ_E), sticky=int(rng.random() < .7))]
    else:
        c["faults"] = [fault(rng, t, size, t == "<stdin>")]
        if t == "<stdin>" and rng.random() < .25: c["mode"] = "stdinfile"
    return c
def api_sc(case, healthy):
    d = case["data"]; op = case["op"]
    if op == "typed": l = (0, 3, [0, "f", case["type"], "", 0])
    elif op == "plain": l = (0, 18, [0, "f", "", 0])
    elif op == "ixml": l = (0, 19, [0, "f", case["grammar"], 0])
    else: l = (0, 11, ["f", 1, 0, 0])
    ops = [(0, 1, [0]), l, (0, 14, [0]), (0, 6, [0, 1, 0, 0, 4, "", 0, 0, "", ""]), (0, 7, [0])]
    sc = dict(api=dict(threads=1, ops=ops), files={"f": d})
    if not healthy:
        sc["faults"] = case["faults"]
        if case["rchunk"]: sc["rchunk"] = case["rchunk"]
    return sc
def res(r): return [e[4] for e in r.log if e[0] == "RESULT"]
EMPTYDOC = None
def run(case, ctx):
    if case["kind"] == "api": return run_api(case, ctx)
    cmd = case["cmd"]
    base = ctx.run("plain", **sc_of(cmd))
    if base.kind != "exit" or base.code != 0: ctx.tag("baseline:fails"); return
    sc = sc_of(cmd); t = case["target"]
    sc["faults"] = case["faults"]
    if case["rchunk"]: sc["rchunk"] = case["rchunk"]
    if case["mode"] == "dir": sc["files"][t] = dict(kind=1)
    elif case["mode"] == "missing": sc["files"].pop(t)
    elif case["mode"] == "fifo": sc["files"][t] = dict(kind=2, data=cmd["files"][t])
    elif case["mode"] == "closed": sc["stdin"] = (2, b"")
    elif case["mode"] == "stdinfile": sc["stdin"] = (3, cmd["data"])
    if case["mode"] == "dir" and cmd["argv"][-1] == t and "save-to" in cmd["argv"]: return ctx.tag("skip")
    r = ctx.run("plain", **sc)
    reached = any(r.fired[:len(case["faults"])]) if case["faults"] else True
    if not reached: ctx.tag("fault not reached"); return
    # a file that the healthy run never opens cannot fail
    opened = {e[4] for e in base.log if e[0] == "OPEN"}
    if t != "<stdin>" and t not in opened: ctx.tag("not read"); return
    f = case["faults"][0] if case["faults"] else dict(cls=case["mode"])
    role = "main" if t in ("<stdin>", cmd["main"]) else t.split(".")[-1] if not t.startswith("aux") else "replacement"
    ctx.tag("%s:%s" % (f["cls"], role)); ctx.nontrivial = True; ctx.key = r.hash
    same = r.out == base.out and {k: r.files.get(k) for k in r.touched} == {k: base.files.get(k) for k in base.touched}
    what = "%s, %s of %s: %s" % (" ".join(cmd["argv"]), f, t, r.outcome())
    if r.kind == "exit" and r.code == 0:
        if same: ctx.tag("recovered with the full result"); return
        return ctx.violate("partial:success:" + role, what + "; " + diff_at(base.out, r.out) + "; stderr " + clip(r.err))
    if r.kind != "exit": return ctx.violate("crash:" + role, what + "; " + clip(r.err))
    if r.out and not diag(r.out, base.out): return ctx.violate("partial:stdout:" + role, what + "; printed " + clip(r.out))
    if r.touched: return ctx.violate("partial:file:" + role, what + "; touched " + " ".join(sorted(r.touched)))
    if not r.err and not r.out and "--silent" not in cmd["argv"]: return ctx.violate("silent:" + role, what + " without a diagnostic")
    if not r.err and not r.out.startswith(b"xmq"): return ctx.violate("silent:" + role, what + " without a diagnostic: " + clip(r.out))
def diag(out, base):
    """only messages of the program on stdout, nothing of the result"""
    return all(l.startswith((b"xmq: ", b"xmq ")) for l in out.splitlines())
def run_api(case, ctx):
    base = ctx.run("plain", **api_sc(case, True))
    a = res(base)
    if base.kind != "exit" or b"fail" in a[1][:9] : ctx.tag("baseline:fails"); return
    r = ctx.run("plain", **api_sc(case, False))
    if not any(r.fired[:1]): ctx.tag("fault not reached"); return
    b = res(r); f = case["faults"][0]
    ctx.tag("%s:api" % f["cls"]); ctx.nontrivial = True; ctx.key = r.hash
    what = "%s %s: %s results %s" % (case["op"], f, r.outcome(), [clip(x, 120) for x in b])
    if r.kind != "exit": return ctx.violate("crash:api", what)
    if b == a: ctx.tag("recovered with the full result"); return
    if case["op"] == "tok":
        if b[1].startswith(b"ok"): return ctx.violate("partial:api:tok", what)
        return
    if not b[1].startswith((b"fail", b"g:ok fail")): return ctx.violate("partial:api:success", what)
    m = re.search(rb"errno=(\d+) err=(.*)", b[1], re.S)
    if not m or m.group(1) == b"0" or m.group(2).strip() in (b"", b"(null)"): return ctx.violate("silent:api", what)
    e = ctx.run("plain", api=dict(threads=1, ops=[(0, 1, [0]), (0, 6, [0, 1, 0, 0, 4, "", 0, 0, "", ""]), (0, 7, [0])]))
    if b[3] != res(e)[1]: return ctx.violate("partial:api:document", what)
def shrink(case):
    if case["rchunk"]: yield dict(case, rchunk=None)
    if case["kind"] == "cli":
        for c in shrink_cmd(case["cmd"]):
            t = case["target"]
            if t != "<stdin>" and t not in c["files"]: continue
            yield dict(case, cmd=c)
            if case["faults"] and case["faults"][0].get("off", -1) > 0: yield dict(case, cmd=c, faults=[dict(case["faults"][0], off=case["faults"][0]["off"] // 2)])
    else:
        for b in gen.shrink_bytes(case["data"]): yield dict(case, data=b)
    for f in case["faults"]:
        for o in (0, f.get("off", 0) // 2, f.get("off", 0) - 1):
            if 0 <= o < f.get("off", 0): yield dict(case, faults=[dict(f, off=o)])
