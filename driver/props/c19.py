"""C19: the work and the memory for a document grow in proportion to its size."""
import errno, re, gen
from props.common import *
FLAVOURS = ["work"]
QUICK, THOROUGH = 9000, 2_000_000
CAP = 240
RULE = "a seeded part is repeated in a document of about 2 KiB and in one of about 64 KiB, which are delivered in seeded pieces to the same command; steps (basic blocks, plus one for every 16 bytes that a string function or a reallocation goes through), peak memory and calls to the outside of the two runs are compared; distinct by the history of the long run; trivial when the command fails"
ASSUME = ["the work inside libxml2 and libxslt is counted only as the memory they request", "parsing with a grammar (Earley) and documents that get deeper as they get longer are left out: each level looks through the namespaces of those above it, as an element does through its own"]
SLACK = 1.6
# (before, part, after); %d is the number of the part
FIXED = {
 "xmq": [("a{", "x%d=1\n", "}"), ("a{", "b ", "}"), ("a{", "b{c=1}", "}"), ("a(", "k%d=v ", ")"), ("a{", "// hej\n", "}"), ("a{", "/* x */", "}"), ("a{/*", "x\n", "*/}"), ("a{/*", "*x", "*/}"), ("a{/* x *", "/* x *", "/}"),
         ("a='", "x", "'"), ("a='", "x\n", "'"), ("a='", " ", "'"), ("a='''", " ' ", "'''"), ("a{", "&lt;", "}"), ("a=(", "&#10;'x'", ")"), ("a=(", "&#10;&foo;'x'", ")"), ("a{b{", "&#1;", "}}"), ("a{", "&foo; x ", "}"), ("a{", "'x'", "}"), ("a{", "'x' b ", "}"), ("a{", " \n", "}"), ("a{", "\t", "}"),
         ("", "?x=y\n", "a"), ("a{", "?x='y'\n", "}"), ("?x=(", "'y'&#10;", ") a"), ("a='", "x\r\n", "'"), ("a='", "å€", "'"), ("a='", "&<>", "'"), ("a{", "x:b(xmlns:x=u)\n", "}"), ("a(x='", "y\n", "')"), ("a(x=(", "'y'&#10;", "))"), ("a{b(", "x:c%d=1 ", ")}"), 
         ("!DOCTYPE='a [", "<!ENTITY e%d \"x\">\n", "]' a"), ("a='", "\n      x", "\n  '"), ("a='", " x ", "'"), ("a{", "b{c{d{e=1}}}", "}"), ("a{", "b='x\n  y'\n", "}"), ("", "// c\n", "a"), ("a ", "// c\n", ""), ("a='", "\\", "'"), ("a{", "b='x''", "}"), ("a{b", "b", "=1}"), ("a=", "b", "")],
 "xml": [("<a>", "<b>1</b>", "</a>"), ("<a>", "x ", "</a>"), ("<a>", "<![CDATA[x]]>", "</a>"), ("<a>", "<!-- c -->", "</a>"), ("<a><!--", "c\n", "--></a>"), ("<a>", "x<b/>", "</a>"), ("<a>", "&amp;x", "</a>"), ("<a>", "\n", "</a>"), ("<a>", "'", "</a>"), ("<a>", " '", "</a>"), ("<a>", "x\n\n", "</a>"),
         ("<a ", 'k%d="v" ', "/>"), ("<a><!--", "**/", "--></a>"), ("<a>x", "  \n  y", "</a>"), ("<a>", "/", "</a>"), ("<a>", '<x:b xmlns:x="u"/>', "</a>"), ('<a v="', "x&#10;", '"/>'), ("<a>", "<?x y?>", "</a>"), ("<a>", "&#160;", "</a>"), ("<a>", "&#13;\n", "</a>"), ("<a>", "<b%d c=''/>", "</a>"), ("<!DOCTYPE a [", "<!ENTITY e%d 'x'>", "]><a/>"), ("<a>", "<b>\n<c>x</c>\n</b>\n", "</a>"), ("<a>", "&foo;", "</a>"), ("<a>", "&foo;x", "</a>")],
 "html": [("<html><body>", "<p>x</p>", "</body></html>"), ("<html><body><p>", "x &lt; ", "</p></body></html>"), ("<html><body><pre>", " x\n", "</pre></body></html>"), ("<html><body><p>", "<b>x</b> y ", "</p></body></html>"), ("<html><script>", "x<y;\n", "</script></html>"), ("<html><body>", "<br>x", "</body></html>"), ("<table>", "<tr><td>1</td><td>2</td></tr>", "</table>")],
 "json": [("[", "1,", "1]"), ("{", '"k%d":1,', '"z":1}'), ("{", '"k":1,', '"z":1}'), ('{"a":"', "x\\n", '"}'), ('{"a":"', "\\u00e5", '"}'), ("[", '{"a":"b"},', "1]"), ("[", " ", "1]"), ('{"', "x", '":1}'), ("[", '"x y",', "1]"), ('{"a":"', "\\ud83d\\ude00", '"}'), ('{"a":[', '[1,"2",null],', "true]}"), ("[", '"%d",', "1]"), ('{"a":"', "'", '"}'), ("[", '"",', "1]"), ('{"_":"a",', '"_k%d":"v",', '"z":1}'), ("{", '"//":"c",', '"z":1}')],
 "text": [("", "hello\n", ""), ("", "x", ""), ("", " ", ""), ("", "'\n", ""), ("", "\\n", ""), ("", '"\\t', "")],
 "clines": [("", '/a/b=%d\n', "")],
}
FIXED["htmq"] = FIXED["xmq"]
def part(rng):
    """-> (format, before, part, after)"""
    f = rng.choice(["xmq", "xmq", "xmq", "xml", "xml", "json", "html", "htmq", "text", "clines"])
    r = rng.random()
    if r < .45 or f in ("clines", "html", "htmq"): return (f,) + rng.choice(FIXED[f])
    t = gen.stew(rng) if r < .7 else gen.text(rng)
    t = t or "x"
    if f == "text": return f, "", t, ""
    if f == "json":
        if r < .7: return f, '{"a":"', "".join({"\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\", '"': '\\"'}.get(c, c) for c in t), '"}'
        return f, "[", gen.jtext(gen.jval(rng, 2), rng) + ",", "1]"
    if r < .7:
        if f == "xml":
            e = gen.XMLBAD.sub("", t).replace("&", "&amp;").replace("<", "&lt;").replace("\r", "&#13;") or "x"
            return rng.choice([(f, "<a>", e, "</a>"), (f, "<a>b<!--", e.replace("-", "="), "--></a>"), (f, "<a v='", e.replace("'", "&#39;"), "'/>"), (f, "<a><b/>", e, "<b/></a>"), (f, "<a>", "<b>" + e + "</b>", "</a>"), (f, "<a>", "<b v='" + e.replace("'", '"') + "'/>", "</a>"), (f, "<a>", "<!--" + e.replace("-", "=") + "-->", "</a>"), (f, "<a>", "&foo;" + e + "<b/>", "</a>")])
        q = "'" * rng.choice([1, 3, 4, 5])
        while len(q) > 1 and q in t or len(q) == 1 and "'" in t: q += "''" if len(q) == 1 else "'"
        return rng.choice([(f, "a=" + q, t, " " + q), (f, "a{/*", t, "*/}"), (f, "a(v=" + q, t, " " + q + ")"), (f, "a{", "b=" + q + t + " " + q + " ", "}"), (f, "a=(", q + t + " " + q + "&#10;", ")"), (f, "a{", "/*" + t + "*/ ", "}"), (f, "a{", t, "}")])
    n = gen.tree(rng, rng.choice([0, 1, 2]), 3, 0, True, rng.random() < .3)
    return (f, "<root>", gen.xml(n, rng, False), "</root>") if f == "xml" else (f, "root {", gen.xmq(n, rng) + "\n", "}")
ENDS = [["to-xmq"], ["to-xmq"], ["to-xmq", "--compact"], ["to-xmq", "--indent=0"], ["to-xmq", "--escape-newlines"], ["to-xmq", "--escape-non-7bit"], ["to-xmq", "--escape-tabs"], ["to-xmq", "--color"], ["to-xmq", "--compact", "--color"], ["to-xml"], ["to-html"], ["to-htmq"], ["to-json"], ["to-text"], ["to-clines"], ["render-html"], ["render-html", "--onlystyle"], ["render-tex"], ["render-terminal", "--color"], ["render-terminal", "--theme=mono"], ["no-output"], ["to-xmq", "save-to", "out.xmq"], ["render-raw"]]
MIDS = [["delete", "//b"], ["delete", "//text()"], ["delete", "//@*"], ["select", "//b"], ["select", "/*/*"], ["add", "b"], ["add-root", "top"], ["delete-entity", "foo"], ["substitute-char-entities"], ["for-each", "//nosuch", "--shell=x ${.}"], ["statistics"], ["add-root", "b", "delete", "//c"], ["replace-entity", "nosuch", "x"]]
def gen_case(rng, i, tier):
    f, a, u, z = part(rng)
    # a quote with several lines belongs at the column where it starts
    if f in ("xmq", "htmq") and u != z and re.search("[\r\n]", u) and re.search("['/]", u): u = "\n" + u
    # names of any length, with what differs anywhere in them
    if re.search("[kxbe]%d", u) and rng.random() < .6: u = re.sub("[kxbe]%d", lambda m: m[0][0] + "".join(rng.choice("abcdefgh_-.") for _ in range(rng.choice([1, 3, 7, 11, 17, 30]))) + "%d" + rng.choice(["", "z", "_of_them_all_there_is"]), u)
    pre = ["--" + f]
    if rng.random() < .2: pre.append(rng.choice(["--trim=none", "--trim=heuristic", "--trim=exact", "--no-merge"]))
    r = rng.random()
    if r < .07: pre, cmd = [], ["tokenize", "--type=" + rng.choice(["location", "debugtokens", "debugcontent", "terminal", "html", "tex"])]
    elif r < .1: pre, cmd = ["--text"], [rng.choice(["quote-c", "unquote-c"])]
    else: cmd = (rng.choice(MIDS) if rng.random() < .3 else []) + rng.choice(ENDS)
    if f in ("json", "html", "htmq", "clines") and "tokenize" not in cmd and rng.random() < .3: cmd = ["to-" + f]
    if "to-xmq" in cmd and "--indent=0" not in cmd and rng.random() < .4: cmd = cmd + [o for o in ("--compact", "--escape-newlines", "--escape-non-7bit", "--escape-tabs", "--color", "--indent=%d" % rng.choice([0, 1, 4, 8])) if o not in cmd and rng.random() < .4 and "save-to" not in cmd]
    c = dict(pre=pre, cmd=cmd, a=a, u=u, z=z, src=rng.choice(["file", "file", "pipe", "fifo"]), rchunk=None, wchunk=None, faults=[], n=[2048, 65536] if tier == "quick" or rng.random() < .8 else [4096, 1 << 19])
    # (libxml2 goes through the attributes of an element for each new one)
    if rng.random() < .06 and "--" + f in pre and a not in ("a(", "a{b(", "<a "):
        c["keys"] = [[j * 1000, 0, rng.choice([b" ", b"\n", b"\x1b[A", b"\x1b[B", b"\x1b[5~", b">", b"<"])] for j in range(rng.choice([0, 1, 3, 5]))]; c["cmd"] = rng.choice([[], ["to-xml"], ["to-xmq", "--compact"], ["render-terminal"]]) + ["page"]
        c["n"] = [65536, 262144] # many pages both, also of the rows of one long line
    if rng.random() < .3: c["rchunk"] = gen.chunks(rng)
    if rng.random() < .2: c["wchunk"] = gen.chunks(rng)
    if min((c["rchunk"] or [99]) + (c["wchunk"] or [99])) < 32:
        if "keys" in c: c["rchunk"] = c["wchunk"] = None
        else: c["n"] = [1024, 16384]
    if rng.random() < .2: c["faults"] = [dict(cls="read", nth=rng.randrange(4), err=errno.EINTR) for _ in range(rng.choice([1, 2]))]
    return c
def document(c, n):
    k = 0; o = []; size = 0
    while size < n and k < n:
        p = c["u"].replace("%d", str(k)).encode("utf-8", "surrogatepass"); o.append(p); size += len(p); k += 1
    return c["a"].encode() + b"".join(o) + c["z"].encode(), k
def sc(c, d):
    m = "in" if c["src"] != "pipe" else "-"
    s = dict(argv=["xmq"] + c["pre"] + [m] + c["cmd"], files={"in": d if c["src"] == "file" else dict(kind=2, data=d)} if c["src"] != "pipe" else {}, stdin=(0, d) if c["src"] == "pipe" else (2, b""), faults=c["faults"], max_steps=3_000_000_000, max_events=20_000_000, max_bytes=1 << 30)
    if "keys" in c: s.update(stdout_kind=1, ws=(24, 80), env={"XMQ_THEME": "darkbg"}, tty=[tuple(k) for k in c["keys"]] + [(10 ** 6, 0, b"q"), (2 * 10 ** 6, 1, b"")])
    for k in ("rchunk", "wchunk"):
        if c[k]: s[k] = c[k]
    return s
def run(case, ctx):
    (d1, k1), (d2, k2) = (document(case, n) for n in case["n"])
    r1 = ctx.run("work", **sc(case, d1)); r2 = ctx.run("work", **sc(case, d2))
    ctx.key = r2.hash; ctx.tag("cmd:" + next((a for a in case["cmd"] if not a.startswith("-")), "")); ctx.tag("end:%s" % r2.outcome()[:8]); ctx.nontrivial = r1.kind == "exit" and r1.code == 0
    name = " ".join(case["pre"] + case["cmd"])
    what = "%s of %r, %d times %r, %r" % (name, case["a"], k1, case["u"], case["z"])
    if (r1.kind, r1.code) != (r2.kind, r2.code):
        # a part with one quote closes what the part before it opened
        if r2.kind == "exit": return ctx.tag("odd")
        return ctx.violate("fails", "%s ends with %s, the same %d times with %s %s" % (what, r1.outcome(), k2, r2.outcome(), clip(r2.err)))
    draw = 40000 * (len(case["keys"]) + 2) if "keys" in case else 0 # a screen that only the long document fills
    f = max(1, len(d2) / len(d1))
    for x, n1, n2, free in (("steps", r1.steps, r2.steps, 40 * len(d1) + draw), ("bytes of memory", r1.peak, r2.peak, 8 * len(d1) + 4096), ("calls", r1.events, r2.events, 40)):
        if n2 > f * SLACK * (n1 + free): return ctx.violate("work:" + x.split()[0], "%s takes %d %s for %d bytes, and %d %s for %d bytes when the part is there %d times" % (what, n1, x, len(d1), n2, x, len(d2), k2))
def shrink(c):
    for k in ("rchunk", "wchunk"):
        if c[k]: yield dict(c, **{k: None})
    if c.get("keys"):
        for l in gen.shrink_list(c["keys"]): yield dict(c, keys=l)
    if c["faults"]: yield dict(c, faults=[])
    if c["src"] != "file": yield dict(c, src="file")
    for i in range(len(c["cmd"])):
        if len(c["cmd"]) > 1: yield dict(c, cmd=c["cmd"][:i] + c["cmd"][i + 1:])
    if len(c["pre"]) > 1: yield dict(c, pre=c["pre"][:1])
    for i in range(len(c["u"])):
        for w in (16, 4, 1):
            u = c["u"][:i] + c["u"][i + w:]
            if u: yield dict(c, u=u)
