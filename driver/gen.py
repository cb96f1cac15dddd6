"""Generators: documents in every input format, auxiliary inputs, command lines, faults."""
import json, os, base64, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_c = None
def _d(x): return x.encode() if isinstance(x, str) else base64.b64decode(x["b"])
def corpus():
    global _c
    if _c is None:
        j = json.load(open(os.path.join(VERIF, "corpus", "corpus.json")))
        _c = dict(docs=[(d["name"], d["kind"], _d(d["data"])) for d in j["docs"]],
                  ixml=[(d["name"], _d(d["grammar"]), _d(d["input"])) for d in j["ixml"]],
                  xslt=[(d["name"], _d(d["xml"]), _d(d["xslt"])) for d in j["xslt"]],
                  xsd=[(d["name"], _d(d["xsd"]), _d(d["input"])) for d in j["xsd"]])
    return _c

NAMES = ["a", "b", "c", "item", "x1", "key", "longer_name", "ns:tag", "q-w", "v.2", "html", "_", "body", "i", "name"]
WORDS = ["x", "1", "0", "-12", "3.14", "true", "null", "hello", "hello world", "http://foo.com/?a=b&c=d", "a=b", "50km/h", "'", "''", "'''", "\"", "it's", "''a''",
         "(", ")", "{", "}", "//c", "/*", "*/", "/*x*/", "&", "&amp;", "<", ">", "<b>", "]]>", "--", "-", "#", "&#10;", "\\", "\\n", "\u00a0", "å", "€", "😀", "a\u0301", "\u200b",
         "\t", "\n", "\n\n", " ", "  ", "\n  \n", " lead", "trail ", "\n'", "'\n", "x\ny", "x\n  y\n z", "a\r\nb", "\r", "=", "==", ",", ";", "%s%n%d", "$(x)", "`", "!DOCTYPE", "?pi", "0x1f", "1e5", "\ufeffbom"]
POINTS = [0x7f, 0x80, 0x85, 0xa0, 0xad, 0x7ff, 0x800, 0x1680, 0x2003, 0x2028, 0x2029, 0x202f, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x10ffff]
def word(rng):
    r = rng.random()
    if r < .92: return rng.choice(WORDS)
    if r < .95: return chr(rng.choice(POINTS))
    if r < .98: return "'" * rng.choice([2, 3, 4, 5, 6, 8, 12])
    return rng.choice([" ", "\n", "\t"]) * rng.choice([2, 3, 5, 9, 17])
# what matters to quoting, in all combinations
ALPHA = ["x", "x", " ", " ", "\n", "\n", "\t", "'", "'", "/", "*", "-", "\r", "å", "\u00a0", "&", "=", "(", "{", ";", "\\"]
def stew(rng, alpha=ALPHA):
    a = rng.sample(alpha, rng.choice([1, 2, 2, 3, 3, 4]))
    return "".join(rng.choice(a) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])))
def text(rng, big=0):
    r = rng.random()
    if r < .45: return rng.choice(["x", "1", "hello", "abc", "hello world", "3.14", "true", "a-b", "http://foo.com/?a=b"])
    if r < .7: return "".join(word(rng) for _ in range(rng.randint(1, 4)))
    if r < .8: return stew(rng)
    if r < .83: return ""
    if r < .96 or not big: return " ".join(word(rng) for _ in range(rng.randint(2, 8)))
    n = rng.choice([1020, 1023, 1024, 1025, 2047, 2048, 4096, 9999, 10000, 10001, 20000])
    n = min(n + rng.randint(-3, 3), big)
    unit = rng.choice(["x", "ab ", "å", "'", "a\n", "word word "])
    return (unit * (n // len(unit) + 1))[:n]
XMLBAD = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]")
def name(rng): return rng.choice(NAMES)

# model nodes: ["e", name, [[k,v]..], [children]] ["t", text] ["c", text] ["r", entityname]
def tree(rng, depth=3, width=4, big=0, comments=True, ents=False, ns=True):
    n = name(rng)
    if not ns and ":" in n: n = "tag"
    attrs = []; used = set()
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        k = rng.choice(["k", "id", "class", "v", "x:y", "k.2", "href"])
        if not ns and ":" in k: k = "k2"
        if k in used: continue
        used.add(k); attrs.append([k, text(rng, big)])
    kids = []
    if depth > 0:
        for _ in range(rng.randint(0, width)):
            r = rng.random()
            if r < .55: kids.append(tree(rng, depth - 1, width, big, comments, ents, ns))
            elif r < .85: kids.append(["t", text(rng, big)])
            elif r < .93 and comments: kids.append(["c", text(rng, big)])
            elif ents: kids.append(["r", rng.choice(["#10", "#x41", "amp", "lt", "nbsp", "foo", "#128512"])])
    elif rng.random() < .6: kids.append(["t", text(rng, big)])
    return ["e", n, attrs, kids]

def elements(t):
    yield t
    for c in t[3]:
        if c[0] == "e": yield from elements(c)
def shape(rng, t, deepest=150):
    """sizes which short documents do not have: many attributes or children, deep nesting, long names"""
    r = rng.random()
    if r > .1: return t
    es = list(elements(t)); e = rng.choice(es)
    n = rng.choice([3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100])
    if r < .03:
        have = {a[0] for a in e[2]}
        e[2] += [[k, text(rng) if rng.random() < .3 else "v"] for k in ["%s%d" % (rng.choice(["a", "key", "Z_", "q-"]), j) for j in range(n)] if k not in have]
    elif r < .055:
        for j in range(n): e[3].append(["e", rng.choice(["i", "item", "k%d" % j]), [], [["t", text(rng)]] if rng.random() < .4 else []])
    elif r < .08:
        for j in range(min(n, deepest)): t = ["e", rng.choice(["d", "deep", "n%d" % j]), [["l", str(j)]] if rng.random() < .2 else [], [t] if rng.random() < .8 else [["t", text(rng)], t]]
    elif r < .09: e[1] = rng.choice(["n", "na-me.", "N_"]) * n
    else: e[2] = [["k" * n, text(rng)]] + [a for a in e[2] if a[0] != "k" * n]
    return t
NSDECL = [["xmlns:ns", "urn:n"], ["xmlns:x", "urn:x"]]
def addns(t):
    t[2] = [a for a in t[2] if not a[0].startswith("xmlns")] + [list(a) for a in NSDECL]
    return t

def xesc(s, attr=False, rng=None):
    o = []
    for ch in s:
        if ch == "&": o.append("&amp;")
        elif ch == "<": o.append("&lt;")
        elif ch == ">": o.append("&gt;")
        elif ch == '"' and attr: o.append("&quot;")
        elif ch in "\r" or (attr and ch in "\n\t"): o.append("&#%d;" % ord(ch))
        elif rng and rng.random() < .02: o.append("&#x%x;" % ord(ch))
        else: o.append(ch)
    return "".join(o)
def xml(t, rng, top=True, indent=None):
    k = t[0]
    if k == "t":
        s = XMLBAD.sub("", t[1])
        if rng.random() < .06 and "]]>" not in s and "\r" not in s: return "<![CDATA[" + s + "]]>"
        return xesc(s, False, rng)
    if k == "c":
        s = XMLBAD.sub("", t[1]).replace("\r", "")
        while "--" in s: s = s.replace("--", "-")
        if s.endswith("-"): s += " "
        return "<!--" + s + "-->"
    if k == "r":
        n = t[1]
        return "&%s;" % (n if n[0] == "#" or n in ("amp", "lt", "gt", "quot", "apos") else "amp")
    at = "".join(rng.choice([" ", " ", "\n  "]) + a + "=" + '"' + xesc(XMLBAD.sub("", v), True, rng) + '"' for a, v in t[2])
    kids = "".join(xml(c, rng, False) for c in t[3])
    if kids == "" and rng.random() < .7: return "<%s%s/>" % (t[1], at)
    return "<%s%s>%s</%s>" % (t[1], at, kids, t[1])
def xmldoc(t, rng):
    addns(t)
    p = ""
    if rng.random() < .6: p += '<?xml version="1.0" encoding="utf-8"?>' + rng.choice(["", "\n"])
    if rng.random() < .15: p += "<!-- top " + rng.choice(["", "x", "åä"]) + " -->\n"
    if rng.random() < .1: p += "<?pi some data?>\n"
    if rng.random() < .1: p += "<!DOCTYPE %s>\n" % t[1]
    return (p + xml(t, rng) + rng.choice(["", "\n", "\n<!-- tail -->\n"])).encode("utf-8")

SAFE = re.compile(r"^[^\s'\"(){}&=/<>#?!,;\\`$%\u00a0\u200b\ufeff][^\s'\"(){}\u00a0\u200b\ufeff]*\Z")
def q(s, rng=None, force=False):
    """XMQ text for string s, exact"""
    if s == "": return "''"
    if not force and SAFE.match(s) and not s.startswith("//") and not s.startswith("/*") and (rng is None or rng.random() < .7): return s
    parts = []; cur = ""
    def flush():
        nonlocal cur
        if cur:
            m = max([len(x) for x in re.findall("'+", cur)] or [0])
            d = 1 if m == 0 else max(3, m + 1)
            parts.append("'" * d + cur + "'" * d); cur = ""
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "'":
            j = i
            while j < len(s) and s[j] == "'": j += 1
            if cur == "" or j == len(s) or s[j] in "\n\r\t":   # quotes at an end of a quoted piece
                flush()
                for _ in range(j - i): parts.append("&#39;")
            else: cur += s[i:j]
            i = j; continue
        if ch in "\n\r\t": flush(); parts.append("&#%d;" % ord(ch))
        else: cur += ch
        i += 1
    flush()
    # runs of quotes that ended a piece
    return parts[0] if len(parts) == 1 and parts[0][0] == "'" else "( " + " ".join(parts) + " )" if len(parts) > 1 else "( " + parts[0] + " )"
def xmq(t, rng, ind=0):
    nl = rng.choice(["\n", "\n", " "]) ; pad = "    " * ind if nl == "\n" else ""
    k = t[0]
    if k == "t":
        s = XMLBAD.sub("", t[1])
        v = q(s, rng, True)
        if v.startswith("( "): v = v[2:-2]
        return pad + v
    if k == "c":
        s = XMLBAD.sub("", t[1]).replace("\r", "")
        if "\n" not in s and rng.random() < .6: return pad + "// " + s + "\n"
        while "*/" in s or "/*" in s: s = s.replace("*/", "* /").replace("/*", "/ *")
        return pad + "/* " + s + " */"
    if k == "r": return pad + "&%s;" % t[1]
    o = pad + t[1]
    if t[2]:
        o += "(" + rng.choice(["", " ", "\n" + pad]).join([""]) + rng.choice([" ", "\n  "]).join(a + (rng.choice(["=", " = "]) + q(XMLBAD.sub("", v), rng) if v != "" or rng.random() < .5 else "") for a, v in t[2]) + ")"
    kids = t[3]
    if len(kids) == 1 and kids[0][0] == "t" and rng.random() < .85: return o + rng.choice(["=", " = "]) + q(XMLBAD.sub("", kids[0][1]), rng)
    if kids or rng.random() < .2:
        return o + rng.choice([" {", "{", "\n" + pad + "{"]) + nl + nl.join(xmq(c, rng, ind + 1) for c in kids) + rng.choice(["\n", "\n" + pad]) + "}"
    return o
def xmqdoc(t, rng):
    addns(t)
    s = ""
    if rng.random() < .1: s += "// top comment\n"
    if rng.random() < .06: s += "!DOCTYPE = %s\n" % t[1]
    return (s + xmq(t, rng) + rng.choice(["", "\n", "\n// tail\n"])).encode("utf-8")
def multiline_xmq(rng):
    """documents with multi-line quotes and incidental indentation"""
    o = ["root {"]
    for _ in range(rng.randint(1, 4)):
        ind = " " * rng.randint(0, 9)
        lines = [rng.choice(["", "x", "  y", "é", "\tz", "end ", "''", "a 'q' b", "{", "//"]) for _ in range(rng.randint(1, 6))]
        qn = rng.choice(["'", "'''", "''''"])
        if qn == "'": lines = [l.replace("'", "") for l in lines]
        o.append("  " + rng.choice(["k = ", "k(a=1) = ", ""]) + qn + rng.choice(["", "\n"]) + ("\n" + ind).join(lines) + rng.choice(["", "\n" + ind]) + qn)
    o.append("}")
    return "\n".join(o).encode()

def jval(rng, d=3):
    r = rng.random()
    if d <= 0 or r < .5:
        r = rng.random()
        if r < .3: return text(rng)
        if r < .45: return rng.choice([0, 1, -1, 12345678901234567890, 3.5, -0.25, 1e10, 2147483648])
        if r < .6: return rng.choice([True, False, None])
        return rng.choice(["true", "null", "12", "", " ", "x", "a\tb", "\u2028", "\u0001", "/", "\\", "\"q\"", "_", "|", "//", "ü", "😀"])
    if r < .75: return [jval(rng, d - 1) for _ in range(rng.randint(0, 4))]
    o = {}
    for _ in range(rng.randint(0, 5)):
        o[rng.choice(["a", "b", "key", "A b", "", "_x", "1", "ö", "k:v", "_", "#", "a.b", "|", "//", "http://x"]) + rng.choice(["", "", "2"])] = jval(rng, d - 1)
    return o
def jtext(v, rng):
    return json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1, 4]), separators=rng.choice([(",", ":"), (", ", ": ")]))
def jsondoc(rng, big=0):
    v = jval(rng, rng.randint(1, 4))
    if not isinstance(v, (dict, list)) and rng.random() < .7: v = {"a": v, "b": [v]}
    if big and rng.random() < .2: v = {"pad": "x" * big, "v": v}
    s = jtext(v, rng)
    return s.encode("utf-8", "replace") + rng.choice([b"", b"\n"])
def htmldoc(rng, t=None):
    t = t or tree(rng, 2, 3, ns=False, ents=False)
    def h(t):
        if t[0] == "t": return xesc(XMLBAD.sub("", t[1]))
        if t[0] == "c": return "<!--" + XMLBAD.sub("", t[1]).replace("-", "").replace(">", "") + "-->"
        if t[0] == "r": return "&nbsp;"
        tag = rng.choice(["div", "p", "span", "a", "b", "ul", "li", "pre", "script", "style", "table", "tr", "td", "br", "img", "input"])
        at = "".join(" %s=\"%s\"" % (rng.choice(["href", "class", "id", "title", "style"]) , xesc(XMLBAD.sub("", v), True)) for k, v in t[2][:1])
        if tag in ("br", "img", "input"): return "<%s%s>" % (tag, at)
        if tag in ("script", "style"): return "<%s>x < y && z</%s>" % (tag, tag)
        return "<%s%s>%s</%s>" % (tag, at, "".join(h(c) for c in t[3]), tag)
    return (rng.choice(["<!DOCTYPE html>\n", "<!doctype html>", ""]) + "<html>" + rng.choice(["<head><title>t &amp; å</title></head>", ""]) + "<body" + rng.choice(["", " class='x y'"]) + ">" +
            "".join(h(c) for c in t[3]) + rng.choice(["&nbsp;&copy;", ""]) + "</body></html>\n").encode("utf-8", "replace")
def clinesdoc(rng):
    return "".join("/a/b%d=\"%s\"\n" % (i, rng.choice(["x", "y z", "\\n", "é"])) for i in range(rng.randint(1, 6))).encode()

EXT = {"xmq": ".xmq", "xml": ".xml", "json": ".json", "html": ".html", "htmq": ".htmq", "text": ".txt", "clines": ".txt"}
SIZES = [1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 10001, 16384, 20000, 20001, 30000]
def pad_to(kind, d, n, rng):
    """insert neutral bytes so that the document has exactly n bytes (if it is shorter)"""
    k = n - len(d)
    if k <= 0: return d
    if kind in ("xml", "html"): return d + b" " * k if rng.random() < .5 or k < 8 else d + b"<!--" + b"p" * (k - 7) + b"-->"
    if kind in ("xmq", "htmq"):
        if k >= 8 and rng.random() < .7: return d + b"\n/*" + b"p" * (k - 5) + b"*/"
        return d + b"\n" * k
    if kind == "json": return b" " * k + d if rng.random() < .5 else d + b"\n" * k
    return d + b"z" * k
def doc(rng, kinds=("xmq", "xmq", "xml", "json", "html", "htmq"), sized=.15, broken=.06, big=0):
    """-> (kind, bytes)"""
    kind = rng.choice(kinds)
    if rng.random() < .3:
        c = [d for d in corpus()["docs"] if d[1] == kind]
        if c:
            d = rng.choice(c)[2]
            if big == 0 or len(d) < 4000: return kind, maybe(rng, kind, d, sized, broken)
    if kind in ("xmq", "htmq"):
        if rng.random() < .2: d = multiline_xmq(rng)
        else: d = xmqdoc(shape(rng, tree(rng, rng.randint(0, 3), rng.randint(1, 4), big, ents=True)), rng)
    elif kind == "xml": d = xmldoc(shape(rng, tree(rng, rng.randint(0, 3), rng.randint(1, 4), big, ents=True)), rng)
    elif kind == "json": d = jsondoc(rng, big)
    elif kind == "html": d = htmldoc(rng)
    elif kind == "clines": d = clinesdoc(rng)
    else: d = "".join(word(rng) for _ in range(rng.randint(0, 30))).encode("utf-8", "replace")
    return kind, maybe(rng, kind, d, sized, broken)
def maybe(rng, kind, d, sized, broken):
    if rng.random() < sized: d = pad_to(kind, d, rng.choice(SIZES) + rng.choice([0, 0, 0, -1, 1]), rng)
    if rng.random() < broken: d = corrupt(rng, d)
    return d
def corrupt(rng, d, n=None):
    """what a disk or a crash does to stored bytes"""
    d = bytearray(d)
    if rng.random() < .15:                                      # torn in the middle of something longer than a byte
        at = [k + j for k, c in enumerate(d) if c in STRUCT or c in b" \n" for j in (0, 1)] if rng.random() < .7 else []
        i = rng.choice(at) if at else rng.randrange(len(d) + 1)
        t = rng.choice(TOKENS); del d[i:]
        return bytes(d + t[:rng.randint(1, len(t))])
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        if not d: d += b"{"
        r = rng.randrange(12); i = rng.randrange(len(d))
        if r > 8:                                               # at a place where the syntax turns
            at = [k for k, c in enumerate(d) if c in STRUCT]
            if at: i = rng.choice(at)
        if r == 0: del d[i:]                                   # torn
        elif r == 1: d[i] ^= 1 << rng.randrange(8)              # bit flip
        elif r == 2:                                            # zeroed block
            j = min(len(d), i + rng.choice([1, 4, 64, 512])); d[i:j] = bytes(j - i)
        elif r == 3: j = min(len(d), i + rng.choice([1, 2, 8, 512])); del d[i:j]    # lost block
        elif r == 4: j = min(len(d), i + rng.choice([1, 2, 8, 64])); d[i:i] = d[i:j] # duplicated block
        elif r == 5: j = rng.randrange(len(d)); d[i:i + 8] = d[j:j + 8]              # spliced
        elif r == 6: d[i:i] = rng.choice([b"'", b"\"", b"{", b"}", b"(", b")", b"/*", b"*/", b"&", b"&#", b"&#x110000;", b"&#0;", b"<", b">", b"<!--", b"\xff", b"\xc3", b"\xf0\x9f", b"\xed\xa0\x80", b"\x00", b"\\u", b"\\ud83d", b"\\", b"=", b"''", b"'''", b"]]>", b"&#xffffffffff;", b"\r", b"!", b"?", b"[", b"]", b",", b":", b"~[", b"#", b"^", b"@", b"-", b"|", b"++", b"**", b"."])
        elif r == 7: d[i:i] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 8)))
        elif r == 8: del d[:i]
        elif r == 9: del d[i + rng.choice([0, 1]):]
        elif r == 10: d[i + 1:i + 1] = rng.choice([b"'", b"\"", b"{", b"}", b"(", b")", b"=", b"&", b"/", b";", b" ", b"\n", b":", b"'x'", b"=x", b"<", b">", b"//", b"/*", b"\xff"])
        else: del d[i:i + rng.choice([1, 1, 2])]
    return bytes(d)
TOKENS = [b"\xc2\xa0", b"\xe2\x80\x83", b"\xe2\x80\xa9", b"\xef\xbb\xbf", b"\xf0\x9f\x98\x80", b"'''", b"\"\"\"", b"/*/", b"*//", b"///**", b"//", b"&#x1F600;", b"&#128;", b"&amp;", b"!DOCTYPE", b"<!DOCTYPE", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?xml", b"?>", b"</a", b"/>", b"\\u12aB", b"\\ud83d\\ude00", b"true", b"null", b"-1.5e+10", b"\r\n", b"\t ", b"\xff\xfe", b"''''", b"(''", b"{'", b"=''", b"=\"", b"a:b"]
STRUCT = frozenset(b"=(){}'\"&;<>/[]:,!?-")

# ------------------------------------------------------------------ command lines
def out_cmd(rng, tty=False):
    """an output-format command with its settings"""
    r = rng.randrange(16)
    esc = [o for o in ("--compact", "--escape-newlines", "--escape-non-7bit", "--escape-tabs") if rng.random() < .2]
    if r < 5: return ["to-xmq"] + esc + ([] if rng.random() < .85 else ["--indent=%d" % rng.choice([0, 1, 2, 8])])
    if r < 8: return ["to-xml"] + rng.choice([[], [], ["-o"], ["--compact"]])
    if r < 10: return ["to-json"] + rng.choice([[], ["--compact"]])
    if r == 10: return ["to-html"]
    if r == 11: return ["to-htmq"] + esc
    if r == 12: return ["to-text"]
    if r == 13: return ["to-clines"]
    c = [rng.choice(["render-html", "render-tex", "render-terminal"])]
    return c + [o for o in ("--color", "--mono", "--nostyle", "--compact", "--theme=lightbg", "--id=foo", "--class=bar", "--use-es=_", "--use-et=>", "--use-cr=R", "--use-nl=N", "--use-is=.", "--onlystyle") if rng.random() < .15]
XPATHS = ["//a", "//b", "//*", "/*", "//@*", "//text()", "//comment()", "//item", "/a/b", "//c[1]", "//key", "/nothing", "//*[last()]", "//*[@id]", "(//*)[2]", "//i"]
def edit_cmds(rng, files):
    """some edit commands; may add auxiliary files"""
    o = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r = rng.randrange(15)
        if r == 0: o += ["delete", rng.choice(XPATHS[3:4] and [x for x in XPATHS if x not in ("//*", "/*", "(//*)[2]")])]
        elif r == 1: o += ["select", rng.choice(["//a", "//b", "//item", "/nothing", "//c[1]", "//key"])]
        elif r == 2: o += ["add", rng.choice(["x=1", "foo{bar=2}", "'text'", "// c", "y(a=b)='q w'", "z /*multi\nline*/"])]
        elif r == 3: o += ["add-root", rng.choice(["top", "html", "wrap"])]
        elif r == 4: o += ["replace-entity", rng.choice(["foo", "nbsp", "#10", "amp"]), rng.choice(["REPL", "", "two words", "q'q", "<b>"])]
        elif r == 5:
            k, d = doc(rng, ("text", "xmq", "xml"), .3, 0); f = "aux%d.txt" % len(files); files[f] = d.replace(b"\0", b"")
            o += ["replace-entity", rng.choice(["foo", "nbsp"]), "--with-text-file=" + f]
        elif r == 6:
            k, d = doc(rng, ("xmq", "xmq", "xml", "htmq", "html", "json"), .3, 0) if rng.random() < .85 else ("xmq", rng.choice([b"", b"// only\n", b"!DOCTYPE = a\n", b"a b c", b"{"])); f = "aux%d%s" % (len(files), EXT[k]); files[f] = d
            o += ["replace-entity", rng.choice(["foo", "nbsp"]), "--with-file=" + f]
        elif r == 7: o += ["substitute-char-entities"]
        elif r == 8: o += ["substitute-entity", rng.choice(["foo", "#10", "#x41"])]
        elif r == 9: o += ["delete-entity", rng.choice(["foo", "#10", "nbsp"])]
        elif r == 10: o += ["statistics"]
        elif r == 11:
            n, x, s = rng.choice(corpus()["xslt"]); f = "t%d.xslq" % len(files); files[f] = s
            o += ["transform"] + rng.choice([[], ["--stringparam=title=Hello"], ["--param=title=1+1"], ["--stringparam=a=it's", "--param=b=count(//*)"]]) + [f]
        elif r == 12:
            n, s, i = rng.choice(corpus()["xsd"]); f = "s%d.xsd" % len(files); files[f] = s
            o += ["validate"] + rng.choice([[], ["--silent"]]) + [f]
        elif r == 13:
            k, d = doc(rng, ("xmq", "xmq", "xml", "htmq", "html", "json"), .3, .05); f = "load%d%s" % (len(files), EXT[k]); files[f] = d
            o += ["load", f]
        else: o += ["delete", "//comment()"]
    return o
def ixml_case(rng):
    n, g, i = rng.choice(corpus()["ixml"])
    return g, i

def matched(rng, files, source):
    """a schema or stylesheet with the document it was written for"""
    if rng.random() < .5:
        n, s, d = rng.choice(corpus()["xsd"]); files["s.xsd"] = s; c = ["validate", "s.xsd"]
    else:
        n, d, s = rng.choice(corpus()["xslt"]); files["t.xslq"] = s; c = ["transform"] + (["--stringparam=title=Hello"] if b"title" in s else []) + ["t.xslq"]
    main = "in.xml"; files[main] = d
    if source == "stdin" or source is None and rng.random() < .25: main = "-"; files.pop("in.xml")
    return dict(argv=["xmq", main] + c + out_cmd(rng), files=files, main=main, data=d, kind="xml" if d[:1] == b"<" else "xmq")
def command(rng, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text"), source=None, edits=.4, ixml=.08, out=True, sized=.15, broken=.06, tokenize=.06, big=0):
    """-> dict(argv, files, main, data): a complete command line reading main document 'main' ('-' for stdin)"""
    files = {}
    if rng.random() < ixml:
        g, i = ixml_case(rng)
        if rng.random() < broken: g = corrupt(rng, g)
        if rng.random() < broken: i = corrupt(rng, i)
        i = i.replace(b"\0", b"")
        files["g.ixml"] = g.replace(b"\0", b"")
        argv = ["xmq"] + [x for x in ("--ixml-all-parses", "--ixml-try-to-recover") if rng.random() < .1] + ["--ixml=g.ixml"]
        main = "in.txt"; data = i
        argv.append(main); files[main] = data
        if out: argv += out_cmd(rng)
        return dict(argv=argv, files=files, main=main, data=data, kind="ixml")
    if edits and out and rng.random() < .06: return matched(rng, files, source)
    kind, data = doc(rng, kinds, sized, broken, big)
    opt = []
    if rng.random() < .25: opt.append("--trim=" + rng.choice(["none", "heuristic"]))
    if rng.random() < .08: opt.append("--no-merge")
    if rng.random() < .12: opt.append("--root=" + rng.choice(["a", "conf", "html"]))
    explicit = kind in ("text", "clines") or rng.random() < .2
    if explicit: opt.append({"xmq": "--xmq", "htmq": "--xmq", "xml": "--xml", "json": "--json", "html": "--html", "text": "--text", "clines": "--clines"}[kind])
    if rng.random() < .04: opt = ["--" + rng.choice(["xml", "json", "html", "xmq", "text"])]   # wrong format on purpose
    main = "in" + EXT[kind]
    src = source or ("file" if rng.random() < .75 else "stdin")
    argv = ["xmq"] + opt
    if src == "stdin":
        r = rng.random()
        if r < .6: argv.append("-")
        main = "-"
    else:
        argv.append(main); files[main] = data
    if rng.random() < tokenize: argv += ["tokenize", "--type=" + rng.choice(["debugtokens", "debugcontent", "html", "tex", "terminal"])]
    else:
        if rng.random() < edits: argv += edit_cmds(rng, files)
        if out: argv += out_cmd(rng)
    if len(argv) == 1: argv.append("-")
    return dict(argv=argv, files=files, main=main, data=data, kind=kind)

# ------------------------------------------------------------------ delivery
def chunks(rng):
    r = rng.randrange(6)
    if r == 0: return [1]
    if r == 1: return [rng.choice([1, 2, 3, 7, 511, 512, 513, 1000, 1023, 1024, 1025, 4095])]
    if r == 2: return [rng.randint(1, 64) for _ in range(rng.randint(1, 12))]
    if r == 3: return [rng.choice([1, 1024, 4096, 5, 1023, 10000]) for _ in range(rng.randint(2, 8))]
    if r == 4: return [rng.randint(1, 2000) for _ in range(rng.randint(1, 6))]
    return [rng.choice([1, 10 ** 6])] * 1 + [10 ** 6, 1]

# ------------------------------------------------------------------ shrinking
def shrink_bytes(b):
    n = len(b); step = n // 2
    if n: yield b""
    while step >= 1:
        i = 0
        while i < n:
            yield b[:i] + b[i + step:]
            i += step
        if step == 1: break
        step //= 2
        if n > 400 and step < n // 64: break
def shrink_list(l):
    n = len(l); step = n
    while step >= 1:
        i = 0
        while i < n:
            yield l[:i] + l[i + step:]
            i += step
        step //= 2

def browse_name(c):
    # the page is named after the last document loaded
    a = c["argv"]; l = [a[i + 1] for i in range(1, len(a) - 1) if a[i] == "load"]
    m = l[-1] if l else c["main"]
    return "xmq_browsing_%s.html" % ("stdin" if m == "-" else m)
