"""C05: a saved document reads back as the same document, along any conversion chain."""
import errno, json, re, xml.parsers.expat
import gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 30000, 2_000_000
CAP = 240
RULE = "a generated document is carried through a seeded chain of load/save processes over one simulated disk (XMQ pretty or compact with print settings, XML, JSON when it came from JSON), with split and interrupted reads and writes and with processes that die during a save and are started again; every intermediate file is read back and compared with the model by an independent XML or JSON parser, and saved again for the byte-identical fixpoint; distinct by the contents of all files; trivial when the document is one empty element"
ASSUME = ["documents are what the formats can express (see DESIGN.md C05); XML is loaded with --trim=none, surrounding white space of comments and processing instructions is not compared"]

def comment(s):
    """white space around the lines is layout, and - is followed by a dle where XML would not allow it"""
    return "\n".join(re.sub("-\u2410", "-", l).strip(" \t\r") for l in s.strip(" \t\n\r").split("\n"))
def lines(s): return re.sub("(?m)^[ \t\r]+|[ \t\r]+$", "", s.strip()) or "blank"
def nonblank(t, one=False):
    for c in t[3]:
        if c[0] == "e": nonblank(c, one)
        elif c[0] == "c": c[1] = lines(c[1]).replace("\n", " " if one else "\n")
class P:
    """XML bytes -> infoset (lists), by expat"""
    def __init__(self, data):
        p = xml.parsers.expat.ParserCreate(); p.ordered_attributes = True; p.buffer_text = True; p.UseForeignDTD(True)
        self.top = []; self.st = [self.top]; self.dtd = False
        p.StartElementHandler = self.start; p.EndElementHandler = self.end; p.CharacterDataHandler = self.text
        p.CommentHandler = lambda s: None if self.dtd else self.st[-1].append(["c", comment(s)])
        p.ProcessingInstructionHandler = lambda t, d: None if self.dtd else self.st[-1].append(["p", t, d.strip(" \t\n\r")])
        p.StartDoctypeDeclHandler = self.doctype; p.EndDoctypeDeclHandler = self.enddtd
        p.EntityDeclHandler = lambda *a: self.st[-1].append(["entity", a[0], a[2]])
        p.ElementDeclHandler = lambda n, m: self.st[-1].append(["element", n])
        p.AttlistDeclHandler = lambda e, a, t, d, r: self.st[-1].append(["attlist", e, a, t])
        p.SkippedEntityHandler = lambda n, pe: self.st[-1].append(["r", n])
        p.DefaultHandler = lambda d: self.st[-1].append(["r", d[1:-1]]) if d.startswith("&") and not self.dtd else None
        p.Parse(data, True)
    def doctype(self, n, sid, pid, internal): self.dtd = True; self.st[-1].append(["d", n, sid, pid])
    def enddtd(self): self.dtd = False
    def start(self, n, at):
        a = [(at[i], at[i + 1]) for i in range(0, len(at), 2)]
        e = ["e", n, [x for x in a if not x[0].startswith("xmlns")], sorted(x for x in a if x[0].startswith("xmlns")), []]
        self.st[-1].append(e); self.st.append(e[4])
    def end(self, n): self.st.pop()
    def text(self, s):
        l = self.st[-1]
        if l and l[-1][0] == "t": l[-1][1] += s
        else: l.append(["t", s])
def namespaces(data):
    """the namespace of every element and attribute, in document order"""
    p = xml.parsers.expat.ParserCreate(namespace_separator="|"); p.ordered_attributes = True; p.UseForeignDTD(True)
    o = []
    p.StartElementHandler = lambda n, at: o.append([n, sorted(at[0::2])])
    p.Parse(data, True)
    return o
def infoset(data):
    try: return P(data).top + ([["namespaces", namespaces(data)]] if b"xmlns" in data else [])
    except xml.parsers.expat.ExpatError as e: return "not well formed: %s" % e
def first_diff(a, b, path=""):
    if type(a) != type(b) or not isinstance(a, (list, tuple)): return "%s: %r vs %r" % (path, a, b) if a != b else None
    for i in range(max(len(a), len(b))):
        if i >= len(a) or i >= len(b): return "%s[%d]: %r vs %r" % (path, i, a[i] if i < len(a) else "nothing", b[i] if i < len(b) else "nothing")
        d = first_diff(a[i], b[i], "%s[%d]" % (path, i))
        if d: return d
    return None

# ---------------------------------------------------------------- documents
BADNAME = re.compile(r"[^\x20-\x7e]")
def settings(rng, fmt):
    if fmt == "xml": return rng.choice([[], [], ["--omit-decl"]])
    if fmt == "json": return rng.choice([[], ["--compact"]])
    o = [x for x in ("--escape-newlines", "--escape-non-7bit", "--escape-tabs") if rng.random() < .2]
    r = rng.random()
    if r < .35: o.append("--compact")
    elif r < .55: o.append("--indent=%d" % rng.choice([0, 1, 2, 3, 4, 8]))
    return o
HREF = ["urn:d1", "urn:d2", "urn:n", "urn:x", "http://a/b?c=d&e", "a b", "it's", "\"q\"", "''\"", "å", "{", "="]
def redeclare(t, rng, top=False):
    """namespaces declared on the way down: a default one, none, another one for a known prefix, a new prefix"""
    if t[0] != "e": return
    for _ in range(rng.choice([1, 2]) if rng.random() < (.35 if top else .12) else 0):
        k = rng.choice(["xmlns", "xmlns", "xmlns:ns", "xmlns:x", "xmlns:new"])
        v = rng.choice(HREF)
        if k == "xmlns" and rng.random() < .3: v = ""
        old = [a for a in t[2] if a[0] == k]
        if old: old[0][1] = v
        else: t[2].insert(rng.randint(0, len(t[2])), [k, v])
    for c in t[3]: redeclare(c, rng)
def xml_source(rng, big):
    t = gen.shape(rng, gen.tree(rng, rng.randint(0, 3), rng.randint(1, 4), big))
    gen.addns(t); redeclare(t, rng, True); nonblank(t)
    head = ""
    if rng.random() < .5: head += '<?xml version="1.0" encoding="utf-8"?>\n'
    def misc():
        r = rng.random()
        if r < .5: return gen.xml(["c", lines(gen.text(rng))], rng) + "\n"
        s = gen.XMLBAD.sub("", gen.text(rng)).replace("?>", "? >").replace("\r", "").strip()
        return "<?%s %s?>\n" % (rng.choice(["pi", "x-y", "xml-stylesheet"]), s)
    def sprinkle(n):
        for c in n[3]:
            if c[0] == "e": sprinkle(c)
        if rng.random() < .12: n[3].insert(rng.randint(0, len(n[3])), ["x", misc().rstrip("\n")])
    pre = "".join(misc() for _ in range(rng.choice([0, 0, 0, 1, 2])))
    dt = rng.choice(["", "", "", "<!DOCTYPE %s>\n" % t[1], "<!DOCTYPE %s [\n<!ENTITY foo \"b a r\">\n<!ENTITY e2 'x'>\n]>\n" % t[1], "<!DOCTYPE %s [<!ELEMENT %s ANY><!ATTLIST a k CDATA #IMPLIED>]>\n" % (t[1], t[1]), '<!DOCTYPE %s SYSTEM "x.dtd">\n' % t[1], '<!DOCTYPE %s PUBLIC "-//x//y" "x.dtd">\n' % t[1],
        "<!DOCTYPE %s [\n<!ENTITY foo \"it's >\">\n<!ENTITY e2 'a]>\n b\"c'>\n]>\n" % t[1], "<!DOCTYPE %s [<!ENTITY foo ']>'><!ENTITY e2 '='> <!ELEMENT %s (a|b)*>]>\n" % (t[1], t[1]), "<!DOCTYPE %s SYSTEM 'a\"b.dtd' [<!ENTITY foo \"x\"><!ENTITY e2 'y'>]>\n" % t[1],
        "<!DOCTYPE %s [\n<!-- it's a > comment ] -->\n<!ENTITY foo 'x'><?pi it's > ]?>\n<!ENTITY e2 '\"'>\n]>\n" % t[1]])
    mid = "".join(misc() for _ in range(rng.choice([0, 0, 0, 1])))
    post = "".join(misc() for _ in range(rng.choice([0, 0, 0, 1, 2])))
    body = t
    sprinkle(t)
    if "foo" in dt:
        def ents(n):
            for i, c in enumerate(list(n[3])):
                if c[0] == "e": ents(c)
            if rng.random() < .3: n[3].insert(rng.randint(0, len(n[3])), ["x", rng.choice(["&foo;", "&e2;", "&foo;&foo;"])])
        ents(t)
    return head + pre + dt + mid + xmltext(t, rng) + "\n" + post
def xmltext(t, rng):
    if t[0] == "x": return t[1]
    if t[0] != "e": return gen.xml(t, rng)
    at = "".join(rng.choice([" ", "\n  "]) + a + '="' + gen.xesc(gen.XMLBAD.sub("", v), True, rng) + '"' for a, v in t[2])
    kids = "".join(xmltext(c, rng) for c in t[3])
    return "<%s%s/>" % (t[1], at) if kids == "" and rng.random() < .7 else "<%s%s>%s</%s>" % (t[1], at, kids, t[1])
JSTR = ["x", "", "hello world", "true", "null", "12", "-1.5e3", "it's", "''", "a\nb", " lead", "trail ", "\t", "\n", "å", "€", "😀", "a\u0301", "<b>", "&amp;", "\\", "\"q\"", "/", "//c", "/*", "{", "(", "=", "a=b", "\u2028", "\u00a0", "]]>", "--", "\r", "a\r\nb", "\u007f"]
def jval(rng, d):
    r = rng.random()
    if d <= 0 or r < .45:
        r = rng.random()
        if r < .55: return "".join(rng.choice(JSTR) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if r < .8: return N(rng.choice(["0", "1", "-1", "12345678901234567890", "3.5", "-0.25", "1e10", "1E+2", "0.10", "-0", "2147483648"]))
        return rng.choice([True, False, None])
    if r < .65: return [jval(rng, d - 1) for _ in range(rng.randint(0, 4))]
    o = {}
    # keys _name hold attributes, they come first and are text
    for k in ("_x", "_x:y", "_href"):
        if rng.random() < .04: o[k] = rng.choice(JSTR) or "x"
    for _ in range(rng.randint(0, 4)): o[rng.choice(["a", "b", "key", "A b", "1", "ö", "a.b", "#", "http://x/?y=z", "-", "x y", "\"", "a'b", "&", "<", "å b", "A", "S", "true", "a:b", "c:", ":d", "a:b:c", "x:y", "?", "!"]) + rng.choice(["", "", "2"])] = jval(rng, d - 1)
    return o
class N(str): pass
def jtext(v, rng):
    s = lambda n: rng.choice(["", "", " ", "\n", "  "]) if n else ""
    if isinstance(v, N): return str(v)
    if isinstance(v, str): return json.dumps(v, ensure_ascii=rng.random() < .3)
    if v is True: return "true"
    if v is False: return "false"
    if v is None: return "null"
    if isinstance(v, list): return "[" + ",".join(s(1) + jtext(x, rng) + s(1) for x in v) + "]"
    return "{" + ",".join(s(1) + json.dumps(k, ensure_ascii=rng.random() < .3) + s(1) + ":" + s(1) + jtext(x, rng) for k, x in v.items()) + "}"
def jload(b):
    """ordered pairs, numbers as written"""
    try: return json.loads(b.decode("utf-8"), parse_float=N, parse_int=N, object_pairs_hook=lambda l: ["object", [[k, v] for k, v in l]])
    except ValueError as e: return "not json: %s" % e
def unempty(v):
    """XML has no empty text: an empty string that was saved as XML is loaded as an empty element, which is an empty object"""
    if isinstance(v, list): return [unempty(x) for x in v] if v != ["object", []] else ""
    return v
def jsame(a, b, xml=False):
    if xml: return jsame(unempty(a), unempty(b))
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(jsame(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b

def disturb(rng):
    f = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        f.append(dict(cls="read", path="", nth=rng.randrange(4), err=errno.EINTR))
    return dict(faults=f, rchunk=gen.chunks(rng) if rng.random() < .3 else None, wchunk=gen.chunks(rng) if rng.random() < .3 else None, crash=rng.randint(0, 30) if rng.random() < .15 else None)
def gen_case(rng, i, tier):
    kind = rng.choice(["xml", "xml", "xml", "xmq", "json", "json"])
    big = rng.choice([0, 0, 0, 0, 2100, 10050]) if kind != "json" else 0
    model = None
    if kind == "xml": data = xml_source(rng, big).encode("utf-8", "replace")
    elif kind == "xmq":
        t = gen.shape(rng, gen.tree(rng, rng.randint(0, 3), rng.randint(1, 4), big)); nonblank(t, True); model = t; data = gen.xmqdoc(t, rng)
    else:
        v = jval(rng, rng.randint(0, 4)); data = (rng.choice(["", " ", "\n"]) + jtext(v, rng) + rng.choice(["", "\n"])).encode("utf-8")
    fmts = ["xmq", "xmq", "xml"] + (["json", "json"] if kind == "json" else [])
    chain = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        f = rng.choice(fmts); chain.append(dict(fmt=f, set=settings(rng, f), d=disturb(rng), via=rng.choice(["save", "save", "stdout"])))
    return dict(kind=kind, data=data, model=model, chain=chain)
LOADOPT = {"xml": ["--xml", "--trim=none"], "xmq": [], "json": ["--json"]}
def load_args(fmt, name): return ["xmq"] + LOADOPT[fmt] + [name]
def step(ctx, case, src, sfmt, data, dst, st, disturbed=True):
    """one process: load src, save dst. -> bytes or None with a violation"""
    argv = load_args(sfmt, src) + ["to-" + st["fmt"]] + st["set"]
    if st["via"] == "save": argv += ["save-to", dst]
    sc = dict(argv=argv, files={src: data}, stdin=(2, b""), max_steps=400_000_000)
    d = st["d"]
    if disturbed:
        sc["faults"] = [f for f in d["faults"] if f["cls"] == "read" or st["via"] == "save" or True]
        for k in ("rchunk", "wchunk"):
            if d[k]: sc[k] = d[k]
        if d["crash"] is not None:
            c = ctx.run("plain", **dict(sc, crash=(d["crash"], 500)))
            # the process died: its input is still there, it is started again on what the disk now holds
            if src not in c.files: ctx.violate("lost", "%s died and its input is gone" % " ".join(argv)); return None
            sc["files"] = dict(c.files)
            if c.files[src] != data: ctx.violate("lost", "%s died and changed its input" % " ".join(argv)); return None
            if c.kind != "exit": ctx.tag("crashed and started again")
    r = ctx.run("plain", **sc)
    if r.kind != "exit" or r.code: ctx.violate("step:%s:%s" % (sfmt, st["fmt"]), "%s on %s: %s %s" % (" ".join(argv), clip(data, 600), r.outcome(), clip(r.err))); return None
    out = r.files.get(dst) if st["via"] == "save" else r.out
    if out and "--compact" in st["set"] and b"\n" in out.rstrip(b"\n"): ctx.violate("compact:" + st["fmt"], "%s on %s is not on a single line: %s" % (" ".join(argv), clip(data, 600), clip(out, 900))); return None
    return out
def seen(ctx, fmt, data):
    """the document in this file, as another process and an independent parser see it"""
    r = ctx.run("plain", argv=load_args(fmt, "f." + fmt) + ["to-xml"], files={"f." + fmt: data}, stdin=(2, b""), max_steps=400_000_000)
    if r.kind != "exit" or r.code: return "cannot be loaded: %s %s" % (r.outcome(), clip(r.err))
    return infoset(r.out)
def plain_tree(t):
    """model tree: elements, attributes, text"""
    if t[0] == "t": return ["t", gen.XMLBAD.sub("", t[1])] if gen.XMLBAD.sub("", t[1]) else None
    if t[0] != "e": return None
    k = []
    for c in t[3]:
        p = plain_tree(c)
        if p is None:
            if c[0] == "c": k.append(None)
            continue
        if p[0] == "t" and k and k[-1] and k[-1][0] == "t": k[-1][1] += p[1]
        else: k.append(p)
    return ["e", t[1], [(a, gen.XMLBAD.sub("", v)) for a, v in t[2] if not a.startswith("xmlns")], [x for x in k if x]]
def plain_info(n):
    if n[0] == "t": return ["t", n[1]]
    if n[0] != "e": return None
    return ["e", n[1], n[2], [x for x in (plain_info(c) for c in n[4]) if x]]
def run(case, ctx):
    kind = case["kind"]; data = case["data"]; cls = kind
    files = [data]
    if kind == "json": base = jload(data)
    elif kind == "xml": base = infoset(data)
    else: base = seen(ctx, "xmq", data)
    if isinstance(base, str) and (kind != "json" or base.startswith("not json")):
        if kind != "xmq": raise Exception("generator made a bad document: %s %r" % (base, data))
        return ctx.violate("load:xmq", "%s: %s" % (clip(data, 600), base))
    if kind == "xmq" and case["model"]:
        m = plain_tree(case["model"]); e = [x for x in base if x[0] == "e"]
        if len(e) != 1 or plain_info(e[0]) != m: return ctx.violate("load:xmq:model", "%s is loaded as %s, should be %s" % (clip(data, 600), clip(str(plain_info(e[0]) if e else base), 600), clip(str(m), 600)))
    cur, fmt, src = data, kind, "f0." + kind
    first = seen(ctx, kind, data) if kind == "json" else base
    ctx.nontrivial = len(data) > 12
    path = kind
    for n, st in enumerate(case["chain"]):
        if len(cur) > 250_000: ctx.tag("grown too large to carry on"); break
        dst = "f%d.%s" % (n + 1, st["fmt"])
        new = step(ctx, case, src, fmt, cur, dst, st)
        if new is None: 
            return
        path += ">" + st["fmt"]; ctx.tag("to:" + st["fmt"])
        what = lambda d: d + "; " + "%s with %s: %s becomes %s" % (path, st["set"], clip(cur, 900), clip(new, 900))
        if st["fmt"] == "json":
            j = jload(new)
            if not jsame(j, base, ">xml" in path): return ctx.violate("changed:json", what(str(first_diff(base, j))))
        elif st["fmt"] == "xml":
            i = infoset(new)
            if kind != "json" and i != base: return ctx.violate("changed:xml", what(str(first_diff(base, i))))
            if kind == "json" and i != first: return ctx.violate("changed:json:xml", what(str(first_diff(first, i))))
        s = seen(ctx, st["fmt"], new)
        if s != first: return ctx.violate("changed:%s" % st["fmt"], what("read back: " + str(first_diff(first, s))))
        # fixpoint: loaded and saved again with the same settings
        again = step(ctx, case, dst, st["fmt"], new, "again." + st["fmt"], st, False)
        if again is None: return
        if again != new:
            # what is written differently once (the white space of comments, two entities for one text) must then stay
            third = step(ctx, case, "again." + st["fmt"], st["fmt"], again, "third." + st["fmt"], st, False)
            if third is None: return
            ctx.tag("settled the second time")
            if third != again: return ctx.violate("fixpoint:" + st["fmt"], what("saved again and again: " + diff_at(again, third)))
        cur, fmt, src = new, st["fmt"], dst
        files.append(new)
    if kind == "json":
        r = ctx.run("plain", argv=load_args(fmt, src) + ["to-json"], files={src: cur}, stdin=(2, b""))
        if r.kind != "exit" or r.code or not jsame(jload(r.out), base, ">xml" in path): return ctx.violate("changed:json:end", "%s: %s ends as %s; %s" % (path, clip(data, 900), clip(r.out, 900), first_diff(base, jload(r.out))))
    import hashlib
    ctx.key = hashlib.sha256(b"\0".join(files)).hexdigest()
def shrink(case):
    ch = case["chain"]
    for i in range(len(ch)):
        if len(ch) > 1: yield dict(case, chain=ch[:i] + ch[i + 1:])
    Z = dict(faults=[], rchunk=None, wchunk=None, crash=None)
    for i, s in enumerate(ch):
        if s["d"] != Z: yield dict(case, chain=ch[:i] + [dict(s, d=Z)] + ch[i + 1:])
        for k in range(len(s["set"])): yield dict(case, chain=ch[:i] + [dict(s, set=s["set"][:k] + s["set"][k + 1:])] + ch[i + 1:])
        if s["via"] != "stdout": yield dict(case, chain=ch[:i] + [dict(s, via="stdout")] + ch[i + 1:])
    if case["kind"] == "xmq" and case["model"] is not None: yield dict(case, model=None)
    for b in gen.shrink_bytes(case["data"]):
        try:
            if case["kind"] == "json": ok = not (isinstance(jload(b), str) and jload(b).startswith("not json"))
            elif case["kind"] == "xml": ok = not isinstance(infoset(b), str)
            else: ok = True
        except Exception: ok = False
        if ok: yield dict(case, data=b, model=None)
