"""C06: a pipeline of edit commands is the composition of its commands on an ordered tree, wherever it is cut."""
import copy, errno, hashlib, re
import gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 40000, 3_000_000
CAP = 240
RULE = "a seeded document (file, stdin, argument or none) and a seeded sequence of commands (edits, load, transform, validate) are run as one process and, over one simulated disk, as a chain of processes cut at seeded points which hand the document over through saved XMQ or XML files (split and interrupted reads and writes, processes that die and are started again); both results are read by an independent parser and compared with a reference model of the commands on an ordered tree with its own XPath evaluator; distinct by document, commands and cuts; trivial when no command changes the document"
ASSUME = ["character references are kept as nodes by XMQ and lost by XML, so a document with references is handed over as XMQ only", "text selected on its own is followed by add-root, since a text outside of an element is no document"]

# ---------------------------------------------------------------- the ordered tree
# ["e", name, [[key, pieces]], kids]   ["t", s]   ["c", s]   ["r", name]      pieces: texts and references
def same(a, b): return a is b
def merged(kids):
    o = []
    for k in kids:
        if k[0] == "t":
            if k[1] == "": continue
            if o and o[-1][0] == "t": o[-1] = ["t", o[-1][1] + k[1]]; continue
        o.append(k)
    return o
def norm(top):
    for n in top:
        if n[0] == "e":
            norm(n[3])
            for a in n[2]: a[1][:] = merged(a[1])
    top[:] = merged(top)
    return top
def pieces(p): return "".join(x[1] for x in p if x[0] == "t")   # the xpath value of a reference without known content is empty
def string(n):
    if n[0] in "tc": return n[1]
    if n[0] == "e": return "".join(string(k) for k in n[3] if k[0] in "te")
    return ""
# ---------------------------------------------------------------- xpath: unions of paths, a path is a list of [axis, test, predicates]
def xtest(t, n):
    if t == "*": return n[0] == "e"
    if t == "text()": return n[0] == "t"
    if t == "comment()": return n[0] == "c"
    if t == "node()": return n[0] != "r"   # an entity without a known content is no node of the xpath data model
    return n[0] == "e" and n[1] == t
class Doc:
    def __init__(self, top):
        self.top = top; self.order = {}; self.parent = {}; self.nodes = {}
        self.root = ["d", "", [], top]; self.walk(self.root)
    def key(self, n): return (id(n[1]), n[2]) if n[0] == "a" else id(n)
    def put(self, n, parent):
        k = self.key(n); self.order[k] = len(self.order); self.parent[k] = parent; self.nodes[k] = n
    def walk(self, n, parent=None):
        self.put(n, parent)
        if n[0] not in "ed": return
        if n[0] == "e":
            for i, a in enumerate(n[2]): self.put(["a", n, a[0]], n)
        for k in n[3]: self.walk(k, n)
    def desc(self, n):
        yield n
        if n[0] in "ed":
            for k in n[3]: yield from self.desc(k)
    def pred(self, p, n, pos, size):
        k = p[0]
        if k == "n": return pos == p[1]
        if k == "last": return pos == size
        if k == "@": return any(a[0] == p[1] for a in n[2]) if n[0] == "e" else False
        if k == "@=": return any(a[0] == p[1] and pieces(a[1]) == p[2] for a in n[2]) if n[0] == "e" else False
        if k == "child": return n[0] == "e" and any(c[0] == "e" and c[1] == p[1] for c in n[3])
        if k == "nochild": return not self.pred(["child", p[1]], n, pos, size)
        if k == "text=": return n[0] == "e" and any(c[0] == "t" and c[1] == p[1] for c in n[3])
        if k == ".=": return string(n) == p[1]
        raise Exception(k)
    def step(self, ctx, s):
        axis, test, preds = s
        seen = {}
        def sel(l):
            for p in preds: l = [n for i, n in enumerate(l) if self.pred(p, n, i + 1, len(l))]
            for n in l: seen[self.key(n)] = n
        for c in ctx:
            if axis == "/": sel([k for k in c[3] if xtest(test, k)] if c[0] in "ed" else [])
            elif axis == "//":
                for d in self.desc(c): sel([k for k in d[3] if xtest(test, k)] if d[0] in "ed" else [])
            elif axis in ("/@", "//@"):
                for d in (self.desc(c) if axis == "//@" else [c]):
                    if d[0] == "e": sel([["a", d, a[0]] for a in d[2] if test in ("*", a[0])])
            elif axis == "/..":
                p = self.parent[self.key(c)]
                if p is not None and p[0] == "e": seen[self.key(p)] = p
            elif axis in ("/following-sibling::", "/preceding-sibling::"):
                p = self.parent[self.key(c)]
                if p is None or c[0] == "a": continue
                i = [j for j, k in enumerate(p[3]) if k is c][0]
                l = p[3][i + 1:] if axis[1] == "f" else p[3][:i][::-1]
                sel([k for k in l if xtest(test, k)])
        return sorted(seen.values(), key=lambda n: self.order[self.key(n)])
    def eval(self, union):
        seen = {}
        for path in union:
            ctx = [self.root]
            for s in path: ctx = self.step(ctx, s)
            for n in ctx: seen[self.key(n)] = n
        return sorted(seen.values(), key=lambda n: self.order[self.key(n)])
def xpath(union):
    def pr(p):
        return {"n": "[%s]", "last": "[last()]", "@": "[@%s]", "@=": "[@%s='%s']", "child": "[%s]", "nochild": "[not(%s)]", "text=": "[text()='%s']", ".=": "[.='%s']"}[p[0]] % tuple(p[1:])
    return " | ".join("".join("/.." if s[0] == "/.." else s[0] + s[1] + "".join(pr(p) for p in s[2]) for s in path) for path in union)
# ---------------------------------------------------------------- the commands
def drop(top, gone):
    top[:] = [k for k in top if not any(k is g for g in gone)]
    for k in top:
        if k[0] == "e": drop(k[3], gone)
def each_list(top):
    """every list a reference can be in: children and attribute values"""
    yield top
    for k in top:
        if k[0] == "e":
            for a in k[2]: yield a[1]
            yield from each_list(k[3])
def charref(n):
    if not n.startswith("#"): return None
    return chr(int(n[2:], 16) if n[1] == "x" else int(n[1:]))
def chars(top):
    """loaded without --no-merge: a character reference is the character"""
    for l in list(each_list(top)): l[:] = [["t", charref(n[1])] if n[0] == "r" and charref(n[1]) else n for n in l]
    return norm(top)
XSLT = 'xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform) {\n%s}\n'
XSLTX = '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform">%s</xsl:stylesheet>'
IDENT = "xsl:template(match='@*|node()') { xsl:copy { xsl:apply-templates(select='@*|node()') } }\n"; IDENTX = '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template>'
def gen_transform(rng, f):
    """-> ["transform", file, what it does, options], content of the file"""
    r = rng.random()
    if r < .25: return ["transform", f + ".xslq", ["id"], []], XSLT % IDENT
    if r < .4: return ["transform", f + ".xsl", ["id"], []], XSLTX % IDENTX
    if r < .6:
        n = rng.choice(NAMES)
        return ["transform", f + ".xslq", ["without", n], []], XSLT % (IDENT + "xsl:template(match=%s)\n" % n)
    v = rng.choice([["s", rng.choice(TEXT + ["=", "a=b", "two  words", "$p", "//a"])], ["x", "count(//%s)" % rng.choice(NAMES)], ["x", "1+1"], ["x", "'lit'"], ["none"]])
    o = [] if v[0] == "none" else [("--stringparam=p=" if v[0] == "s" else "--param=p=") + v[1]]
    if rng.random() < .4: o.insert(rng.randrange(len(o) + 1), rng.choice(["--stringparam=other=x", "--param=q=3", "--stringparam=pp=9"]))
    return ["transform", f + ".xslq", ["wrap", v], o], XSLT % "xsl:param(name=p)\nxsl:template(match='/') { wrap(p='{$p}') { xsl:copy-of(select='/node()') } }\n"
SCHEMA = "xs:schema(xmlns:xs=http://www.w3.org/2001/XMLSchema) {\n%s}\n"
def file_of(c): return c[3] if c[0] == "replace-entity" and len(c) > 3 else c[1] if c[0] in ("transform", "load", "validate") else None
def apply(top, c, files):
    """-> the document after the command"""
    k = c[0]
    if k == "delete":
        hit = Doc(top).eval(c[1])
        for n in hit:
            if n[0] == "a": n[1][2][:] = [a for a in n[1][2] if a[0] != n[2]]
        drop(top, [n for n in hit if n[0] != "a"])
    elif k == "select":
        d = Doc(top); hit = []
        for n in d.eval(c[1]):
            if n[0] == "a": n = n[1]
            if not any(n is h for h in hit): hit.append(n)
        hit.sort(key=lambda n: d.order[d.key(n)])
        for h in hit:
            if h[0] == "e": drop(h[3], hit)
        top = hit
    elif k == "add": top = top + chars(copy.deepcopy(c[1]))
    elif k == "add-root": top = [["e", c[1], [], top]]
    elif k == "load": top = chars(copy.deepcopy(c[2]))
    elif k == "transform":
        t = c[2]
        if t[0] == "without":
            def without(l):
                l[:] = [n for n in l if not (n[0] == "e" and n[1] == t[1])]
                for n in l:
                    if n[0] == "e": without(n[3])
            without(top)
        elif t[0] == "wrap":
            v = t[1]
            v = "" if v[0] == "none" else v[1] if v[0] == "s" else {"1+1": "2", "'lit'": "lit"}.get(v[1]) or str(len(Doc(top).eval([[["//", v[1][8:-1], []]]])))
            top = [["e", "wrap", [["p", [["t", v]] if v else []]], top]]
    elif k in ("replace-entity", "delete-entity", "substitute-entity", "substitute-char-entities"):
        for l in list(each_list(top)):
            o = []
            for n in l:
                if n[0] == "r":
                    if k == "replace-entity" and n[1] == c[1]: o += copy.deepcopy(c[2] if isinstance(c[2], list) else [["t", c[2]]]); continue
                    if k == "delete-entity" and n[1] == c[1]: continue
                    if k == "substitute-entity" and n[1] == c[1] and charref(n[1]): o.append(["t", charref(n[1])]); continue
                    if k == "substitute-char-entities" and charref(n[1]): o.append(["t", charref(n[1])]); continue
                o.append(n)
            l[:] = o
    return norm(top)
# ---------------------------------------------------------------- writing and reading
def xq(n, rng, top=False):
    k = n[0]
    if k == "t": v = gen.q(n[1], rng, True); return v[2:-2] if v.startswith("( ") else v
    if k == "r": return "&%s;" % n[1]
    if k == "c": return rng.choice(["// %s\n", "/* %s */"]) % n[1]
    def val(p):
        if not p: return "''"
        if len(p) == 1: return gen.q(p[0][1], rng) if p[0][0] == "t" else "&%s;" % p[0][1]
        return "( " + " ".join(xq(x, rng) for x in p) + " )"
    o = n[1]
    if n[2]: o += "(" + " ".join(a + "=" + val(p) for a, p in n[2]) + ")"
    if n[3] and all(x[0] in "tr" for x in n[3]) and rng.random() < .7: return o + rng.choice(["=", " = "]) + val(n[3])
    if n[3] or rng.random() < .2: return o + " {" + rng.choice([" ", "\n"]) + rng.choice([" ", "\n"]).join(xq(x, rng) for x in n[3]) + "\n}"
    return o
def xdoc(top, rng): return "\n".join(xq(n, rng) for n in top) + rng.choice(["", "\n"])
XML = re.compile(r"<!--(?P<c>.*?)-->|<\?(?P<pi>.*?)\?>|<(?P<end>/?)(?P<name>[A-Za-z_][\w.-]*)(?P<at>(?:\s+[\w.-]+=(?:\"[^\"]*\"|'[^']*'))*)\s*(?P<empty>/?)>|&(?P<ref>[^;&<]+);|(?P<t>[^<&]+)", re.S)
STD = {"lt": "<", "gt": ">", "amp": "&", "quot": '"', "apos": "'"}
def text_pieces(s):
    return [["t", m.group(2) or STD[m.group(1)]] if m.group(2) or m.group(1) in STD else ["r", m.group(1)] for m in re.finditer(r"&([^;]+);|([^&]+)", s)]
def read_xml(data):
    """what to-xml printed -> ordered tree; several roots are fine, references are kept"""
    s = data.decode("utf-8"); st = [[]]; i = 0; names = []
    while i < len(s):
        m = XML.match(s, i)
        if not m: return "no xml at %r" % s[i:i + 40]
        i = m.end(); g = m.groupdict()
        if g["c"] is not None: st[-1].append(["c", g["c"].strip()])
        elif g["pi"] is not None:
            if not g["pi"].startswith("xml "): return "a processing instruction %r" % g["pi"]
        elif g["name"]:
            if g["end"]:
                if not names or names.pop() != g["name"]: return "unbalanced %r" % m.group(0)
                st.pop(); continue
            e = ["e", g["name"], [[a, text_pieces(v[1:-1])] for a, v in re.findall(r"\s+([\w.-]+)=(\"[^\"]*\"|'[^']*')", g["at"])], []]
            st[-1].append(e)
            if not g["empty"]: st.append(e[3]); names.append(g["name"])
        elif g["ref"] is not None: st[-1].append(["t", STD[g["ref"]]] if g["ref"] in STD else ["r", g["ref"]])
        elif g["t"] is not None:
            if len(st) > 1 or g["t"].strip(): st[-1].append(["t", g["t"]])
    if names: return "unbalanced, open: %s" % names
    return norm(st[0])
def tidy(top):
    """white space around a comment is layout"""
    return [["c", k[1].strip()] if k[0] == "c" else ["e", k[1], k[2], tidy(k[3])] if k[0] == "e" else k for k in top]
def refs(top): return any(n[0] == "r" for l in each_list(top) for n in l)
# ---------------------------------------------------------------- generation
NAMES = ["a", "a", "b", "b", "c", "item", "x-1"]
KEYS = ["k", "id", "v"]
TEXT = ["x", "y", "1", "hello world", "a<b", "x&y", "å", "€ 5", "it's", "\"q\"", " lead", "trail ", "{", "=", "//", "/*", "]]>"]
REFS = ["foo", "foo", "bar", "#229", "#x41", "nbsp", "#128512"]
PLAIN = "abcxyzABC0189 ()[]{}'\"/\\=;,.:!#%-_+*?@$^~|<>&åéж€你😀"
def text(rng):
    if rng.random() < .85: return rng.choice(TEXT)
    return "".join(rng.choice(PLAIN) for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 70]))).strip(" '") or "x"
def gen_pieces(rng, want):
    o = []
    for _ in range(rng.choice([1, 1, 1, 2, 3] if want else [0, 1, 1])):
        o.append(["r", rng.choice(want)] if rng.random() < .35 and want else ["t", text(rng)])
    return merged(o)
def gen_el(rng, depth, ent):
    at = [[k, gen_pieces(rng, ent)] for k in KEYS if rng.random() < .25]
    kids = []; dense = ent and len(ent) < 3 and rng.random() < .6   # few references, often: runs of text, references and elements
    for _ in range(rng.randint(2, 9) if dense else rng.randint(0, 4) if depth > 0 else rng.choice([0, 1, 1])):
        r = rng.random()
        if dense: r = rng.choice([.1, .6, .6, .6, .85, .85, .85, .92])
        if r < .5 and depth > 0: kids.append(gen_el(rng, depth - 1, ent))
        elif r < .8: kids.append(["t", text(rng)])
        elif r < .9 and ent: kids.append(["r", rng.choice(ent)])
        elif r < .95: kids.append(["c", rng.choice(["note", "c", "two words", "a b c"])])
    return ["e", rng.choice(NAMES), at, kids]
def gen_path(rng, attr, text, pieces=True):
    path = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        preds = []
        if rng.random() < .35:
            preds.append(rng.choice([["n", rng.choice([1, 1, 2, 3])], ["last"], ["@", rng.choice(KEYS)], ["@=", rng.choice(KEYS), rng.choice(["x", "y", "1"])],
                                     ["child", rng.choice(NAMES)], ["nochild", rng.choice(NAMES)], ["text=" if pieces else ".=", rng.choice(["x", "y", "1"])], [".=", rng.choice(["x", "y", "1"])]]))
            if rng.random() < .2: preds.append(["n", rng.choice([1, 2])])
        path.append([rng.choice(["//", "//", "/"]) if i == 0 else rng.choice(["/", "/", "//"]), rng.choice(NAMES + ["*", "*"]), preds])
    r = rng.random()
    if r < .12: path.append(["/..", "", []])
    elif r < .22: path.append([rng.choice(["/following-sibling::", "/preceding-sibling::"]), rng.choice(NAMES + ["*"]), [["n", 1]] if rng.random() < .5 else []])
    elif r < .37 and attr: path.append([rng.choice(["/@", "//@"]), rng.choice(KEYS + ["*"]), []])
    elif r < .52 and text: path.append([rng.choice(["/", "//"]), rng.choice(["text()", "text()", "comment()", "node()"] if text == 1 else ["text()"]), [["n", rng.choice([1, 2])]] if rng.random() < .3 and pieces else []])
    return path
def gen_xpath(rng, attr=True, text=1, pieces=True): return [gen_path(rng, attr, text, pieces) for _ in range(2 if rng.random() < .15 else 1)]
def gen_case(rng, i, tier):
    ent = [] if rng.random() < .4 else REFS if rng.random() < .6 else [rng.choice(REFS) for _ in range(rng.choice([1, 2]))]
    nomerge = rng.random() < .5 # then each piece of a text is a text of its own, and is not asked for by number or value
    top = [["c", "first"]] * (rng.random() < .15) + [gen_el(rng, rng.choice([1, 2, 3, 4]), ent)] + [["c", "last"]] * (rng.random() < .15)
    if rng.random() < .15: top.append(gen_el(rng, 1, ent))
    if rng.random() < .06:
        e = [k for k in top if k[0] == "e"][0]; n = rng.choice([7, 9, 15, 17, 33, 65])
        if rng.random() < .6: e[3] += [gen_el(rng, rng.choice([0, 0, 1]), ent) for _ in range(n)]
        else:
            for _ in range(min(n, 33)): f = gen_el(rng, 0, ent); e[3].append(f); e = f
    start = rng.choice(["file"] * 17 + ["-i", "-", "-z"])
    if start == "-z": top = []
    top = norm(copy.deepcopy(top))
    cmds = []; files = {}
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        r = rng.random()
        # a text next to a removed or replaced node stays a text of its own until the document is saved (tests/cmd_001, cmd_002)
        one = not nomerge and not any(c[0] not in ("add", "add-root") for c in cmds)
        if r < .26: cmds.append(["delete", gen_xpath(rng, pieces=one)])
        elif r < .43:
            x = gen_xpath(rng, True, 2 if rng.random() < .25 else 0, one)
            cmds.append(["select", x])
            if any(p[-1][1] == "text()" for p in x): cmds.append(["add-root", rng.choice(NAMES)])
        elif r < .56: cmds.append(["add", norm([gen_el(rng, rng.choice([0, 1, 2]), ent if rng.random() < .5 else []) if rng.random() < .85 else ["c", "added"] for _ in range(rng.choice([1, 1, 2]))])])
        elif r < .65: cmds.append(["add-root", rng.choice(NAMES + ["top"])])
        elif r < .79:
            e = rng.choice(ent if rng.random() < .7 and ent else REFS); how = rng.choice(["text", "text", "textfile", "file"]); c = ["replace-entity", e, rng.choice(TEXT + ["", "REPL", "q'q", "<b>"])]
            if how == "textfile": c.append("r%d.txt" % len(files)); files[c[3]] = c[2].encode()
            if how == "file":
                top_of = lambda: gen_el(rng, rng.choice([0, 1, 2]), []) if rng.random() < .7 else ["c", "from file"]
                c[2] = norm([top_of() for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]); c.append("r%d.xmq" % len(files))
                files[c[3]] = (("!DOCTYPE = r\n" if rng.random() < .2 else "") + xdoc(c[2], rng)).encode()
            cmds.append(c)
        elif r < .86: cmds.append(["delete-entity", rng.choice(ent if rng.random() < .7 and ent else REFS)])
        elif r < .93:
            if rng.random() < .55:
                c, d = gen_transform(rng, "s%d" % len(files)); cmds.append(c); files[c[1]] = d.encode()
            elif rng.random() < .5:
                t = norm([["c", "loaded"]] * (rng.random() < .2) + [gen_el(rng, rng.choice([0, 1, 2]), ent) for _ in range(rng.choice([1, 1, 1, 2]))])
                cmds.append(["load", "l%d.xmq" % len(files), t]); files[cmds[-1][1]] = xdoc(t, rng).encode()
            else:
                cmds.append(["validate", "v%d.xsd" % len(files)]); files[cmds[-1][1]] = (SCHEMA % "".join("xs:element(name=%s)\n" % n for n in sorted(set(NAMES + ["top", "wrap"])))).encode()
        elif r < .96: cmds.append(["substitute-entity", rng.choice(ent if rng.random() < .7 and ent else REFS)])
        else: cmds.append(["substitute-char-entities"])
    # a tree can only be put where a tree can be, thus not into an attribute
    t = copy.deepcopy(top); ok = []
    if not nomerge: chars(t)
    for c in cmds:
        if c[0] == "replace-entity" and isinstance(c[2], list) and c[1] in attr_refs(t): continue
        # a stylesheet and a schema see a document with a root; what they make of references is theirs
        if c[0] in ("transform", "validate") and (refs(t) or not any(k[0] == "e" for k in t)): continue
        t = apply(copy.deepcopy(t), c, files); ok.append(c)
    n = len(ok)
    cuts = [dict(at=k, fmt=rng.choice(["xmq", "xmq", "xml"]), set=rng.choice([[], [], ["--compact"], ["--indent=1"]]), via=rng.choice(["save", "stdout"])) for k in range(n + 1) if rng.random() < .4]
    text = xdoc(top, rng)
    if start == "-i" and text[:1] in "-": start = "file"
    return dict(nomerge=nomerge, start=start, top=top, text=text, cmds=ok, files=files, cuts=cuts, args=[xdoc(c[1], rng).strip() if c[0] == "add" else "" for c in ok], d=[disturb(rng) for _ in range(len(cuts) + 1)], fin=rng.choice([None, None, None, "to-json", "to-text", "statistics"]))
def plain(top):
    """no element has both texts and elements, nor comments, nor attributes without a text"""
    return all(k[0] == "e" and all(a[1] for a in k[2]) and (all(c[0] == "t" for c in k[3]) or all(c[0] == "e" for c in k[3]) and plain(k[3])) for k in top)
def counted(top):
    """what statistics says of a document, apart from the size of its source and the number of its texts"""
    n = dict.fromkeys(("num_elements", "size_element_names", "size_text_nodes", "num_attributes", "size_attribute_names", "size_attribute_content", "num_comments", "size_comments"), 0)
    def walk(l):
        for k in l:
            if k[0] == "t": n["size_text_nodes"] += len(k[1].encode())
            if k[0] == "c": n["num_comments"] += 1; n["size_comments"] += len(k[1].encode())
            if k[0] == "e":
                n["num_elements"] += 1; n["size_element_names"] += len(k[1])
                for a, p in k[2]:
                    n["num_attributes"] += 1; n["size_attribute_names"] += len(a); n["size_attribute_content"] += len(pieces(p).encode())
                walk(k[3])
    walk(top)
    n = {k: v for k, v in n.items() if v}
    n["sum_meta"] = sum(n.get(k, 0) for k in ("size_element_names", "size_attribute_names", "size_attribute_content")); n["sum_text"] = n.get("size_text_nodes", 0)
    return n
def attr_refs(top):
    o = set()
    for k in top:
        if k[0] == "e":
            for a in k[2]: o |= {p[1] for p in a[1] if p[0] == "r"}
            o |= attr_refs(k[3])
    return o
def disturb(rng):
    if rng.random() < .5: return None
    f = [dict(cls="read", path="", nth=rng.randrange(4), err=errno.EINTR) for _ in range(rng.choice([0, 1, 2]))]
    return dict(faults=f, rchunk=gen.chunks(rng) if rng.random() < .4 else None, wchunk=gen.chunks(rng) if rng.random() < .4 else None, crash=rng.randint(0, 30) if rng.random() < .3 else None)
def argv_of(c, arg):
    k = c[0]
    if k in ("delete", "select"): return [k, xpath(c[1])]
    if k == "add": return [k, arg]
    if k == "replace-entity" and len(c) > 3: return [k, c[1], ("--with-file=" if c[3].endswith(".xmq") else "--with-text-file=") + c[3]]
    if k == "replace-entity": return [k, c[1], c[2]]
    if k == "transform": return [k] + c[3] + [c[1]]
    if k in ("load", "validate"): return [k, c[1]]
    return [k] + c[1:]
# ---------------------------------------------------------------- one run
def process(ctx, argv, files, d, inp=b""):
    sc = dict(argv=argv, files=files, stdin=(0, inp) if inp else (2, b""))
    if d:
        sc["faults"] = d["faults"]
        for k in ("rchunk", "wchunk"):
            if d[k]: sc[k] = d[k]
        if d["crash"] is not None:
            c = ctx.run("plain", **dict(sc, crash=(d["crash"], 500)))
            for f in files:
                if c.files.get(f) != files[f] and f != argv[-1]: ctx.violate("lost", "%s died and changed %s" % (argv, f)); return None
            sc["files"] = dict(c.files)
            if c.kind != "exit": ctx.tag("crashed and started again")
    return ctx.run("plain", **sc)
def kind_of(case, upto): return "+".join(sorted({c[0] for c in case["cmds"][:upto]})) or "none"
def compare(ctx, case, what, data, want, upto):
    got = read_xml(data)
    if isinstance(got, str): return ctx.violate("bad:" + kind_of(case, upto), "%s: %s: %s" % (what, got, clip(data, 600)))
    if tidy(got) != tidy(want):
        ctx.violate("differs:" + kind_of(case, upto), "%s gives %s, should be %s" % (what, clip(data, 900), clip(str(want), 900)))
def run(case, ctx):
    used = {file_of(c) for c in case["cmds"]} - {None}
    if set(case["files"]) != used: case = dict(case, files={f: case["files"][f] for f in used})
    states = [copy.deepcopy(case["top"])]
    if not case["nomerge"]: chars(states[0])
    opt = {"xmq": ["--no-merge"] if case["nomerge"] else [], "xml": ["--xml", "--trim=none"]}
    for c in case["cmds"]:
        if c[0] in ("transform", "validate") and (refs(states[-1]) or not any(k[0] == "e" for k in states[-1])): return
        states.append(apply(copy.deepcopy(states[-1]), c, case["files"]))
    start = case.get("start", "file"); begin = {"file": ["in.xmq"], "-i": ["-i", case["text"]], "-": ["-"], "-z": ["-z"]}[start]
    ctx.tag("start:" + start)
    ctx.nontrivial = any(states[i] != states[i + 1] for i in range(len(states) - 1))
    for c in case["cmds"]: ctx.tag(c[0])
    base = dict(case["files"])
    args = [argv_of(c, a) for c, a in zip(case["cmds"], case["args"])]
    first = dict(base); first["in.xmq"] = case["text"].encode()
    argv = ["xmq"] + opt["xmq"] + begin + sum(args, []) + ["to-xml"]
    what = "%s on %s" % (" ".join(repr(a) for a in argv), clip(case["text"], 600))
    inp = first["in.xmq"] if start == "-" else b""
    r = process(ctx, argv, first, case["d"][0], inp)
    if r is None: return
    if r.kind != "exit" or r.code: return ctx.violate("fails:" + kind_of(case, len(args)), "%s: %s %s" % (what, r.outcome(), clip(r.err)))
    whole = r.out
    if compare(ctx, case, what, whole, states[-1], len(args)): return
    # the same, cut
    data, fmt, src, at = first["in.xmq"], "xmq", "in.xmq", 0; trail = []
    for n, cut in enumerate(case["cuts"]):
        st = states[cut["at"]]
        if any(k[0] == "t" for k in st): continue
        f = cut["fmt"]
        if f == "xml" and (refs(st) or len([k for k in st if k[0] == "e"]) != 1 or any(k[0] == "t" for k in st)): f = "xmq"
        dst = "h%d.%s" % (n, f)
        argv = ["xmq"] + opt[fmt] + (begin if src == "in.xmq" else [src]) + sum(args[at:cut["at"]], []) + ["to-" + f] + (cut["set"] if f == "xmq" else [])
        if cut["via"] == "save": argv += ["save-to", dst]
        trail.append(" ".join(repr(a) for a in argv))
        r = process(ctx, argv, dict(base, **{src: data}), case["d"][n + 1], inp if src == "in.xmq" else b"")
        if r is None: return
        if r.kind != "exit" or r.code: return ctx.violate("fails:cut:" + kind_of(case, cut["at"]), "%s, after %s on %s: %s %s" % (" ; ".join(trail), clip(data, 600), clip(case["text"], 400), r.outcome(), clip(r.err)))
        data = r.files.get(dst, b"") if cut["via"] == "save" else r.out
        fmt, src, at = f, dst, cut["at"]
        ctx.tag("cut:" + f)
        p = ctx.run("plain", argv=["xmq"] + opt[fmt] + [src, "to-xml"], files={src: data}, stdin=(2, b""))
        if p.kind != "exit" or p.code: return ctx.violate("handover:" + f, "%s on %s leaves %s which cannot be read: %s" % (" ; ".join(trail), clip(case["text"], 600), clip(data, 600), clip(p.err)))
        if compare(ctx, case, "%s on %s, which left %s," % (" ; ".join(trail), clip(case["text"], 600), clip(data, 600)), p.out, st, cut["at"]): return
    argv = ["xmq"] + opt[fmt] + (begin if src == "in.xmq" else [src]) + sum(args[at:], []) + ["to-xml"]
    trail.append(" ".join(repr(a) for a in argv))
    if case["cuts"]:
        r = ctx.run("plain", argv=argv, files=dict(base, **{src: data}), stdin=(0, inp) if inp and src == "in.xmq" else (2, b""))
        if r.kind != "exit" or r.code: return ctx.violate("fails:cut:" + kind_of(case, len(args)), "%s on %s: %s %s" % (" ; ".join(trail), clip(case["text"], 600), r.outcome(), clip(r.err)))
        if compare(ctx, case, "%s on %s" % (" ; ".join(trail), clip(case["text"], 600)), r.out, states[-1], len(args)): return
    # other formats say the same of the document that was edited and of the document that was edited, saved and loaded
    st = states[-1]
    if case.get("fin") == "statistics" and start == "file":
        r = ctx.run("plain", argv=["xmq"] + opt["xmq"] + ["in.xmq"] + sum(args, []) + ["statistics", "to-xml"], files=first, stdin=(2, b""))
        ctx.tag("statistics")
        if r.kind != "exit" or r.code: return ctx.violate("fails:statistics", "%s with statistics: %s %s" % (what, r.outcome(), clip(r.err)))
        got = {k: int(v) for k, v in re.findall(r"<(\w+)>(\d+)</", r.out.decode())}; want = counted(st)
        size = len(first[([c[1] for c in case["cmds"] if c[0] == "load"] or ["in.xmq"])[-1]])
        if got.get("size_source") != size: return ctx.violate("statistics", "%s with statistics gives size_source %s, should be %d" % (what, got.get("size_source"), size))
        got = {k: v for k, v in got.items() if k not in ("size_source", "num_text_nodes")}
        if got != want: return ctx.violate("statistics", "%s with statistics gives %s, should be %s" % (what, got, want))
    elif case.get("fin") and start == "file" and not refs(st) and len([k for k in st if k[0] == "e"]) == 1 and not any(k[0] == "t" for k in st) and (case["fin"] != "to-json" or plain(st)):
        a = ctx.run("plain", argv=["xmq"] + opt["xmq"] + ["in.xmq"] + sum(args, []) + [case["fin"]], files=first, stdin=(2, b""))
        b = ctx.run("plain", argv=["xmq", "--xml", "--trim=none", "w.xml", case["fin"]], files={"w.xml": whole}, stdin=(2, b""))
        ctx.tag(case["fin"])
        if (a.kind, a.code, a.out) != (b.kind, b.code, b.out): return ctx.violate("final:" + case["fin"], "%s with %s instead: %s; from %s it is %s: %s" % (what, case["fin"], a.outcome(), clip(whole, 500), b.outcome(), diff_at(a.out, b.out)))
    ctx.key = hashlib.sha256(repr((case["text"], args, [c["at"] for c in case["cuts"]])).encode()).hexdigest()
def shrink(case):
    n = len(case["cmds"])
    for i in range(n):
        c = dict(case, cmds=case["cmds"][:i] + case["cmds"][i + 1:], args=case["args"][:i] + case["args"][i + 1:], cuts=[dict(k, at=k["at"] - (k["at"] > i)) for k in case["cuts"]])
        yield c
    for i in range(len(case["cuts"])): yield dict(case, cuts=case["cuts"][:i] + case["cuts"][i + 1:])
    if case.get("fin"): yield dict(case, fin=None)
    if case.get("start", "file") in ("-i", "-"): yield dict(case, start="file")
    if case["nomerge"]: yield dict(case, nomerge=False)
    if any(case["d"]): yield dict(case, d=[None] * len(case["d"]))
    for i, d in enumerate(case["d"]):
        if d: yield dict(case, d=case["d"][:i] + [None] + case["d"][i + 1:])
    for i, k in enumerate(case["cuts"]):
        for z in (dict(k, set=[]), dict(k, fmt="xmq"), dict(k, via="stdout")):
            if z != k: yield dict(case, cuts=case["cuts"][:i] + [z] + case["cuts"][i + 1:])
    import random
    def retext(top): return dict(case, top=top, text=xdoc(top, random.Random(1)))
    for t in shrink_top(case["top"]) if case["top"] else []: yield retext(norm(copy.deepcopy(t)))
    for i, c in enumerate(case["cmds"]):
        if c[0] in ("delete", "select"):
            if len(c[1]) > 1:
                for p in c[1]: yield dict(case, cmds=case["cmds"][:i] + [[c[0], [p]]] + case["cmds"][i + 1:])
            for j, p in enumerate(c[1]):
                for q in [p[:k] + p[k + 1:] for k in range(len(p)) if len(p) > 1] + [p[:k] + [[s[0], s[1], s[2][:-1]]] + p[k + 1:] for k, s in enumerate(p) if s[2]]:
                    if q[0][0] in ("/", "//"): yield dict(case, cmds=case["cmds"][:i] + [[c[0], c[1][:j] + [q] + c[1][j + 1:]]] + case["cmds"][i + 1:])
        if c[0] == "add":
            for t in shrink_top(c[1]):
                t = norm(copy.deepcopy(t))
                if t: yield dict(case, cmds=case["cmds"][:i] + [["add", t]] + case["cmds"][i + 1:], args=case["args"][:i] + [xdoc(t, random.Random(1)).strip()] + case["args"][i + 1:])
def shrink_top(top):
    for i in range(len(top)):
        if len(top) > 1: yield top[:i] + top[i + 1:]
    for i, k in enumerate(top):
        if k[0] == "e":
            for j in range(len(k[2])): yield top[:i] + [["e", k[1], k[2][:j] + k[2][j + 1:], k[3]]] + top[i + 1:]
            if k[3]: yield top[:i] + [["e", k[1], k[2], []]] + top[i + 1:]
            for t in shrink_top(k[3]): yield top[:i] + [["e", k[1], k[2], t]] + top[i + 1:]
        elif k[0] == "t" and k[1] != "x": yield top[:i] + [["t", "x"]] + top[i + 1:]
