"""C17: a run reads only what its command line names, and depends on nothing else around it."""
import re
import gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 30000, 3_000_000
CAP = 240
RULE = "a seeded command line over documents that point at other files (external entities and subsets, inclusions, schema and stylesheet hints, links) is run in two worlds which differ in everything the command line does not name: environment, clock, chance, process number, unread standard input, other files, among them those pointed at; what is opened and read is compared with what is named, and the two runs with each other; distinct by the history of both runs; trivial when the worlds are the same"
ASSUME = ["standard output is no terminal; the variables for a terminal's colours (TERM, XMQ_THEME, COLORFGBG) stay the same for commands that render", "no commands are started (for-each hands its environment on)", "files named by a stylesheet (document(), import) or a schema (include, import) count as named", "locale settings of the C library are out of the simulator's reach"]
SECRET = b"TOP-SECRET"
EXT = {"ext.dtd": b'<!ENTITY e "from the subset"><!ENTITY s2 SYSTEM "secret.txt"><!ATTLIST a added CDATA "by default">\n', "secret.txt": SECRET, "inc.xml": b"<inc>TOP-SECRET</inc>", "ext.xsd": b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="a"/></xs:schema>',
       "style.xsl": b'<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"><xsl:template match="/">TOP-SECRET</xsl:template></xsl:stylesheet>', "par.ent": b'<!ENTITY fromparam "TOP-SECRET">'}
JUNK = [".xmqrc", "xmq.conf", "catalog", "catalog.xml", "xmq.xmq", "in", "in.bak", "-", "stdin", "default.xslt", "theme.css", "a.ixml", "core"]
ENV = {"HOME": ["/", "/root", ""], "LANG": ["C", "de_DE.UTF-8", "tr_TR.UTF-8"], "LC_ALL": ["C", "POSIX", "sv_SE"], "LC_NUMERIC": ["de_DE"], "TERM": ["xterm", "xterm-256color", "linux", "dumb", ""], "XMQ_THEME": ["mono", "lightbg", "darkbg", "nosuch"], "COLORFGBG": ["0;15", "15;0"],
       "NO_COLOR": ["1"], "CLICOLOR_FORCE": ["1"], "FORCE_COLOR": ["1"], "PAGER": ["less"], "BROWSER": ["x"], "DISPLAY": [":0"], "COLUMNS": ["20", "200"], "LINES": ["3"], "TZ": ["UTC", "Asia/Tokyo"], "TMPDIR": ["/nowhere"], "PWD": ["/elsewhere"], "USER": ["root"],
       "XML_CATALOG_FILES": ["catalog.xml"], "SGML_CATALOG_FILES": ["catalog"], "XML_DEBUG_CATALOG": ["1"], "XMQ_DEBUG": ["1"], "XMQ_VERBOSE": ["1"], "XMQ_OPTIONS": ["--compact"], "XMQ_INDENT": ["2"], "DEBUG": ["1"], "VERBOSE": ["1"], "EDITOR": ["vi"], "SOURCE_DATE_EPOCH": ["0"], "POSIXLY_CORRECT": ["1"], "PATH": ["", "/x"], "SHELL": ["/bin/sh"], "IFS": ["x"]}
def where(rng, f): return rng.choice(["", "", "", "./", "file:", "file:///", "/", "d/../"]) + f
def refdoc(rng):
    """-> kind, data: a document that points at files"""
    w = lambda f: where(rng, f)
    k = rng.choice(["xml"] * 6 + ["xmq", "xmq", "html", "htmq", "json"])
    body = rng.choice(["", "text", "<b k='v'>x</b>", "&lt;", " "])
    if k == "xml":
        sub = "".join(x for x in ['<!ENTITY s SYSTEM "%s">' % w("secret.txt"), '<!ENTITY s3 PUBLIC "-//x//y" "%s">' % w("secret.txt"), '<!ENTITY %% p SYSTEM "%s"> %%p;' % w("par.ent"), '<!ENTITY i "inner">', '<!NOTATION n SYSTEM "%s"><!ENTITY u SYSTEM "%s" NDATA n>' % (w("secret.txt"), w("secret.txt"))] if rng.random() < .5)
        ext = rng.choice(["", "", ' SYSTEM "%s"' % w("ext.dtd"), ' PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "%s"' % w("ext.dtd")])
        refs = "".join("&%s;" % e for e in ("s", "s3", "i") if "ENTITY " + e + " " in sub and rng.random() < .8) + ("&e;" if ext and rng.random() < .4 else "") + ("&fromparam;" if "% p" in sub and rng.random() < .4 else "")
        pi = rng.choice(["", "", '<?xml-stylesheet type="text/xsl" href="%s"?>' % w("style.xsl"), '<?xml-model href="%s"?>' % w("ext.xsd"), '<?oasis-xml-catalog catalog="%s"?>' % w("catalog.xml")])
        at = rng.choice(["", "", ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="%s"' % w("ext.xsd"), ' xmlns:xi="http://www.w3.org/2001/XInclude"', ' xml:base="d/"', ' xmlns:xlink="http://www.w3.org/1999/xlink" xlink:href="%s"' % w("inc.xml")])
        inc = '<xi:include href="%s"%s/>' % (w("inc.xml" if rng.random() < .5 else "secret.txt"), rng.choice(["", ' parse="text"', ' parse="xml"'])) if "xi" in at else ""
        dt = "<!DOCTYPE a%s%s>" % (ext, " [%s]" % sub if sub else "") if ext or sub else ""
        return k, ('<?xml version="1.0"%s?>\n' % rng.choice(["", ' standalone="no"', ' standalone="yes"', ' encoding="utf-8"']) + dt + pi + "<a%s>%s%s%s</a>\n" % (at, body, refs, inc)).encode()
    if k in ("xmq", "htmq"):
        dt = rng.choice(["", "!DOCTYPE = '''a SYSTEM \"%s\" [<!ENTITY s SYSTEM \"%s\">]'''\n" % (w("ext.dtd"), w("secret.txt")), "!DOCTYPE = '''a [<!ENTITY %% p SYSTEM \"%s\"> %%p;]'''\n" % w("par.ent")])
        return k, (dt + rng.choice(["?xml-stylesheet = 'href=\"%s\"'\n" % w("style.xsl"), ""]) + "a(xmlns:xi=http://www.w3.org/2001/XInclude href='%s') { &s; 'x' &fromparam; xi:include(href='%s') }\n" % (w("inc.xml"), w("secret.txt"))).encode()
    if k == "html": return k, ("<!DOCTYPE html PUBLIC \"x\" \"%s\"><html><head><link rel=stylesheet href='%s'><script src='%s'></script><base href='d/'></head><body><img src='%s'><iframe src='%s'></iframe>&s;</body></html>\n" % tuple(w(f) for f in ("ext.dtd", "theme.css", "secret.txt", "secret.txt", "inc.xml"))).encode()
    return k, ('{"$ref":"%s","$schema":"%s","include":"%s"}' % (w("secret.txt"), w("ext.xsd"), w("inc.xml"))).encode()
XSL = b"xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform) {\n xsl:template(match='@*|node()') { xsl:copy { xsl:apply-templates(select='@*|node()') } }\n}\n"
XSD = b'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="a"><xs:complexType mixed="true"><xs:sequence><xs:any minOccurs="0" maxOccurs="unbounded" processContents="skip"/></xs:sequence><xs:anyAttribute processContents="skip"/></xs:complexType></xs:element></xs:schema>\n'
def world(rng, plain, render):
    if plain: return dict(env={"TERM": "dumb"}, files={}, stdin=[2, b""], epoch=0, salt=0)
    env = {k: rng.choice(v) for k, v in ENV.items() if rng.random() < .3 and not (render and k in ("TERM", "XMQ_THEME", "COLORFGBG"))}
    if render: env["TERM"] = "dumb"
    files = {f: d for f, d in EXT.items() if rng.random() < .9}
    files.update({"d/" + f: d for f, d in EXT.items() if rng.random() < .3})
    files["d"] = dict(kind=1)
    for f in JUNK:
        if rng.random() < .3: files[f] = rng.choice([SECRET, b"--compact\n", b"a{b=TOP-SECRET}", b"<a/>", b""])
    return dict(env=env, files=files, stdin=[rng.choice([0, 0, 1, 2, 3]), rng.choice([b"", b"TOP-SECRET\n", b"a=1", b"<a/>", b"q\n"])], epoch=rng.choice([0, 1, 86400, 31536000, 10 ** 9, -10 ** 9]), salt=rng.randrange(1, 1 << 31))
def gen_case(rng, i, tier):
    if rng.random() < .6:
        k, d = refdoc(rng); src = "stdin" if rng.random() < .25 else "file"; main = "in" + gen.EXT[k]
        argv = ["xmq"] + (["--trim=none"] if rng.random() < .2 else []) + ([] if rng.random() < .6 else [{"xml": "--xml", "html": "--html", "json": "--json"}.get(k, "--xmq")]) + (["-"] if src == "stdin" else [main])
        files = {} if src == "stdin" else {main: d}
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            r = rng.random()
            if r < .3: argv += rng.choice([["delete", "//b"], ["select", "//a"], ["add", "x=&s;"], ["add", "!DOCTYPE = '''a SYSTEM \"ext.dtd\" [<!ENTITY s SYSTEM \"secret.txt\">]'''"], ["add-root", "top"], ["substitute-entity", "s"], ["substitute-char-entities"], ["delete-entity", "s"]])
            elif r < .5:
                n = "aux%d" % len(files); ak, ad = refdoc(rng); files[n] = ad
                argv += ["replace-entity", rng.choice(["s", "i"]), rng.choice(["--with-file=", "--with-text-file="]) + n]
            elif r < .75:
                files["t.xslq"] = XSL if rng.random() < .7 else b"!DOCTYPE = '''x [<!ENTITY s SYSTEM \"secret.txt\">]'''\n" + XSL
                argv += ["transform", "t.xslq"]
            else: files["v.xsd"] = XSD; argv += ["validate", "v.xsd"]
        argv += gen.out_cmd(rng)
        c = dict(argv=argv, files=files, main="-" if src == "stdin" else main, data=d, kind=k)
    else: c = gen.command(rng, broken=.06, sized=.05, edits=.5, ixml=.08, tokenize=.08)
    if rng.random() < .3 and "tokenize" not in c["argv"]: c["argv"] += ["save-to", rng.choice(["out.x", c["main"] if c["main"] != "-" else "out.x"])]
    if rng.random() < .02: c["argv"] = ["xmq"] + rng.choice([["--version"], ["--license"], ["help"], ["help", "transform"]]); c["main"] = "none"
    render = any(a.startswith("render-") or a == "--color" or a == "tokenize" for a in c["argv"])
    return dict(cmd=c, a=world(rng, rng.random() < .5, render), b=world(rng, False, render), so=rng.choice([0, 2]))
def named(c):
    """what the command line names: whole words and the values of options"""
    o = set(c["argv"]) | {a.split("=", 1)[1] for a in c["argv"] if "=" in a}
    if "transform" in c["argv"] or "validate" in c["argv"]:
        for f in o & set(c["files"]) - {c["main"]}: o |= {w.decode("utf-8", "replace") for w in re.findall(rb"[\w./:-]+", c["files"][f])} - set(EXT)
    return o | ({"<stdin>"} if c["main"] == "-" else set())
def norm(p):
    while p.startswith("./"): p = p[2:]
    return p
def run(case, ctx):
    c = case["cmd"]; ok = named(c); rs = []
    for w in (case["a"], case["b"]):
        files = dict(w["files"]); files.update(c["files"])
        si = tuple(w["stdin"]) if c["main"] != "-" else (0, c["data"])
        r = ctx.run("plain", argv=c["argv"], files=files, stdin=si, env=w["env"], epoch=w["epoch"], salt=w["salt"], stdout_kind=case["so"])
        rs.append(r)
        what = "%s on %s, with %s, clock %+d, files %s: %s" % (" ".join(c["argv"]), clip(c["data"], 700), w["env"], w["epoch"], sorted(w["files"]), r.outcome())
        b = bad_end(r)
        if b: return ctx.violate(b, what)
        reused = False   # a file may have taken the place of a closed standard input
        for e in r.log:
            if e[0] == "OPEN" and (e[3] & 3) != 1 and norm(e[4]) not in ok: return ctx.violate("opens", what + "; opens %s" % e[4])
            if e[0] == "OPEN" and (e[3] & 3) == 1 and norm(e[4]) not in ok: return ctx.violate("writes", what + "; writes %s" % e[4])
            if e[0] == "TTYREAD": return ctx.violate("terminal", what + "; reads from the terminal")
            if e[0] == "OPEN" and e[2] == 0: reused = True
            if e[0] == "READ" and e[2] == 0 and "<stdin>" not in ok and not reused: return ctx.violate("stdin", what + "; reads standard input")
            if e[0] in ("FORK", "EXEC"): return ctx.violate("starts", what + "; starts a command")
        if SECRET in r.out and not any(SECRET in (d if isinstance(d, bytes) else b"") for d in c["files"].values()) and SECRET not in c["data"]: return ctx.violate("discloses", what + "; prints what no named file holds: " + clip(r.out))
    a, b = rs
    ctx.key = a.hash + b.hash; ctx.nontrivial = True
    ctx.tag("end:%s" % a.outcome()); ctx.tag("kind:" + c["kind"])
    x = (a.kind, a.code, a.out, a.err, {k: a.files.get(k) for k in a.touched}); y = (b.kind, b.code, b.out, b.err, {k: b.files.get(k) for k in b.touched})
    if x != y:
        i = next(i for i in range(5) if x[i] != y[i]); n = ("end", "status", "output", "diagnostics", "files")[i]
        return ctx.violate("differs:" + n, "%s on %s; with %s and with %s, clocks %+d %+d: %s and %s; %s" % (" ".join(c["argv"]), clip(c["data"], 600), case["a"]["env"], case["b"]["env"], case["a"]["epoch"], case["b"]["epoch"], a.outcome(), b.outcome(), diff_at(x[i], y[i]) if isinstance(x[i], bytes) else "%s / %s" % (x[i], y[i])))
def shrink(case):
    for k in ("a", "b"):
        w = case[k]
        for key in ("env", "files"):
            for l in gen.shrink_list(sorted(w[key])): yield {**case, k: {**w, key: {x: w[key][x] for x in l}}}
        if w["epoch"]: yield {**case, k: {**w, "epoch": 0}}
        if w["salt"]: yield {**case, k: {**w, "salt": 0}}
        if w["stdin"] != [2, b""]: yield {**case, k: {**w, "stdin": [2, b""]}}
    for c in shrink_cmd(case["cmd"]): yield {**case, "cmd": c}
