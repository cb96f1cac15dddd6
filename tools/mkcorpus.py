#!/usr/bin/env python3
"""Extracts inputs from the repository's own test files into /verif/corpus/corpus.json (committed, so checks do not depend on /repo/tests)."""
import json, os, re, glob, base64, sys
R = os.environ.get("XMQ_REPO", "/repo") + "/tests"
def sections(b):
    out = []; cur = None
    for l in b.split(b"\n"):
        m = re.match(rb"^(START|COMPACT|XMQ|END|INPUT|OUTPUT|FIRST|SECOND|XML|XSLT|XSD|EXPECTED|ERROR|WARNING|DEBUG|CONTENT|STATISTICS|JSON|CLINES|GRAMMAR)(.*)$", l)
        if m and (m.group(2) == b"" or m.group(1) in (b"START",)):
            cur = [m.group(1).decode(), []]; out.append(cur)
        elif cur is not None: cur[1].append(l)
    return {k: b"\n".join(v) for k, v in out}
def enc(b):
    try: return b.decode("ascii")
    except UnicodeDecodeError: return {"b": base64.b64encode(b).decode()}
docs = []; ixml = []; xslt = []; xsd = []
def kind(d):
    s = d.lstrip()
    if s[:1] in b"{[\"": return "json"
    if s[:1] == b"<": return "html" if s[:9].lower() == b"<!doctype" or s[:5].lower() == b"<html" else "xml"
    return "xmq"
seen = set()
def add(name, d, k=None):
    if not d.strip() or d in seen: return
    seen.add(d); docs.append(dict(name=name, kind=k or kind(d), data=enc(d)))
for f in sorted(glob.glob(R + "/*.test")):
    n = os.path.basename(f).split(".")[0]; s = sections(open(f, "rb").read())
    if n.startswith("ixml_parse") or n.startswith("ixml_grammar") or n.startswith("ixml_error"):
        g = s.get("START", b""); i = s.get("INPUT", b"")
        if g.strip(): ixml.append(dict(name=n, grammar=enc(g), input=enc(i)))
    elif n.startswith("xslt"): xslt.append(dict(name=n, xml=enc(s.get("XML", s.get("INPUT", b""))), xslt=enc(s.get("XSLT", b""))))
    elif n.startswith("xsd"): xsd.append(dict(name=n, xsd=enc(s.get("XSD", b"")), input=enc(s.get("INPUT", b""))))
    else:
        for k in ("START", "INPUT", "XMQ", "COMPACT", "FIRST", "SECOND", "JSON"):
            if k in s: add(n + "_" + k, s[k])
for f in sorted(glob.glob(R + "/ixml/correct/*.ixml")):
    b = f[:-5]
    if os.path.exists(b + ".inp"):
        g = open(f, "rb").read(); i = open(b + ".inp", "rb").read()
        if len(g) < 6000 and len(i) < 400: ixml.append(dict(name="c_" + os.path.basename(b), grammar=enc(g), input=enc(i)))
for f in sorted(glob.glob(R + "/resources/*")): add(os.path.basename(f), open(f, "rb").read()[:6000] if False else open(f, "rb").read())
add("pom", open(os.path.dirname(R) + "/pom.xml", "rb").read())
add("pomxmq", open(os.path.dirname(R) + "/pom.xmq", "rb").read())
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "corpus.json")
json.dump(dict(docs=docs, ixml=ixml, xslt=xslt, xsd=xsd), open(p, "w"), indent=0)
print(len(docs), len(ixml), len(xslt), len(xsd), os.path.getsize(p))
from collections import Counter
print(Counter(d["kind"] for d in docs))
