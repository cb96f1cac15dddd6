"""Shared pieces of the property modules."""
import copy, re
import gen

def shrink_faults(case, key="faults"):
    fl = case.get(key) or []
    for l in gen.shrink_list(fl):
        c = dict(case); c[key] = l; yield c
def shrink_argv(argv):
    """drop whole commands / options, keep argv[0] and the input"""
    n = len(argv)
    for k in (4, 3, 2, 1):
        for i in range(1, n - k + 1):
            yield argv[:i] + argv[i + k:]
def shrink_cmd(cmd):
    """shrink a gen.command dict: files' bytes, argv"""
    for a in shrink_argv(cmd["argv"]):
        if cmd["main"] != "-" and cmd["main"] not in a: continue
        used = " ".join(a)
        fs = {f: d for f, d in cmd["files"].items() if f in used}
        yield dict(cmd, argv=a, files=fs)
    if cmd["main"] == "-":
        for d in gen.shrink_bytes(cmd["data"]): yield dict(cmd, data=d)
    for f, d in sorted(cmd["files"].items()):
        if not isinstance(d, bytes): continue
        for e in gen.shrink_bytes(d):
            fs = dict(cmd["files"]); fs[f] = e
            yield dict(cmd, files=fs, data=e if f == cmd["main"] else cmd["data"])
def sc_of(cmd, **kw):
    sc = dict(argv=cmd["argv"], files=dict(cmd["files"]))
    if cmd["main"] == "-": sc["stdin"] = (0, cmd["data"])
    else: sc["stdin"] = (2, b"")
    sc.update(kw)
    return sc
def bad_end(r):
    """crash, sanitizer report, assertion or unbounded work -> class, else None"""
    if r.kind == "crash": return "crash:signal %d" % r.code
    if r.kind == "sanitizer": return "memory:" + r.why
    if r.kind == "assert": return "abort:" + re.sub(r"\s+", " ", r.why)[:120]
    if r.kind == "stop": return "unbounded:" + r.why.split(":")[0] if r.why.startswith("HANG") else "stop:" + r.why
    if r.kind == "killed": return "killed:signal %s" % r.code
    return None
def clip(b, n=300):
    s = b.decode("utf-8", "replace") if isinstance(b, (bytes, bytearray)) else str(b)
    return s if len(s) <= n else s[:n] + "...(%d bytes)" % len(b)
def diff_at(a, b):
    i = 0
    m = min(len(a), len(b))
    while i < m and a[i] == b[i]: i += 1
    return "differs at byte %d (%d vs %d bytes): %r vs %r" % (i, len(a), len(b), bytes(a[max(0, i - 20):i + 40]), bytes(b[max(0, i - 20):i + 40]))

def shrink_tree(t):
    """smaller model trees: without a child, a child lifted to the top, shorter text, no attributes"""
    if t[0] != "e":
        if t[0] in "tc" and len(t[1]) > 1:
            yield [t[0], t[1][:len(t[1]) // 2]]; yield [t[0], t[1][len(t[1]) // 2:]]
            if len(t[1]) < 24:
                for i in range(len(t[1])): yield [t[0], t[1][:i] + t[1][i + 1:]]
        if t[0] == "t" and t[1] not in ("", "x"): yield ["t", "x"]
        return
    for c in t[3]:
        if c[0] == "e": yield c
    for i in range(len(t[3])): yield ["e", t[1], t[2], t[3][:i] + t[3][i + 1:]]
    for i in range(len(t[2])):
        yield ["e", t[1], t[2][:i] + t[2][i + 1:], t[3]]
        for v in shrink_tree(["t", t[2][i][1]]): yield ["e", t[1], t[2][:i] + [[t[2][i][0], v[1]]] + t[2][i + 1:], t[3]]
    if t[1] != "a": yield ["e", "a", t[2], t[3]]
    for i, c in enumerate(t[3]):
        for d in shrink_tree(c): yield ["e", t[1], t[2], t[3][:i] + [d] + t[3][i + 1:]]
