"""Random programs over the library's calls. A unit is a short sequence of calls on one document (or none) that leaves nothing behind."""
import gen
TYPENUM = {"detect": 1, "xmq": 2, "htmq": 3, "xml": 4, "html": 5, "json": 6, "ixml": 7, "text": 8, "clines": 9}
XP = ["/", "//a", "//*", "//@*", "//text()", "/a/b", "//key", "//item[1]", "/nothing", "//[", "", "count(//*)", "//comment()", "//i", "/*", "nosuch:x", "//namespace::*", "/*/namespace::*[2]", "//node()", "//processing-instruction()", "//*[last()]", "string(/)"]
NUMS = ["1", "0", "-12", "0x1f", "017", "2147483648", "99999999999999999999", "3.14", "1e5", "x", "", "1_000", "0b101"]
def data(rng, broken=.2, big=0):
    k, d = gen.doc(rng, ("xmq", "xmq", "xmq", "xml", "json", "html", "htmq", "clines", "text"), .06, broken, big)
    ty = k if rng.random() < .85 else rng.choice(list(TYPENUM))
    if ty == "ixml": ty = "xmq"
    return d, TYPENUM[ty]
def print_op(rng, slot, writer=None):
    w = writer if writer is not None else rng.choice([0, 0, 0, 1, 1])
    if rng.random() < .3: return [6, [slot, rng.choice([2, 2, 2, 3, 4, 6]), rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256]), 4, "", w, 0, "", ""]]   # as most callers do
    return [6, [slot, rng.randrange(0, 10), rng.choice([0, 0, 0, 1, 2, 3, 4, 5]), sum(b for b in (1, 2, 4, 8, 16, 32, 64, 128, 256) if rng.random() < .2), rng.choice([0, 1, 4, 4]), rng.choice(["", "", "lightbg", "darkbg", "nosuch"]),
                w, rng.choice([0, 0, 1, 2, 5, 20]) if w == 1 else 0, rng.choice(["", "", "foo"]), rng.choice(["", "", "bar"])]]
def query_op(rng, slot):
    r = rng.randrange(4)
    if r == 0: return [8, [slot, rng.choice(XP), rng.choice([0, 0, 1, 2]), rng.choice(["", "", ".", "k", "//b", "@k", "//["])]]
    if r == 1: return [9, [slot, rng.randrange(4), rng.choice(XP + ["/n", "//n"])]]
    if r == 2: return [13, [slot, rng.randrange(5)]]
    return [14, [slot]]
def unit(rng, slot=0, files=None, kinds=None, broken=.25):
    """-> list of [code, args]; files: dict the unit may add input files to"""
    kind = rng.choice(kinds or ["doc"] * 8 + ["ixml"] * 2 + ["tok"] * 2 + ["file"] * 2 + ["misc", "numbers", "reuse"])
    if kind == "file" and files is None: kind = "doc"
    if kind == "misc":
        r = rng.randrange(4)
        if r == 0: return [[12, [gen.text(rng, 3000).encode("utf-8", "replace").replace(b"\0", b"")]]]
        if r == 1: return [[15, [rng.choice(["k", "key", "a.b"]), gen.text(rng, 3000).encode("utf-8", "replace").replace(b"\0", b""), rng.randrange(100000), rng.randrange(4)]]]
        if r == 2: return [[16, [data(rng)[0]]]]
        return [[17, [rng.choice(list(range(31)) + [50, 1000])]]]
    if kind == "tok":
        d = gen.doc(rng, ("xmq", "htmq", "xmq", "xml"), .06, broken)[1]
        if files is not None and rng.random() < .4:
            f = "f%d" % len(files); files[f] = d; return [[11, [f, rng.randrange(3), rng.randrange(6), rng.choice([0, 16, 48])]]]
        return [[10, [d, rng.randrange(3), rng.randrange(6), rng.choice([0, 16, 48])]]]
    if kind == "ixml":
        g, d = gen.ixml_case(rng)
        if rng.random() < broken: g = gen.corrupt(rng, g)
        if rng.random() < broken: d = gen.corrupt(rng, d)
        g = g.replace(b"\0", b""); d = d.replace(b"\0", b"")
        u = [[1, [slot]]]
        if files is not None and rng.random() < .3:
            f = "f%d" % len(files); files[f] = d; u.append([19, [slot, f, g, rng.choice([0, 0, 8, 16])]])
        else: u.append([5, [slot, d, g, rng.choice([0, 0, 8, 16]), slot]])
        return u + [print_op(rng, slot), [14, [slot]], [7, [slot]]]
    if kind == "numbers":
        d = "".join("%s = '%s'\n" % (n, v) for n, v in zip("abcn", [rng.choice(NUMS) for _ in range(4)])); d = ("r {\n" + d + "}").encode()
        return [[1, [slot]], [2, [slot, d, 2, "", 0, ""]]] + [[9, [slot, rng.randrange(4), "/r/" + rng.choice("abcnx")]] for _ in range(3)] + [[14, [slot]], [7, [slot]]]
    d, ty = data(rng, broken)
    u = [[1, [slot]]]
    def parse():
        d, ty = data(rng, broken)
        root = rng.choice(["", "", "", "a", "conf"]); fl = rng.choice([0, 0, 0, 1, 2, 3, 4])
        if kind == "file":
            f = "f%d" % len(files)
            if rng.random() < .85: files[f] = d
            return [3, [slot, f, ty, root, fl]] if rng.random() < .7 else [18, [slot, f, root, fl]]
        return [2, [slot, d, ty, root, fl, rng.choice(["", "n", "a/b"])]] if rng.random() < .8 else [4, [slot, d, root, fl]]
    u.append(parse())
    for _ in range(rng.choice([0, 1, 1, 2, 3])): u.append(print_op(rng, slot) if rng.random() < .5 else query_op(rng, slot))
    if kind == "reuse": u += [parse(), print_op(rng, slot), [14, [slot]]]
    u.append([7, [slot]])
    return u
def flat(thread_units):
    """[[unit, ...] per thread] -> ops"""
    return [(t, c, a) for t, us in enumerate(thread_units) for u in us for c, a in u]
def shrink_unit(u):
    for i in range(len(u)):
        if len(u) > 1 and u[i][0] not in (1, 7): yield u[:i] + u[i + 1:]      # what is made is freed
    for i, (c, a) in enumerate(u):
        for j, x in enumerate(a):
            if isinstance(x, bytes):
                for b in gen.shrink_bytes(x): yield u[:i] + [[c, a[:j] + [b] + a[j + 1:]]] + u[i + 1:]
            elif c == 6 and isinstance(x, int) and j in (2, 3, 7) and x: yield u[:i] + [[c, a[:j] + [0] + a[j + 1:]]] + u[i + 1:]
def describe(u):
    n = {1: "new", 2: "parse", 3: "parsefile", 4: "parsebuffer", 5: "ixml", 6: "print", 7: "free", 8: "foreach", 9: "get", 10: "tokenize", 11: "tokenizefile", 12: "quote", 13: "trim", 14: "err", 15: "lineprintf", 16: "detect", 17: "errstr", 18: "xmqParseFile", 19: "ixmlfile"}
    return "; ".join("%s(%s)" % (n.get(c, c), ",".join((x if len(x) < 200 else x[:200] + b"...").__repr__() if isinstance(x, bytes) else str(x) for x in a)) for c, a in u)
