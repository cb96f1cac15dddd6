"""C13: for-each runs its command exactly once per match, in order, one at a time."""
import errno, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 40000, 4_000_000
CAP = 240
RULE = "for-each over a generated document with simulated children of seeded run time and exit status, under fork/exec/wait failures and interruptions; distinct by event history; trivial when nothing matches"
ASSUME = ["the simulated shell receives argv and environment; the last of several values of one variable counts, as in dash and bash",
          "the command copy forked for a child runs before the parent continues"]
NAMES = ["a", "b", "item", "x1", "key", "q-w", "v.2", "n_m", "HOME"]
def text(rng):
    r = rng.random()
    if r < .5: return rng.choice(["x", "1", "2", "hello world", "a=b", "å€😀", "'", '"', "$(id)", "`x`", "${a}", "%s%n", "a\nb", " lead", "trail ", "\t", "-n", "\\", ";", "&", "<b>", "*"])
    return gen.XMLBAD.sub("", gen.text(rng, 3000 if r > .9 else 0)).replace("\r", "") or "y"
def tree(rng, depth):
    kids = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if depth else 0):
        kids.append(tree(rng, depth - 1) if rng.random() < .75 else ["t", text(rng)] if rng.random() < .8 else ["c", rng.choice(["note", "x", "two words"])])
    if not kids and rng.random() < .8: kids = [["t", text(rng)]]
    at = [[k, text(rng)] for k in ("k", "id") if rng.random() < .15]
    return ["e", rng.choice(NAMES), at, kids]
def quote(cmd, rng): return cmd
def gen_case(rng, i, tier):
    t = tree(rng, rng.choice([1, 2, 2, 3]))
    if rng.random() < .02: t[3] += [["e", rng.choice(NAMES), [], [["t", str(k)]]] for k in range(rng.choice([20, 60, 150]))]
    big = rng.random() < .01
    if big: t[3].append(["e", "big", [], [["t", "y" * rng.choice([130000, 131060, 131072, 140000])]]])
    x = rng.choice(["//%s", "//%s", "/*/%s", "//*", "/*", "//@k", "//@*", "//text()", "//%s/text()", "//%s | //%s", "(//%s)[2]", "//%s[last()]", "/", "//comment()", "//*[not(*)]", "//node()", "//* | //@*", "//%s | //%s/@k", "//%s | //text()", "count(//%s)", "//nosuch"])
    own = [e[1] for e in elements(t)]
    def some(): return rng.choice(own) if rng.random() < .7 else rng.choice(NAMES)
    x = x.replace("%s", some(), 1).replace("%s", some(), 1)
    second = ["//" + some(), rng.choice(["echo ${.}", "${..}", ":"])] if rng.random() < .1 else None
    c = ""
    for _ in range(rng.randint(1, 4)):
        c += rng.choice(["echo ", "x=", "test -f ", " | wc ", "'q' ", "a;b ", "$HOME ", "$$ ", "\\$ ", "${", "# "]) if rng.random() < .5 else ""
        c += rng.choice(["${.}", "${..}", "\"${.}\"", "${%s}" % rng.choice(NAMES + ["nosuch", "big"])]) if rng.random() < .8 else " "
    if rng.random() < .06: c = rng.choice(["# ", "x", "åb "]) * rng.choice([60, 127, 256, 512, 1024, 3000]) + c
    if "${" in c and c.rstrip().endswith("${"): c += " "
    fl = []
    r = rng.random()
    for _ in range(rng.choice([0, 1, 2, 6]) if r < .6 else 0): fl.append(dict(cls="wait", nth=rng.randint(0, 12), err=errno.EINTR))
    if rng.random() < .35:
        k = rng.randrange(3)
        fl.append([dict(cls="fork", nth=rng.randint(0, 5), err=rng.choice([errno.EAGAIN, errno.ENOMEM])),
                   dict(cls="exec", nth=rng.randint(0, 5), err=rng.choice([errno.ENOENT, errno.EACCES, errno.ENOMEM, errno.E2BIG, errno.ETXTBSY])),
                   dict(cls="wait", nth=rng.randint(0, 8), err=errno.ECHILD)][k])
        if rng.random() < .3: fl[-1]["sticky"] = 1
    shells = [(rng.choice([0, 0, 0, 0, 1, 2, 126, 255, 256 + 9, 256 + 15] + ([127] if rng.random() < .05 else [])), rng.choice([0, 1, 5, 1000, 3600000])) for _ in range(rng.randint(1, 4))]
    return dict(second=second, tree=t, xpath=x, cmd=c, faults=fl, shells=shells, env={k: v for k, v in (("PATH", "/bin"), ("a", "outer"), ("n_m", "outer2"), ("EMPTY", "")) if rng.random() < .4},
                **rng.choice([dict(pre=[], post=p) for p in ([], ["to-xml"], ["to-xmq", "save-to", "out.xmq"], ["no-output"])] + [dict(pre=p, post=[]) for p in (["to-xml", "print"], ["to-xmq", "save-to", "first.out"])]), src=rng.choice(["file", "stdin"]),
                fmt=rng.choice(["xmq", "xml"]), sseed=rng.randrange(1 << 30), rchunk=gen.chunks(rng) if rng.random() < .2 and not big else None)
# ---------------------------------------------------------------- reference
def elements(t):
    yield t
    for c in t[3]:
        if c[0] == "e": yield from elements(c)
def alltext(t): return "".join(c[1] if c[0] == "t" else alltext(c) if c[0] == "e" else "" for c in t[3])
def merged(t):
    """text nodes as a loader sees them: adjacent ones are one node, empty ones do not exist"""
    o = []
    for c in t[3]:
        if c[0] == "t" and c[1] == "": continue
        if c[0] == "t" and o and o[-1][0] == "t": o[-1] = ["t", o[-1][1] + c[1]]
        else: o.append(c)
    return o
def select(t, x):
    """elements the command is run for, in document order, one entry for every match"""
    E = list(elements(t))
    def name(n): return [e for e in E if e[1] == n]
    if x == "/" or x == "/*": return [t]
    if x == "//*": return E
    if x == "//@k": return [e for e in E for k, v in e[2] if k == "k"]
    if x == "//@*": return [e for e in E for a in e[2]]
    if x.startswith("count(") or x == "//nosuch": return []
    if x == "//*[not(*)]": return [e for e in E if not any(c[0] == "e" for c in e[3])]
    def inner(kind, e, only=None):
        o = []
        def go(e):
            for c in merged(e):
                if c[0] == kind and (only is None or e[1] == only): o.append(e)
                if c[0] == "e": go(c)
        go(e); return o
    if x == "//node()" or x == "//* | //@*" or x.endswith("/@k") or x.endswith(" | //text()"):
        names = None if x in ("//node()", "//* | //@*") else [p.split("/")[2] for p in x.split(" | ")]
        o = []
        def go(e):
            if names is None or e[1] == names[0]: o.append(e)
            for k, v in e[2]:
                if x == "//* | //@*" or names and x.endswith("/@k") and k == "k" and e[1] == names[1]: o.append(e)
            for c in merged(e):
                if c[0] == "e": go(c)
                elif c[0] == "t" and "text" in x or x == "//node()": o.append(e)
        go(t); return o
    if x == "//comment()": return inner("c", t)
    if x == "//text()": return inner("t", t)
    if x.endswith("/text()"): return inner("t", t, x[2:-7])
    if " | " in x: a, b = x.split(" | "); s = {a[2:], b[2:]}; return [e for e in E if e[1] in s]
    if x.startswith("(//"): n = name(x[3:-4]); return n[1:2]
    if x.endswith("[last()]"):
        n = x[2:-8]; o = []
        def go(e):
            k = [c for c in e[3] if c[0] == "e" and c[1] == n]
            for c in e[3]:
                if k and c is k[-1]: o.append(c)
                if c[0] == "e": go(c)
        if t[1] == n: o.append(t)
        go(t); return o
    if x.startswith("/*/"): return [c for c in t[3] if c[0] == "e" and c[1] == x[3:]]
    return name(x[2:])
def expect(e, cmd):
    """-> (command as the shell gets it, {variable: content})"""
    out = ""; i = 0; env = {}
    b = cmd
    while i < len(b):
        if b.startswith("${", i):
            j = b.find("}", i)
            if j >= 0:
                n = b[i + 2:j]
                raw = n.encode(); safe = "".join(chr(c) if 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c == 95 else "_" for c in raw)
                if n == ".": v = alltext(e)
                elif n == "..": v = e[1]
                else: v = "".join("".join(k[1] for k in c[3] if k[0] == "t") for c in e[3] if c[0] == "e" and c[1] == n)
                env[safe] = v
                # a later $ inside the name was overwritten
                b = b[:i + 2] + safe + b[j:]
        out += b[i]; i += 1
    return out, env
def parse_exec(d):
    p = d.split(b"\0"); path = p[0]
    return path, [x[1:] for x in p[1:] if x[:1] == b"A"], [x[1:] for x in p[1:] if x[:1] == b"E"]
def sc(case, foreach=True):
    import random
    rng = random.Random(case["sseed"])
    d = (gen.xmq(case["tree"], rng) if case["fmt"] == "xmq" else gen.xml(case["tree"], rng)).encode() + b"\n"
    argv = ["xmq", "--trim=none", "d" if case["src"] == "file" else "-"] + case["pre"] + (["for-each", case["xpath"], "--shell=" + case["cmd"]] + (["for-each", case["second"][0], "--shell=" + case["second"][1]] if case["second"] else []) if foreach else []) + case["post"]
    s = dict(argv=argv, files={"d": d} if case["src"] == "file" else {}, stdin=(0, d) if case["src"] != "file" else (2, b""), env=case["env"])
    if case["rchunk"]: s["rchunk"] = case["rchunk"]
    return s
def run(case, ctx):
    base = ctx.run("plain", **sc(case, False)) if case["pre"] or case["post"] else None
    r = ctx.run("plain", faults=case["faults"], shells=case["shells"], **sc(case))
    matches = select(case["tree"], case["xpath"])
    want = [expect(e, case["cmd"]) for e in matches]
    if case["second"]: want += [expect(e, case["second"][1]) for e in select(case["tree"], case["second"][0])]
    ctx.tag("matches:%s" % min(len(want), 5)); ctx.nontrivial = bool(want); ctx.key = r.hash
    what = "for-each %s --shell=%s over %s: %s" % (case["xpath"], case["cmd"], clip(repr(case["tree"]), 400), r.outcome())
    b = bad_end(r)
    if b: return ctx.violate(b, what + " stderr " + clip(r.err))
    # history: children in sequence, nothing else done by a copy
    running = None; done = []; failed = []; pending = None
    for e in r.log:
        n, pid = e[0], e[1]
        if pid and n not in ("EXEC", "CLOSE", "EXIT", "FAULT", "KILLED", "SIGACTION", "OTHER", "SIGNAL", "READ", "IOCTL", "TCSET"):
            if not (n == "WRITE" and e[4][0] == "<stderr>"):
                return ctx.violate("copy:" + n.lower(), what + "; a forked copy did %s %s" % (n, clip(repr(e), 200)))
        if n == "FORK" and pid == 0:
            if e[2] < 0: failed.append("fork"); continue
            if pending: return ctx.violate("concurrent", what + "; another command was started before command %d had been waited for" % len(done))
            pending = e[2]
        elif n == "EXEC":
            if e[2] == 0:
                done.append(parse_exec(e[4]))
            else: failed.append("exec")
        elif n == "WAIT" and pid == 0:
            if e[2] == pending: pending = None
            elif e[2] == -errno.ECHILD: failed.append("wait"); pending = None
    for e in r.log:
        if e[0] == "CHILDEND" and e[3]: return ctx.violate("copy:crash", what + "; a forked copy died with signal %s" % e[3])
    if pending: return ctx.violate("unwaited", what + "; a command was not waited for; stderr " + clip(r.err))
    # what was run
    for k, (path, argv, env) in enumerate(done):
        j = k
        if failed and k >= len(want): break
    i = 0
    for k, (path, argv, env) in enumerate(done):
        if argv[:2] != [b"/bin/sh", b"-c"] and (len(argv) < 2 or argv[1] != b"-c"): return ctx.violate("argv", what + "; ran %s" % argv)
        ev = {}
        for x in env:
            z = x.split(b"=", 1); ev[z[0].decode("utf-8", "replace")] = z[1].decode("utf-8", "replace") if len(z) > 1 else ""
        def same(w): return argv[2].decode("utf-8", "replace") == w[0] and all(ev.get(n) == v for n, v in w[1].items()) and all(ev.get(n) == v for n, v in case["env"].items() if n not in w[1])
        if not failed:
            if k >= len(want): return ctx.violate("extra", what + "; ran %d commands for %d matches" % (len(done), len(want)))
            if not same(want[k]): return ctx.violate("command", what + "; command %d was %s with %s, expected %s" % (k, argv, {n: ev.get(n) for n in want[k][1]}, want[k]))
        else:
            while i < len(want) and not same(want[i]): i += 1
            if i >= len(want): return ctx.violate("order", what + "; command %d %s is not the next of the remaining matches" % (k, argv))
            i += 1
    hard = [f for f in failed]
    ctx.tag("failed:" + (failed[0] if failed else "none"))
    notfound = any(c == 127 for c, ms in case["shells"])
    if hard:
        if r.kind == "exit" and r.code == 0: return ctx.violate("success-after-failed-" + hard[0], what + "; stderr " + clip(r.err))
        if not r.err: return ctx.violate("silent-" + hard[0], what)
        first = ctx.run("plain", **sc(dict(case, post=[]), False)).out if case["pre"][1:] == ["print"] else b""
        if (case["post"][:1] == ["to-xml"] or first) and r.out != first: return ctx.violate("output-after-failure", what + " printed %s, without for-each %s" % (clip(r.out), clip(first)))
        return
    if notfound and r.code != 0: return
    if len(done) != len(want): return ctx.violate("count", what + "; ran %d commands for %d matches; stderr %s" % (len(done), len(want), clip(r.err)))
    if r.code != 0: return ctx.violate("fails", what + "; stderr " + clip(r.err))
    if base is not None and (r.out != base.out or r.files != base.files or base.code != r.code):
        return ctx.violate("pipeline", what + "; output differs from the pipeline without for-each: " + diff_at(base.out, r.out))
def shrink(case):
    for f in shrink_faults(case): yield f
    for k in ("pre", "post"):
        if case[k]: yield dict(case, **{k: []})
    if case["rchunk"]: yield dict(case, rchunk=None)
    if case["second"]: yield dict(case, second=None)
    if len(case["shells"]) > 1 or case["shells"] != [(0, 1)]: yield dict(case, shells=[(0, 1)])
    if case["env"]: yield dict(case, env={})
    for t in shrink_tree(case["tree"]): yield dict(case, tree=t)
    n = len(case["cmd"])
    for i in range(n):
        for w in (8, 4, 1):
            c = case["cmd"][:i] + case["cmd"][i + w:]
            if c: yield dict(case, cmd=c)
