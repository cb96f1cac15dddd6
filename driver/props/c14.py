"""C14: the pager quits, restores the terminal and shows only the document."""
import errno, random, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 50000, 3_000_000
CAP = 240
RULE = "a generated document in the pager under seeded keys (also incomplete and unknown key sequences), key delays, interrupted and failing reads, hang-ups, terminal sizes and terminal modes; every screen compared with a reference pager; distinct by event history; trivial when it shows less than two screens"
ASSUME = ["a row is what fits in the width of the terminal, one column per UTF-8 character, colour codes take none",
          "the bytes shown are those the same pipeline prints to a terminal without the pager (colours and formats are judged elsewhere)"]
ICANON, ECHO = 2, 8
KEYS = [b" ", b" ", b"\n", b"\n", b"\r", b"\x1b[A", b"\x1b[A", b"\x1b[B", b"\x1b[B", b"\x1b[5~", b"\x1b[6~", b"<", b">", b">", b"\0H", b"\0P", b"\xe0I", b"\xe0Q",
        b"x", b"\x1bx", b"\x1b[C", b"\x1b[7~", b"\x1b[5x", b"\x1b[6 ", b"\0 ", b"\0K", b"\xe0\n", b"\x7f", b"\xc3\xa5", b"j", b"\x1b[", b"\x1b", b"\0"]
def rows_doc(rng):
    """text with a chosen row structure"""
    o = []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 12, 30])):
        o.append("".join(rng.choice(["x", "word ", "å", "€", "😀", "\t", "m", "[0m", "{", "'"]) for _ in range(rng.choice([0, 0, 1, 3, 5, 8, 10, 20, 40]))))
    return ("\n".join(o) + rng.choice(["", "\n", "\n\n"])).encode()
def gen_case(rng, i, tier):
    r = rng.random()
    if r < .4:
        files = {"in.txt": rows_doc(rng)}; argv = ["xmq", "--text", "in.txt", "to-text"]
    else:
        k, d = gen.doc(rng, ("xmq", "xmq", "xml", "json"), .02, 0, 0)
        d = d[:6000] if len(d) > 6000 else d
        f = "in" + gen.EXT[k]; files = {f: d}
        argv = ["xmq", f] + rng.choice([[], ["to-xmq"], ["to-xmq", "--compact"], ["render-terminal"], ["render-terminal", "--theme=lightbg"], ["to-xml"], ["to-json"], ["to-text"], ["render-html"]])
    keys = []; at = 0; gap = rng.choice([0, 10, 100000, 5_000_000, 3_600_000_000])
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16, 40])):
        if rng.random() < .12: keys.append([at, 3, b""])
        k = rng.choice(KEYS)
        while len(k) > 1 and rng.random() < .15:
            keys.append([at, 0, k[:1]]); k = k[1:]; at += rng.choice([0, gap, 200000, 2_000_000])
            if rng.random() < .3: keys.append([at, 3, b""])
        keys.append([at, 0, k]); at += rng.choice([0, gap, gap])
    end = rng.random()
    if end < .6: keys.append([at, 0, rng.choice([b"q", b"Q", b"\x1b\x1b", b"q", b"qqq"])])
    keys.append([at + rng.choice([0, gap]), rng.choice([1, 2]), b""])
    fl = []
    if rng.random() < .15:
        k = rng.randrange(6)
        fl.append([dict(cls="read", path="<tty>", nth=rng.randint(0, 10), err=errno.EIO, sticky=1), dict(cls="tcset", nth=rng.randint(0, 2), err=errno.EINTR),
                   dict(cls="tcget", nth=0, err=errno.ENOTTY), dict(cls="ioctl", nth=0, err=errno.ENOTTY), dict(cls="read", path="<tty>", nth=rng.randint(0, 10), err=errno.EINTR),
                   dict(cls="write", path="<tty>", nth=rng.randint(0, 6), err=errno.EIO, sticky=1)][k])
    return dict(argv=argv, files=files, keys=keys, ws=[rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 24, 50]), rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 20, 40, 80, 200])],
                lflag=rng.choice([0x8a3b, 0x8a3b, 0x8a33, ICANON | 1, ECHO | 1, 1, 0x8a39 & ~ICANON]), faults=fl, env={"XMQ_THEME": rng.choice(["darkbg", "lightbg", "mono"])} if rng.random() < .8 else {"TERM": "linux"},
                wchunk=gen.chunks(rng) if rng.random() < .15 else None)
# ---------------------------------------------------------------- reference pager over the rendered bytes
def rows(R):
    """tokens: (start, end, kind) kind a=colour code, n=newline, c=column start, k=continuation byte"""
    o = []; i = 0
    while i < len(R):
        if R[i] == 27:
            j = R.find(b"m", i); j = len(R) if j < 0 else j + 1
            o.append((i, j, "a")); i = j; continue
        o.append((i, i + 1, "n" if R[i] == 10 else "k" if R[i] & 0xc0 == 0x80 else "c")); i += 1
    return o
def layout(R, w):
    """list of (row start, line start, row end without its newline); the rows one can stand on"""
    L = []; line = row = 0; col = 0; T = rows(R)
    fresh = True
    for s, e, k in T:
        if k == "a": continue
        if k == "n":
            L.append([row, line, s]); row = line = e; col = 0; continue
        if k == "c":
            if col >= w: L.append([row, line, s]); row = s; col = 0
            col += 1
    if row < len(R) or not L: L.append([row, line, len(R)])
    return L
def decode(b, pos, eof):
    """-> (key, next position) ; key None when the input ends"""
    def get():
        nonlocal pos
        if pos >= len(b): return -1
        pos += 1; return b[pos - 1]
    k = get()
    if k in (10, 13): return "down", pos
    if k in (0, 224):
        k = get()
        n = {72: "up", 75: "left", 77: "right", 80: "down", 73: "pgup", 81: "pgdn"}.get(k)
        if n: return n, pos
    elif k == 27:
        k = get()
        if k == 91:
            k = get()
            if k == 65: return "up", pos
            if k == 66: return "down", pos
            if k in (53, 54):
                d = k; k = get()
                if k == 126: return "pgup" if d == 53 else "pgdn", pos
    if k in (27, 81, 113, -1): return "quit", pos
    return {32: "pgdn", 60: "home", 62: "end"}.get(k, "other"), pos
def reference(R, keys, w, h):
    L = layout(R, w); at = 0; pos = 0; out = b""; n = 0; m = len(L) - 1; seen = set()
    while True:
        s, line, _ = L[at]
        e = L[at + h - 1][2] if at + h - 1 <= m else len(R)
        out += R[line:e] + b"\033[0m\n:"
        n += 1; seen.add(at)
        k, pos = decode(keys, pos, True)
        if k == "quit": return out + b"\033[2K\r\033[0m", n, seen
        if k == "pgdn": at = min(m, at + h)
        elif k == "pgup": at = max(0, at - h)
        elif k == "down": at = min(m, at + 1)
        elif k == "up": at = max(0, at - 1)
        elif k == "home": at = 0
        elif k == "end": at = max(0, m - (h - 1))
        out += b"\033[2J\033[H"
def run(case, ctx):
    base = dict(argv=case["argv"], files=case["files"], stdin=(2, b""), stdout_kind=1, env=case["env"], ws=tuple(case["ws"]), lflag=case["lflag"])
    b = ctx.run("plain", tty=[(0, 1, b"")], **base)
    sc = dict(base, argv=case["argv"] + ["page"], tty=[tuple(k) for k in case["keys"]], faults=case["faults"])
    if case["wchunk"]: sc["wchunk"] = case["wchunk"]
    r = ctx.run("plain", **sc)
    what = "%s, terminal %s, keys %s, faults %s: %s" % (" ".join(sc["argv"]), case["ws"], [(k[0], ["bytes", "EOF", "EIO", "EINTR"][k[1]], k[2]) for k in case["keys"]], case["faults"], r.outcome())
    e = bad_end(r)
    if e: return ctx.violate(e, what + " stderr " + clip(r.err))
    ctx.key = r.hash
    sets = [x for x in r.log if x[0] == "TCSET"]
    real = [x for x in sets if x[3] != 100]
    final = sets[-1] if sets else None
    lf = case["lflag"]
    if final is not None and final[2] & 0xffffffff != lf and not any(f["cls"] == "tcset" and f["err"] != errno.EINTR for f in case["faults"]):
        return ctx.violate("terminal-mode", what + "; left in mode %x, found in %x" % (final[2] & 0xffffffff, lf))
    if real and real[-1][4][-2:] != b"\1\0": return ctx.violate("terminal-mode", what + "; left with VMIN/VTIME %r" % real[-1][4][-2:])
    if b.kind != "exit" or b.code != 0 or not b.exit0():
        if r.kind == "exit" and r.code == 0: return ctx.violate("success", what + "; without the pager: " + b.outcome())
        ctx.tag("rejected"); return
    fk = {f["cls"] for i, f in enumerate(case["faults"]) if r.fired[i]}
    ctx.tag("faults:" + (",".join(sorted(fk)) or "none"))
    if "write" in fk: return
    # keys as delivered: reads that failed end the input; in canonical mode only whole lines arrive
    keys = b"".join(x[4] for x in r.log if x[0] == "TTYREAD" and x[2] > 0)
    hraw, wraw = case["ws"]
    if "ioctl" in fk: hraw = wraw = 0
    h = max(1, hraw - 1) if hraw >= 1 else 23
    w = wraw or 80
    R = b.out
    raw = not ("tcget" in fk or "tcset" in fk)
    sent = b"".join(k[2] for k in case["keys"] if k[1] == 0)
    if raw and not sent.startswith(keys): return ctx.violate("keys", what + "; read %r" % keys)
    want, n, seen = reference(R, keys, w, h)
    # every key that came before the pager left was read, and it left no later than at the end of input
    full, n2, _ = reference(R, sent, w, h)
    if raw and "read" not in fk and full != want: return ctx.violate("left-early", what + "; stopped after reading %r" % keys)
    ctx.nontrivial = n > 1
    ctx.tag("screens:%d" % min(n, 10)); 
    if r.code != 0: return ctx.violate("fails", what + "; stderr " + clip(r.err))
    if r.out != want:
        sep = b"\033[2J\033[H"
        g = r.out.split(sep); x = want.split(sep)
        k = next((i for i in range(min(len(g), len(x))) if g[i] != x[i]), min(len(g), len(x)))
        if k < len(g):
            body = g[k].split(b"\033[0m\n:")[0]
            p = R.find(body)
            cls = "not-the-document" if p < 0 else "not-a-line-start" if p and not any(R.startswith(body, q[0]) or R.startswith(body, q[1]) for q in layout(R, w)) else "position"
        else: cls = "missing-screen"
        return ctx.violate(cls, what + "; screen %d of %d is %r, expected %r; document %r" % (k, len(x), g[k][:300] if k < len(g) else None, x[k][:300] if k < len(x) else None, R[:300]))
def shrink(case):
    for f in shrink_faults(case): yield f
    for l in gen.shrink_list(case["keys"][:-1]): yield dict(case, keys=l + case["keys"][-1:])
    if case["wchunk"]: yield dict(case, wchunk=None)
    if any(k[0] for k in case["keys"]): yield dict(case, keys=[[0] + k[1:] for k in case["keys"]])
    if case["lflag"] != 0x8a3b: yield dict(case, lflag=0x8a3b)
    for a in ([2, 80], [3, 10]):
        if case["ws"] != a: yield dict(case, ws=a)
    for f, d in case["files"].items():
        for e in gen.shrink_bytes(d): yield dict(case, files={f: e})
