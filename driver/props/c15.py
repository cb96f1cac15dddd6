"""C15: the terminal background query ends in bounded time and follows the reply."""
import errno, random, re, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 60000, 3_000_000
CAP = 240
RULE = "the question for the background colour against a simulated terminal that answers (any colour, split and delayed at will), answers garbage, stays silent, hangs up, fails or interrupts reads; distinct by event history; trivial when nothing is asked"
ASSUME = ["bytes that reach the terminal before xmq has set its mode are discarded with the mode change (TCSAFLUSH)", "simulated time stands for wall time"]
USABLE = re.compile(rb"rgb:\s*[-+]?[0-9a-fA-F]+/\s*[-+]?[0-9a-fA-Fx]+/\s*[-+]?[0-9a-fA-Fx]+")
QUERY = b"\x1b]11;?\x07"
def reply(rng):
    """-> (bytes, brightness or None when not usable)"""
    lo = rng.choice([0, 0x1111, 0x5555, 0x9000, 0x9900, 0x9a00, 0xa000, 0xd000, 0xffff])
    v = [rng.choice([lo, lo, rng.randrange(65536), 0, 0xffff]) for _ in range(3)]
    f = rng.choice(["%04x", "%04x", "%04X"])
    end = b"\x07" if rng.random() < .75 else b"\x1b\\"          # BEL, or ST as newer terminals say it
    return b"\x1b]11;rgb:" + "/".join(f % x for x in v).encode() + end, (0.2126 * v[0] + 0.7152 * v[1] + 0.0722 * v[2]) / 256.0
GARBAGE = [b"\x07", b"\x1b\x07", b"x", b"q\n", b"\x1b]11;rgb:ffff/ffff\x07", b"\x1b]10;rgb:ffff/ffff/ffff\x07", b"\x1b]11;rgb:gggg/0000/0000\x07", b"\0" * 30, b"\xff" * 24, b"\x1b[?1;2c", b"a" * 200, b"\x1b]11;rgb:ffffffff/ffff/ffff\x07",
           b"\x1b]11;#ffffff\x07", b"%s%n%s%n%s%n\x07", b"\x1b]11;rgb:\x07", b"11;rgb:ffff/ffff/ffff\x07", b"\x1b]11;rgb:ffff/ffff/fff\x07", b"\x1b]11;rgb:ffff/ffff/zzzz\x07", b"\x1b]11;rgb:ffff/ffff;ffff\x07", b"\x1b]11;rgb:ffff,ffff,ffff\x07", b"\x1b]12;rgb:ffff/ffff/ffff\x07", b"\x1b]11;RGB:ffff/ffff/ffff\x07", b"\x1b]11;hsl:ffff/ffff/ffff\x07", b"\x9b]11;rgb:ffff/ffff/ffff\x07"]
def gen_case(rng, i, tier):
    kind = rng.choice(["reply"] * 8 + ["garbage", "garbage", "silence", "late", "typed", "partial", "hangup", "other"])
    ev = []; b = None; data = b""
    if kind in ("reply", "late", "typed", "partial", "hangup"): data, b = reply(rng)
    elif kind == "garbage": data = rng.choice(GARBAGE) if rng.random() < .6 else gen.corrupt(rng, reply(rng)[0])
    if kind == "partial" or kind == "hangup": data = data[:rng.randrange(len(data))]
    at = 20000 if kind != "late" else rng.choice([20000, 1_200_000])
    total = rng.choice([0, 100, 10000, 300000, 850000]) if kind != "late" else 5_000_000
    if kind == "typed": ev.append([rng.choice([0, 20000]), 0, rng.choice([b"q", b"ls\n", b"\x1b", b" "])])
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.choice([0, 0, 1, 2, 5, 24])))
    p = 0; pieces = []
    for c in cuts + [len(data)]:
        if c > p: pieces.append(data[p:c]); p = c
    for k, x in enumerate(pieces):
        t = at + total * (k + (1 if len(pieces) == 1 else 0)) // max(1, len(pieces) - 1 or 1)
        if rng.random() < .15: ev.append([t, 3, b""])
        ev.append([t, 0, x])
    if kind == "silence" and rng.random() < .4: ev.append([rng.choice([30000, 500000]), 3, b""])
    if kind == "hangup": ev.append([at + total + 10, rng.choice([1, 2]), b""])
    elif rng.random() < .1: ev.append([3_000_000, 0, b"later keys\n"])
    fl = []
    if rng.random() < .15:
        k = rng.randrange(5)
        fl.append([dict(cls="read", path="<tty>", nth=rng.randint(0, 24), err=rng.choice([errno.EIO, errno.EINTR]), sticky=0), dict(cls="tcset", nth=rng.randint(0, 2), err=rng.choice([errno.EINTR, errno.EIO])),
                   dict(cls="tcget", nth=rng.randint(0, 1), err=errno.EIO), dict(cls="write", path="<tty>", nth=0, err=errno.EINTR), dict(cls="write", path="<tty>", nth=rng.randint(0, 3), err=errno.EIO, sticky=1)][k])
    k, d = gen.doc(rng, ("xmq", "xml", "json"), 0, 0, 0)
    d = d[:3000] if len(d) > 3000 else d
    f = "in" + gen.EXT[k]
    src = rng.choice(["file", "stdin"])
    out = rng.choice([[], ["to-xmq"], ["render-terminal"], ["to-xml"], ["render-terminal", "--color"], ["for-each", "//*", "--shell=sleep 2"]])
    env = {"TERM": rng.choice(["xterm", "xterm-256color"])}
    if kind == "other":
        env = rng.choice([{"TERM": "linux"}, {"TERM": "vt100"}, {}, {"TERM": "xterm", "XMQ_THEME": "mono"}, {"TERM": "xterm", "XMQ_THEME": "lightbg"}, {"TERM": "xterm", "XMQ_THEME": "darkbg"}, {"COLORFGBG": "0;15"}, {"COLORFGBG": "15;0"}, {"COLORFGBG": "0;default;15"}, {"TERM": "xterm-kitty", "COLORFGBG": "7;0"}])
    return dict(kind=kind, ev=ev, data=data, bright=b, faults=fl, argv=["xmq", f if src == "file" else "-"] + out, files={f: d} if src == "file" else {}, stdin=d if src != "file" else None,
                env=env, lflag=rng.choice([0x8a3b, 0x8a3b, 0x8a33, 3, 9, 1]), shells=[[0, rng.choice([1, 2000, 100000])]], tty_out=1 if rng.random() < .95 else 0)
def run(case, ctx):
    base = dict(argv=case["argv"], files=case["files"], stdin=(0, case["stdin"]) if case["stdin"] is not None else (2, b""), ws=(24, 80), lflag=case["lflag"], shells=[tuple(s) for s in case["shells"]])
    kind = case["kind"]
    r = ctx.run("plain", env=case["env"], stdout_kind=case["tty_out"], tty=[tuple(e) for e in sorted(case["ev"], key=lambda e: e[0])], faults=case["faults"], **base)
    what = "%s with %s, terminal %s (%s), faults %s: %s after %.3f s" % (" ".join(case["argv"]), case["env"], [(e[0], ["bytes", "EOF", "EIO", "EINTR"][e[1]], e[2]) for e in case["ev"]], kind, case["faults"], r.outcome(), r.now / 1e6)
    e = bad_end(r)
    if e: return ctx.violate(e, what + " stderr " + clip(r.err))
    # the mode, the alarm handler and the alarm are as they were found
    sets = [x for x in r.log if x[0] == "TCSET"]
    hard = any(f["cls"] == "tcset" and f["err"] != errno.EINTR and r.fired[i] for i, f in enumerate(case["faults"]))
    if sets and sets[-1][2] & 0xffffffff != case["lflag"] and not hard: return ctx.violate("terminal-mode", what + "; left in mode %x, found in %x" % (sets[-1][2] & 0xffffffff, case["lflag"]))
    asked = QUERY in r.out
    ctx.key = r.hash; ctx.nontrivial = asked; ctx.tag("kind:" + kind)
    fk = {f["cls"]: f for i, f in enumerate(case["faults"]) if r.fired[i]}
    expect_query = case["tty_out"] and case["env"].get("TERM") in ("xterm", "xterm-256color") and "XMQ_THEME" not in case["env"]
    if not expect_query and asked: return ctx.violate("asked", what)
    # how long the question took, from asking to the first thing done after it
    answered = r.kind == "exit" and r.code == 0
    t = [x for x in r.log if x[0] == "TTYREAD" or x[0] == "ALARM" and x[3] != 100 and x[2] == 0]
    if asked:
        t0 = next(x[5] for x in r.log if x[0] == "WRITE" and x[2] == 1)
        reads = [x[5] for x in r.log if x[0] == "TTYREAD"]
        if reads and max(reads) - t0 > 1_200_000: return ctx.violate("waits", what + "; still reading %.3f s after the question" % ((max(reads) - t0) / 1e6))
    themes = {}
    def doc(theme):
        if theme not in themes: themes[theme] = ctx.run("plain", env=dict({k: v for k, v in case["env"].items() if k == "PATH"}, XMQ_THEME=theme), stdout_kind=case["tty_out"], **base)
        return themes[theme]
    if "write" in fk:
        if answered and r.out.replace(QUERY, b"", 1) not in (doc("lightbg").out, doc("darkbg").out): return ctx.violate("partial-success", what)
        return
    gone = not answered and r.kind == "exit"
    sig = [x for x in r.log if x[0] == "SIGACTION" and x[2] == 14]
    if asked and answered:
        if sig and sig[-1][3] not in (0, 100) : return ctx.violate("alarm-handler", what + "; the handler of SIGALRM is still set")
        if any(x[0] == "ALARM" and x[3] == 100 for x in r.log): return ctx.violate("alarm-left", what + "; an alarm is still running at exit")
    if any(x[0] == "SIGNAL" and x[2] == 14 and x[5] > 2_500_000 for x in r.log): return ctx.violate("late-alarm", what)
    body = r.out.replace(QUERY, b"", 1) if asked else r.out
    # what the reply asks for
    soft = bool(fk)
    want = None
    if kind == "other" or not expect_query:
        v = case["env"]
        if "XMQ_THEME" in v: want = [v["XMQ_THEME"]]
        elif not case["tty_out"] and (kind != "other" or v.get("TERM") == "xterm"): want = ["darkbg"]
        elif v.get("TERM") == "linux": want = ["darkbg"]
        elif "COLORFGBG" in v and v.get("TERM") not in ("xterm", "xterm-256color"): want = ["darkbg" if v["COLORFGBG"].endswith(";0") else "lightbg"]
        elif v.get("TERM") in ("xterm", "xterm-256color") and "XMQ_THEME" not in v: want = ["darkbg", "silence"]
        else: want = ["darkbg"]
    elif kind == "reply":
        want = ["lightbg" if case["bright"] > 153 else "darkbg"]
        if abs(case["bright"] - 153) < 1: want = ["lightbg", "darkbg"]
    elif kind == "silence": want = ["silence", "darkbg"]
    elif kind == "late": want = ["silence", "darkbg"] if case["ev"] and max(e[0] for e in case["ev"] if e[1] == 0 and e[0] < 2_900_000 or e[1] == 0) > 1_100_000 else ["lightbg", "darkbg", "silence"]
    elif kind in ("typed", "partial", "garbage"): 
        # only an answer that names three components can say that the background is light
        full = b"".join(e[2] for e in sorted(case["ev"], key=lambda e: e[0]) if e[1] == 0)
        want = ["darkbg", "silence"] + (["lightbg"] if USABLE.search(full) else [])
    elif kind == "hangup": want = ["darkbg"] if len(case["data"]) < 23 else ["darkbg", "lightbg"]
    if fk.get("read", {}).get("err") == errno.EIO: want = ["darkbg"] if kind != "silence" else ["darkbg", "silence"]; want += ["lightbg"] if len(b"".join(x[4] for x in r.log if x[0] == "TTYREAD" and x[2] > 0)) >= 23 else []
    if "tcset" in fk and fk["tcset"]["err"] == errno.EIO or "tcget" in fk: want = ["darkbg", "lightbg", "silence"]   # the terminal stays in line mode
    if kind == "hangup" and case["ev"] and case["ev"][-1][0] > 950_000: want = ["darkbg", "silence"]
    if gone:
        d = doc("darkbg")
        if d.code == r.code and d.out == body and r.err.endswith(d.err): return   # the pipeline itself fails
        if "silence" not in want: return ctx.violate("gives-up", what + "; stderr " + clip(r.err))
        if not r.err: return ctx.violate("silent-exit", what)
        if body: return ctx.violate("partial", what + "; printed " + clip(body))
        ctx.tag("end:gave up"); return
    ctx.tag("end:" + r.outcome())
    ok = [w for w in want if w != "silence"]
    for w in ok:
        d = doc(w)
        if d.out == body and d.code == r.code: return
    if r.code == 0 and doc("darkbg").code == 0:
        other = [w for w in ("lightbg", "darkbg", "mono") if doc(w).out == body]
        return ctx.violate("theme" if other else "document", what + "; expected the document in %s, got %s" % (ok, other or clip(body)))
def shrink(case):
    for f in shrink_faults(case): yield f
    for l in gen.shrink_list(case["ev"]): 
        if case["kind"] != "reply" and case["kind"] != "hangup" and case["kind"] != "late": yield dict(case, ev=l)
        elif l != case["ev"] and b"".join(e[2] for e in l if e[1] == 0) == b"".join(e[2] for e in case["ev"] if e[1] == 0): yield dict(case, ev=l)
    if case["kind"] == "reply" and len([e for e in case["ev"] if e[1] == 0]) > 1: yield dict(case, ev=[[20000, 0, case["data"]]])
    if case["argv"][2:]: yield dict(case, argv=case["argv"][:2])
    if case["lflag"] != 0x8a3b: yield dict(case, lflag=0x8a3b)
    for f, d in case["files"].items():
        for e in gen.shrink_bytes(d): yield dict(case, files={f: e})
    if case["stdin"]:
        for e in gen.shrink_bytes(case["stdin"]): yield dict(case, stdin=e)
