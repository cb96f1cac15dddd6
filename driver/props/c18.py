"""C18: a logged line is one line of XMQ, and a log reads back as the values that were logged."""
import errno, re
import xml.etree.ElementTree as ET
import gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 40000, 3_000_000
CAP = 240
RULE = "1..4 threads, switched at seeded basic blocks, log lines of seeded values (all sizes around the buffers, quotes, newlines, odd characters) to one simulated file; allocations fail, the writer is killed and the file ends torn; a second process reads what a restart would keep and an XML reader gives the values back; or a command line runs with --trace --log-xmq and its log is read back; distinct by event history; trivial when no line is logged"
ASSUME = ["a restart keeps the lines that are complete", "texts that XML 1.0 cannot hold are left out, since the log is read back through to-xml"]
WORDS = ["", " ", "'", "''", "'''", "\n", "\n\n", " \n ", "\t", "\r", "\r\n", "=", "{", "}", "(", ")", "//", "/*", "*/", "&", "&amp;", "&#10;", ";", "<", ">", "]]>", "\"", "\"\"", "\\", "%", "å", "€", "😀", "\u00a0", "\u2003", "\u2028", "\ufeff", "a", "x y", "123", "-1", "true", "!", "?", "#", "a=b", "k{", "http://x.y/?q=1&r=2", "~", "`", "^"]
def value(rng):
    r = rng.random()
    if r < .6: s = "".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 2, 3, 5])))
    elif r < .95: s = gen.text(rng, 0)
    else:
        n = rng.choice([255, 511, 1022, 1023, 1024, 1025, 2047, 2048, 4096, 10000]) + rng.randint(-3, 3); u = rng.choice(["x", "ab ", "å", "'", "a\n", "\n", "word word "]); s = (u * (n // len(u.encode()) + 1))[:n]
    return gen.XMLBAD.sub("", s).replace("\0", "")
def gen_case(rng, i, tier):
    if rng.random() < .2:
        cmd = gen.command(rng, broken=.15, sized=.05, ixml=0, tokenize=0, edits=.4, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text"))
        cmd["argv"][1:1] = ["--log-xmq", rng.choice(["--trace", "--trace", "--debug", "--verbose"])]
        if cmd["main"] != "-" and rng.random() < .4:
            f = cmd["main"]; n = rng.choice(["it's ", "a b", "x{", "=", "å", "//", "(", "%s%d", "&", "'''"]) + f
            cmd["argv"] = [n if a == f else a for a in cmd["argv"]]; cmd["files"][n] = cmd["files"].pop(f); cmd["main"] = n
        fl = []
        if rng.random() < .3: fl = [dict(cls="read", path=rng.choice(sorted(cmd["files"]) or ["<stdin>"]), nth=rng.randrange(3), err=rng.choice([errno.EINTR, errno.EINTR, errno.EIO]))]
        return dict(kind="cli", cmd=cmd, faults=fl)
    th = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        th.append([[rng.choice(["k", "key", "a.b", "xmq.cli"]) if st != 8 else rng.choice(["note", "Fix me", "it's", "a\nb"]), value(rng), rng.choice([0, 1, -1, 17, 123456]), st, value(rng)] for st in [rng.choice([0, 1, 1, 5, 5, 8]) for _ in range(rng.choice([1, 1, 2, 4]))]])
    n = sum(map(len, th))
    return dict(kind="line", threads=th, slice=rng.choice([3, 20, 100, 1000]), seed=rng.randrange(1 << 31), torn=rng.randrange(1001) if rng.random() < .3 else 1000,
                faults=[dict(cls="xmalloc", nth=rng.randrange(8 * n), err=errno.ENOMEM)] if rng.random() < .12 else [], rchunk=gen.chunks(rng) if rng.random() < .2 else None)
def expected(op):
    key, t, n, st, t2 = op
    if st == 8: return ("log", "%s %d %s %s." % (key, n, t, t2))
    if st == 0: return (key, "%d%s%d" % (n, t, n + 1))
    if st == 5: return (key, [("a", t), ("b", t2), ("c", t + t2)])
    return (key, [("text", t), ("num", "%d" % n), ("both", "%d%s%d" % (n, t, n + 1))])
def read_back(ctx, data, rchunk=None):
    """the log as a document -> list of (name, text or pairs), or what went wrong"""
    if not data: return []
    sc = dict(argv=["xmq", "log.xmq", "add-root", "log", "to-xml"], files={"log.xmq": data}, stdin=(2, b""))
    if rchunk: sc["rchunk"] = rchunk
    r = ctx.run("plain", **sc)
    if r.kind != "exit" or r.code: return "cannot be read: %s %s" % (r.outcome(), clip(r.err))
    try: root = ET.fromstring(r.out)
    except ET.ParseError as e: return "gives no xml: %s: %s" % (e, clip(r.out))
    if (root.text or "").strip(): return "has a text outside of the lines: %s" % clip(root.text)
    return [(e.tag, [(k.tag, k.text or "") for k in e] if len(e) else e.text or "") for e in root]
def run(case, ctx):
    if case["kind"] == "cli":
        r = ctx.run("plain", **sc_of(case["cmd"], faults=case["faults"]))
        what = " ".join(case["cmd"]["argv"])
        ctx.key = r.hash; ctx.nontrivial = bool(r.err); ctx.tag("cli:" + r.outcome())
        if r.kind != "exit" or r.code: return          # the reason that is printed is no log
        log = r.err
        if not log or "--log-xmq" not in case["cmd"]["argv"]: return
        if gen.XMLBAD.search(log.decode("utf-8", "replace")) or b"\xef\xbf\xbd" in log.decode("utf-8", "replace").encode(): ctx.tag("bytes xml cannot hold"); return
        if "transform" in case["cmd"]["argv"] or b"xmq: Warning!" in log or "validate" in case["cmd"]["argv"]: ctx.tag("libxml2 prints too"); return
        if any(int(n) < 32 and int(n) not in (9, 10, 13) or int(n) in (0xfffe, 0xffff) for n in re.findall(rb"&#(\d+);", log)): ctx.tag("bytes xml cannot hold"); return
        if any(not re.match(rb"xmq(\.\w+)?[={]|log=", l) for l in log.splitlines()): 
            if b"error :" in log or b"warning :" in log: ctx.tag("libxml2 prints too"); return
            return ctx.violate("log:line", "%s logs the line %s" % (what, clip([l for l in log.split(b"\n") if not re.match(rb"xmq(\.\w+)?[={]|log=", l)][0])))
        got = read_back(ctx, log)
        if isinstance(got, str): return ctx.violate("log:unreadable", "%s logs %s which %s" % (what, clip(log, 900), got))
        if len(got) != log.count(b"\n"): return ctx.violate("log:count", "%s logs %d lines which are %d elements: %s" % (what, log.count(b"\n"), len(got), clip(log, 900)))
        return
    ops = [[t, 15, [o[0].encode(), o[1].encode(), o[2], o[3], o[4].encode()]] for t, l in enumerate(case["threads"]) for o in l]
    size = sum(len(o[1]) + len(o[4]) for l in case["threads"] for o in l)
    r = ctx.run("plain", api=dict(threads=len(case["threads"]), ops=ops, slice=max(case["slice"], size // 8), seed=case["seed"]), faults=case["faults"], max_events=1_000_000, max_steps=20_000_000 + 20_000 * size)
    what = "lines %s%s" % (str(case["threads"])[:1500], " with the allocation %d refused" % case["faults"][0]["nth"] if case["faults"] else "")
    e = bad_end(r)
    if e and not (case["faults"] and any(r.fired)): return ctx.violate(e, what + " " + r.outcome())
    ctx.key = r.hash; ctx.tag("threads:%d" % len(case["threads"]))
    left = [list(l) for l in case["threads"]]; want = []; log = b""
    for x in r.log:
        if x[0] != "RESULT": continue
        op = left[x[2]].pop(0); line = x[4]
        if line in (b"(null)", b"") and any(r.fired): continue       # not logged
        if b"\n" in line or b"\r" in line: return ctx.violate("line:breaks", "%s: %s is logged as more than one line: %s" % (what, op, clip(line, 600)))
        want.append(expected(op)); log += line + b"\n"
        ctx.tag("style%d" % op[3])
    ctx.nontrivial = bool(want)
    if not want: return
    if case["torn"] < 1000:
        log = log[:len(log) * case["torn"] // 1000]; log = log[:log.rfind(b"\n") + 1]; want = want[:log.count(b"\n")]
    got = read_back(ctx, log, case["rchunk"])
    if isinstance(got, str): return ctx.violate("unreadable", "%s: the log %s %s" % (what, clip(log, 900), got))
    if got != want:
        k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        return ctx.violate("differs", "%s: logged %s, line %s, reads back as %s" % (what, str(want[k:k + 1])[:700], clip(log.split(b"\n")[k], 700), str(got[k:k + 1])[:700]))
def shrink(case):
    for f in shrink_faults(case): yield f
    if case["kind"] == "cli":
        for c in shrink_cmd(case["cmd"]): yield dict(case, cmd=c)
        return
    th = case["threads"]
    if case["torn"] < 1000: yield dict(case, torn=1000)
    if case["rchunk"]: yield dict(case, rchunk=None)
    for t in range(len(th)):
        if len(th) > 1: yield dict(case, threads=th[:t] + th[t + 1:])
        for k in range(len(th[t])):
            if len(th[t]) > 1: yield dict(case, threads=th[:t] + [th[t][:k] + th[t][k + 1:]] + th[t + 1:])
            o = th[t][k]
            for j in (1, 4):
                for v in gen.shrink_bytes(o[j].encode()):
                    try: v = v.decode()
                    except UnicodeDecodeError: continue
                    yield dict(case, threads=th[:t] + [th[t][:k] + [o[:j] + [v] + o[j + 1:]] + th[t][k + 1:]] + th[t + 1:])
