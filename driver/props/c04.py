"""C04: only the save target is touched, and only after all earlier steps succeeded."""
import errno, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 30000, 3_000_000
CAP = 240
RULE = "a command line is run to its end, then killed at several seam events (also in the middle of a write), and with failing inputs; the file system is checked at every end; distinct by the history of the runs; trivial when nothing is saved"
OLD = b"precious old content of the target, longer than what most results will be\n" * 3
def gen_case(rng, i, tier):
    c = gen.command(rng, broken=.1, sized=.25, tokenize=.04, ixml=.08, edits=.75, big=0 if rng.random() < .85 else 20000, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text"))
    target = None
    if "tokenize" not in c["argv"]:
        r = rng.random()
        if r < .6: target = "out.file"
        elif r < .78 and c["main"] != "-": target = c["main"]
        elif r < .82 and len(c["files"]) > 1: target = rng.choice(sorted(c["files"]))
        if target:
            if r >= .55 and r < .6 and not any(a.startswith(("to-", "render-")) for a in c["argv"]): pass
            c["argv"] += ["save-to", target]
            if target == "out.file" and rng.random() < .7: c["files"][target] = OLD
        elif r > .93:
            c["argv"] += ["browse"]; target = gen.browse_name(c)
            if rng.random() < .5: c["files"][target] = OLD
    # steps that fail after others have succeeded
    fail = None
    if rng.random() < .3 and "save-to" in c["argv"] and c["kind"] != "text":
        n, s, d = rng.choice(gen.corpus()["xsd"]); c["files"]["bad.xsd"] = s
        j = c["argv"].index("save-to"); k = next((x for x in range(1, j) if c["argv"][x].startswith(("to-", "render-"))), j)
        f = rng.choice(["validate", "transform", "transform"])
        if f == "transform":
            c["files"]["bad.xslq"] = b"xsl:stylesheet(version=1.0 xmlns:xsl=http://www.w3.org/1999/XSL/Transform) {\n xsl:template(match=/) { xsl:message(terminate=yes)=stop }\n}\n"
            c["argv"][k:k] = ["transform", "bad.xslq"]
        else: c["argv"][k:k] = ["validate", "bad.xsd"]
        fail = f
    c["files"]["bystander.xmq"] = b"do not touch\n"
    runs = []
    for _ in range(rng.choice([2, 3, 5])):
        r = rng.random()
        if r < .75:
            frac = rng.random() if rng.random() < .5 else 1 - rng.random() * .25
            runs.append(dict(crash=frac, part=rng.choice([-1, 0, 250, 500, 999, rng.randrange(1000)])))
        else:
            t = rng.choice(sorted(x for x in c["files"] if x not in ("bystander.xmq", "out.file")) + (["<stdin>"] if c["main"] == "-" else []) or ["<stdin>"])
            runs.append(dict(fault=dict(cls=rng.choice(["read", "read", "open_r"]), path=t, nth=rng.randrange(3), err=errno.EIO, sticky=1)))
    return dict(cmd=c, target=target, runs=runs, wchunk=gen.chunks(rng) if rng.random() < .3 else None, fail=fail)
def check(ctx, case, r, new, label, base):
    c = case["cmd"]; t = case["target"]
    what = "%s; %s: %s" % (" ".join(c["argv"]), label, r.outcome())
    extra = r.touched - {t}
    if extra: ctx.violate("bystander", what + "; touched " + " ".join(sorted(extra))); return False
    old = c["files"].get(t) if t else None
    for k, v in c["files"].items():
        if k != t and r.files.get(k) != v: ctx.violate("bystander", what + "; changed " + k); return False
    if t and t in r.touched:
        opened = False
        for e in r.log:
            if e[0] == "OPEN" and e[4] == t and e[2] >= 0 and (e[3] & 3): opened = True
            elif opened and (e[0] == "OPEN" and not (e[3] & 3) or e[0] == "READ" and e[2] >= 0 or e[0] in ("FORK", "EXEC")):
                ctx.violate("early", what + "; the target was opened before an input was read"); return False
            elif e[0] == "FSOP" and opened is False and t in e[4].split(" "): opened = True
        now = r.files.get(t)
        ok = now is not None and (new is not None and new.startswith(now) or now == old)
        if not ok: ctx.violate("content", what + "; target holds %s" % clip(now if now is not None else b"(nothing: removed)")); return False
    elif t and r.files.get(t) != old: ctx.violate("content", what + "; target changed"); return False
    return True
def run(case, ctx):
    c = case["cmd"]; t = case["target"]
    sc = sc_of(c, env={"TERM": "dumb"}, max_events=1_000_000)
    if case["wchunk"]: sc["wchunk"] = case["wchunk"]
    base = ctx.run("plain", **sc)
    if base.kind != "exit": ctx.tag("baseline:" + base.kind); return
    new = base.files.get(t) if t and base.code == 0 else None
    ctx.tag("ends:exit%d%s" % (base.code, ":save" if t else ""))
    ctx.nontrivial = bool(t); hs = [base.hash]
    if base.code != 0:
        if base.touched: return ctx.violate("failed-but-touched", "%s: %s; touched %s; stderr %s" % (" ".join(c["argv"]), base.outcome(), sorted(base.touched), clip(base.err)))
        ctx.tag("step failed, target kept" + (":" + case["fail"] if case["fail"] else ""))
    elif t and t not in base.touched: return ctx.violate("not-saved", "%s: exit 0, target not written" % " ".join(c["argv"]))
    if not check(ctx, case, base, new, "complete run", base): return
    for x in case["runs"]:
        s = dict(sc)
        if "crash" in x: s["crash"] = (int(x["crash"] * base.events), x["part"]); label = "killed at event %d/%d part %d" % (s["crash"][0], base.events, x["part"])
        else: s["faults"] = [x["fault"]]; label = "fault %s" % x["fault"]
        r = ctx.run("plain", **s)
        hs.append(r.hash)
        if "crash" in x: ctx.tag("killed:" + ("after" if t in r.touched else "before") + " first touch" if t else "killed:no target")
        else:
            if not r.fired[0]: continue
            if r.kind == "exit" and r.code != 0 and r.touched: return ctx.violate("failed-but-touched", "%s; %s: %s; touched %s" % (" ".join(c["argv"]), label, r.outcome(), sorted(r.touched)))
            ctx.tag("input fault")
        if not check(ctx, case, r, new, label, base): return
    ctx.key = "".join(h[:8] for h in hs)
def shrink(case):
    for l in gen.shrink_list(case["runs"]): yield dict(case, runs=l)
    if case["wchunk"]: yield dict(case, wchunk=None)
    for x in shrink_cmd(case["cmd"]):
        if case["target"] and case["target"] not in x["argv"] and "browse" not in x["argv"]: continue
        for f in (case["target"],):
            if f in case["cmd"]["files"]: x["files"].setdefault(f, case["cmd"]["files"][f])
        yield dict(case, cmd=x)
