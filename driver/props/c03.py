"""C03: success is reported only when every output byte was delivered."""
import errno, gen
from props.common import *
FLAVOURS = ["plain"]
QUICK, THOROUGH = 50000, 4_000_000
CAP = 240
RULE = "a command line that succeeds with healthy outputs is run again with short writes, interrupted writes, or failing opens, writes, flushes and closes of its destination; distinct by the history of the disturbed run; trivial when the disturbance is never reached"
ERRS = [errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EPIPE, errno.EDQUOT, errno.EFBIG, errno.EBADF, errno.ENXIO, errno.EAGAIN]
def gen_case(rng, i, tier):
    r = rng.random()
    if r < .04:
        c = dict(argv=["xmq"] + rng.choice([["--version"], ["--license"], ["--help"], ["help"], ["help", "to-xml"], ["help", "select"], ["--render-theme"]]), files={}, main="-", data=b"", kind="help")
    elif r < .08:
        d = "".join(gen.word(rng) for _ in range(rng.randint(1, 20))).encode("utf-8", "replace").replace(b"\0", b"")
        c = dict(argv=["xmq", "--text", "in.txt", rng.choice(["quote-c", "unquote-c"])], files={"in.txt": d}, main="in.txt", data=d, kind="quote")
    else:
        c = gen.command(rng, broken=0, sized=.25, tokenize=.08, ixml=.06, edits=.3, big=0 if rng.random() < .7 else 20000, kinds=("xmq", "xmq", "xml", "json", "html", "htmq", "text", "clines"))
    dest = "stdout"; dn = "<stdout>"
    plainout = c["kind"] not in ("help", "quote") and "tokenize" not in c["argv"]
    if plainout and rng.random() < .5:
        dest = rng.choice(["save", "save", "browse"])
        if dest == "save":
            c["argv"] += ["save-to", rng.choice(["out.x", "d/out.x"])]; dn = c["argv"][-1]
            c["files"]["d"] = dict(kind=1)
            if rng.random() < .4: c["files"][dn] = b"old" * 10
        else:
            if rng.random() < .5 and not any(a.startswith(("to-", "render")) for a in c["argv"]): pass
            c["argv"] += ["browse"]; dn = gen.browse_name(c)
    elif plainout and rng.random() < .2: c["argv"].append("print")
    faults = []; wchunk = gen.chunks(rng) if rng.random() < .5 else None
    r = rng.random()
    if r < .62 or not wchunk:
        off = rng.choice(["0", "1", "last", "rand", "rand", "rand", "rand", "end", "blk"])
        faults.append(dict(cls="write", path=dn, off=off, k=rng.random(), err=rng.choice(ERRS + [errno.EINTR] * 3), sticky=int(rng.random() < .5), sig=0))
        if faults[0]["err"] == errno.EPIPE and rng.random() < .6: faults[0]["sig"] = 1
        if faults[0]["err"] in (errno.EINTR, errno.EAGAIN): faults[0]["sticky"] = 0
    elif r < .72 and dest != "stdout": faults.append(dict(cls="open_w", path=dn, nth=0, err=rng.choice([errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.ENOENT, errno.EISDIR, errno.ELOOP])))
    elif r < .84 and dest != "stdout": faults.append(dict(cls="close", path=dn, nth=0, err=rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT]), arg=rng.choice([1, 10, 1000, 1 << 30])))
    elif r < .9: faults.append(dict(cls="write", path=dn, nth=rng.randrange(4), err=rng.choice(ERRS), sticky=int(rng.random() < .5)))
    return dict(cmd=c, dest=dest, dn=dn, faults=faults, wchunk=wchunk, so=rng.choice([0, 0, 2, 1]), buf=rng.choice([0, 0, 0, 1, 512, 4096]), missing=int(dest == "save" and dn.startswith("d/") and rng.random() < .15))
def run(case, ctx):
    c = case["cmd"]; dn = case["dn"]
    sc = sc_of(c, stdout_kind=case["so"], env={"TERM": "dumb"})
    base = ctx.run("plain", **sc)
    if base.kind != "exit" or base.code != 0: ctx.tag("baseline:fails"); return
    size = len(base.out) if case["dest"] == "stdout" else len(base.files.get(dn, b""))
    fl = []
    for f in case["faults"]:
        f = dict(f); k = f.pop("k", 0)
        if isinstance(f.get("off"), str):
            o = f["off"]
            f["off"] = dict(blk=min(size, [1024, 4096, 8192, 512][int(k * 4) % 4])).get(o, 0) if o == "blk" else 0 if o == "0" else min(1, size) if o == "1" else max(0, size - 1) if o == "last" else size if o == "end" else int(k * size)
        fl.append(f)
    sc2 = dict(sc, faults=fl, stdout_buf=case["buf"], max_events=3_000_000)
    if case["wchunk"]: sc2["wchunk"] = case["wchunk"]
    if case["missing"]: sc2["files"] = {k: v for k, v in sc["files"].items() if k != "d" and k != dn}
    r = ctx.run("plain", **sc2)
    fired = any(r.fired[:len(fl)]) or case["missing"]
    soft = not case["missing"] and all(f["err"] == errno.EINTR for f in fl)
    ctx.tag("%s:%s" % (case["dest"], "missing" if case["missing"] else fl[0]["cls"] + ("" if fired else " not reached") if fl else "short"))
    ctx.nontrivial = bool(fired or case["wchunk"]); ctx.key = r.hash
    same = r.out == base.out and {k: r.files.get(k) for k in r.touched} == {k: base.files.get(k) for k in base.touched}
    what = "%s (%s, %d bytes) with %s wchunk %s: %s" % (" ".join(c["argv"]), case["dest"], size, fl, case["wchunk"], r.outcome())
    if r.kind == "exit" and r.code == 0:
        if same: return
        d = diff_at(base.out, r.out) if r.out != base.out else diff_at(base.files.get(dn, b""), r.files.get(dn, b""))
        return ctx.violate("lost:%s%s" % (case["dest"], ":interrupted" if fired and soft else "" if fired else ":short"), what + "; " + d)
    if not fired: return ctx.violate("refused:%s" % case["dest"], what + " although every byte could be delivered; stderr " + clip(r.err))
    if r.kind == "killed":
        if r.code == 13 and any(f.get("sig") for f in fl): return
        return ctx.violate("crash:%s" % case["dest"], what)
    if r.kind != "exit": return ctx.violate("crash:%s" % case["dest"], what)
    if not r.err: return ctx.violate("silent:%s" % case["dest"], what + " without a diagnostic")
def shrink(case):
    if case["wchunk"]:
        yield dict(case, wchunk=None)
        if len(case["wchunk"]) > 1:
            for l in gen.shrink_list(case["wchunk"]):
                if l: yield dict(case, wchunk=l)
    for l in gen.shrink_list(case["faults"]): yield dict(case, faults=l)
    if case["buf"]: yield dict(case, buf=0)
    if case["so"]: yield dict(case, so=0)
    for x in shrink_cmd(case["cmd"]):
        if case["dest"] == "save" and x["argv"][-2:] != ["save-to", case["dn"]]: continue
        if case["dest"] == "browse" and "browse" not in x["argv"]: continue
        for k, v in case["cmd"]["files"].items():
            if not isinstance(v, bytes): x["files"][k] = v
        yield dict(case, cmd=x)
