"""Client side of simserver: scenario encoding, execution, history decoding."""
import errno as E, hashlib, os, re, struct, subprocess, signal
import build

EV = ["?", "OPEN", "READ", "WRITE", "CLOSE", "SEEK", "FORK", "EXEC", "WAIT", "SYSTEM", "EXIT", "FAULT", "KILLED", "STOP",
      "TCSET", "ALARM", "SIGNAL", "TTYREAD", "RESULT", "FSOP", "OTHER", "ALLOCFAIL", "SIGACTION", "IOCTL", "CHILDEND",
      "SWITCH", "LEAK", "SLEEP"]
CLS = ["open_r", "open_w", "read", "write", "close", "seek", "fork", "exec", "wait", "malloc", "xmalloc", "ioctl", "tcset",
       "tcget", "system", "shrink", "stat"]
NCLS = len(CLS); MAXFAULT = 64; COVB = 65536 // 8
HDR = struct.Struct("<iIQQ%dI%dIIIQQQQII" % (NCLS, MAXFAULT))
HDR = struct.Struct("=iIQQ" + "%dI" % NCLS + "%dI" % MAXFAULT + "II")  # followed by (aligned) QQQQII
# struct layout in C: int32,u32,u64,u64,u32[17],u32[64],u32,u32 -> offset 24+68+256+8=356 -> pad to 360, 4xu64, 2xu32
PRE = struct.Struct("=iIQQ"); 
def _parse_hdr(b):
    status, events, now, steps = PRE.unpack_from(b, 0)
    o = 24
    counts = struct.unpack_from("=%dI" % NCLS, b, o); o += 4 * NCLS
    fired = struct.unpack_from("=%dI" % MAXFAULT, b, o); o += 4 * MAXFAULT
    nkids, pre = struct.unpack_from("=II", b, o); o += 8
    o = (o + 7) & ~7
    mallocs, lb, ly, peak = struct.unpack_from("=QQQQ", b, o); o += 32
    errlen, loglen = struct.unpack_from("=II", b, o); o += 8
    return status, events, now, steps, counts, fired, nkids, pre, mallocs, lb, ly, peak, errlen, loglen, o

REC = struct.Struct("=BBHiiI")  # then u64 aligned: offset 16 -> 24 bytes total
RECSZ = 24

def _rec(t, b):
    return t + struct.pack("<I", len(b)) + b

def u8(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")

class Result:
    __slots__ = ("kind", "code", "why", "out", "err", "writes", "log", "raw", "hash", "events", "now", "steps", "counts",
                 "fired", "cov", "asan", "nkids", "preempts", "live", "files", "mallocs", "touched", "tty", "peak")
    def exit0(self): return self.kind == "exit" and self.code == 0
    def crashed(self): return self.kind in ("crash", "sanitizer", "assert")
    def outcome(self):
        return "%s:%s%s" % (self.kind, self.code, (":" + self.why) if self.why else "")

class Sim:
    """One simserver process. run() executes one simulated process of the program (or API program)."""
    def __init__(self, flavour="plain", exe=None):
        self.flavour = flavour
        self.exe = exe or build.build(flavour)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "XML_CATALOG_FILES": "",
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:malloc_fill_byte=190:max_malloc_fill_size=0:print_summary=1:symbolize=1:quarantine_size_mb=8:allocator_release_to_os_interval_ms=-1"}
        if os.environ.get("SIM_FAST_SYM"): env["ASAN_OPTIONS"] += ":symbolize=0"
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, bufsize=0)
        self.nruns = 0
    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()
    def _read(self, n):
        b = bytearray()
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c: raise RuntimeError("simserver died")
            b += c
        return bytes(b)
    def run(self, **sc):
        req = encode(sc)
        self.p.stdin.write(struct.pack("<I", len(req)) + req)
        tot, = struct.unpack("<I", self._read(4))
        b = self._read(tot)
        self.nruns += 1
        return decode(b, sc)

def budget(sc):
    """instructions (basic blocks) a run may take; a set of characters in a grammar costs up to 3.5 million, whatever the input"""
    sets = 0; rep = 1
    if "api" in sc:
        rep = sc["api"].get("repeat", 1)
        if any(op[1] in (5, 19) for op in sc["api"]["ops"]):
            sets = sum(a.count(b"[") if isinstance(a, bytes) else 0 for op in sc["api"]["ops"] for a in op[2])
        else: rep = 1
    if sets or any(k.endswith(".ixml") for k in sc.get("files", {})):
        for f in sc.get("files", {}).values():
            d = f if isinstance(f, bytes) else f.get("data", b"")
            sets += d.count(b"[")
    return 40_000_000 * rep + min(400_000_000, 4_000_000 * sets * rep)
def encode(sc):
    o = []
    for a in sc.get("argv", ()): o.append(_rec(b"A", u8(a)))
    for k, v in sorted(sc.get("env", {}).items()): o.append(_rec(b"E", u8(k) + b"=" + u8(v)))
    for path, f in sorted(sc.get("files", {}).items()):
        if isinstance(f, bytes): kind, rerr, werr, data = 0, 0, 0, f
        else: kind, rerr, werr, data = f.get("kind", 0), f.get("rerr", 0), f.get("werr", 0), f.get("data", b"")
        pb = u8(path)
        o.append(_rec(b"F", struct.pack("<IIII", kind, rerr, werr, len(pb)) + pb + data))
    si = sc.get("stdin", (0, b""))
    o.append(_rec(b"I", bytes([si[0]]) + si[1]))
    o.append(_rec(b"O", struct.pack("<III", sc.get("stdout_kind", 0), sc.get("stdout_buf", 0), sc.get("lflag", 0))))
    for f in sc.get("faults", ()):
        o.append(_rec(b"X", struct.pack("<IIIiIqq", CLS.index(f["cls"]), int(f.get("sticky", 0)), int(f.get("sig", 0)), f.get("nth", -1),
                                        f.get("err", 5), f.get("off", -1), f.get("arg", 0)) + u8(f.get("path", ""))))
    if sc.get("rchunk"): o.append(_rec(b"R", struct.pack("<%dI" % len(sc["rchunk"]), *sc["rchunk"])))
    if sc.get("wchunk"): o.append(_rec(b"w", struct.pack("<%dI" % len(sc["wchunk"]), *sc["wchunk"])))
    for at, kind, data in sc.get("tty", ()): o.append(_rec(b"T", struct.pack("<qI", at, kind) + data))
    if "epoch" in sc: o.append(_rec(b"N", struct.pack("<qI", sc["epoch"], sc.get("salt", 0))))
    if "ws" in sc: o.append(_rec(b"S", struct.pack("<II", *sc["ws"])))
    m = sc.get("mem", (99, 0)); o.append(_rec(b"M", struct.pack("<II", *m)))
    if "crash" in sc: o.append(_rec(b"K", struct.pack("<qq", *sc["crash"])))
    o.append(_rec(b"L", struct.pack("<qqq", sc.get("max_steps") or budget(sc), sc.get("max_events", 2_000_000), sc.get("max_bytes", 32 << 20))))
    for code, ms in sc.get("shells", ()): o.append(_rec(b"H", struct.pack("<II", code, ms)))
    if "api" in sc:
        a = sc["api"]
        o.append(_rec(b"P", struct.pack("<IIIIq", a.get("threads", 1), a.get("mode", 0), a.get("slice", 0), a.get("repeat", 1), a.get("seed", 1))))
        if a.get("mode", 0) == 1:
            pl = b"".join(struct.pack("<QI", s, t) for s, t in a.get("preempt", ()))
            o.append(_rec(b"p", pl))
        q = []
        for op in a["ops"]:
            t, code, args = op[0], op[1], op[2]
            q.append(bytes([t, code, len(args)]))
            for x in args:
                x = u8(x) if not isinstance(x, int) else str(x).encode()
                q.append(struct.pack("<I", len(x)) + x)
        o.append(_rec(b"Q", b"".join(q)))
    return b"".join(o)

def decode(b, sc):
    (status, events, now, steps, counts, fired, nkids, pre, mallocs, lb, ly, peak, errlen, loglen, o) = _parse_hdr(b)
    r = Result()
    r.events, r.now, r.steps, r.nkids, r.preempts, r.mallocs, r.live, r.peak = events, now, steps, nkids, pre, mallocs, (lb, ly), peak
    r.counts = dict(zip(CLS, counts)); r.fired = fired
    r.cov = b[o:o + COVB]; o += COVB
    r.asan = clean_asan(b[o:o + errlen].decode("utf-8", "replace")) if errlen else ""; o += errlen
    raw = b[o:o + loglen]
    r.raw = raw
    r.log = []
    r.writes = {}
    r.touched = set()
    files = {k: (v if isinstance(v, bytes) else v.get("data", b"")) for k, v in sc.get("files", {}).items()}
    dirs = {k for k, v in sc.get("files", {}).items() if not isinstance(v, bytes) and v.get("kind", 0) == 1}
    cur = {}
    out = bytearray(); err = bytearray()
    p = 0; n = len(raw)
    kind, code, why = None, None, ""
    h = hashlib.sha1()
    while p + RECSZ <= n:
        ty, pid, x, a, bb, ln = REC.unpack_from(raw, p)
        t, = struct.unpack_from("=Q", raw, p + 16)
        d = raw[p + RECSZ:p + RECSZ + ln]
        p += RECSZ + ln
        name = EV[ty]
        h.update(b"%d,%d,%d,%d,%d;" % (ty, pid, a, bb, ln)); h.update(d)
        if name == "WRITE" and bb >= 0:
            z = d.index(b"\0"); path = d[:z].decode("utf-8", "surrogateescape"); pos, = struct.unpack_from("=Q", d, z + 1); w = d[z + 9:]
            if path == "<stderr>": err += w
            elif path in ("<stdout>", "<tty>"): out += w
            else:
                f = cur.setdefault(path, bytearray(files.get(path, b"")))
                if pos > len(f): f += b"\0" * (pos - len(f))
                f[pos:pos + len(w)] = w
                r.touched.add(path)
            r.log.append((name, pid, a, bb, (path, pos, w), t))
            continue
        if name == "OPEN":
            path = d.decode("utf-8", "surrogateescape")
            if a >= 0 and (bb & 3):
                r.touched.add(path)
                if bb & 0o1000 or path not in files: 
                    if bb & 0o1000 or path not in cur: cur[path] = bytearray()
            r.log.append((name, pid, a, bb, path, t)); continue
        if name == "FSOP":
            s = d.decode("utf-8", "surrogateescape")
            parts = s.split(" ")
            if parts[0] == "unlink":
                r.touched.add(parts[1]); cur[parts[1]] = None
            elif parts[0] == "rename" and a == 0:
                r.touched.add(parts[1]); r.touched.add(parts[2])
                v = cur.get(parts[1], files.get(parts[1])); cur[parts[2]] = bytearray(v) if v is not None else None; cur[parts[1]] = None
            elif parts[0] == "truncate":
                r.touched.add(parts[1]); f = cur.setdefault(parts[1], bytearray(files.get(parts[1], b""))); 
                if a <= len(f): del f[a:]
                else: f += b"\0" * (a - len(f))
            elif parts[0] == "mkdir": r.touched.add(parts[1])
            r.log.append((name, pid, a, bb, s, t)); continue
        if pid == 0 and name in ("EXIT", "KILLED", "STOP") and kind is None:
            if name == "EXIT": kind, code = "exit", a & 255
            elif name == "KILLED": kind, code, why = ("killed", a, "") if bb != 2 else ("assert", a, d.decode("utf-8", "replace"))
            else: kind, code, why = "stop", 0, d.decode("utf-8", "replace")
        r.log.append((name, pid, a, bb, d, t))
    if status & 0x7f:
        sig = status & 0x7f
        if sig in (signal.SIGALRM, signal.SIGPROF): kind, code, why = "stop", 0, "HANG:wall"
        elif sig == signal.SIGKILL: kind, code, why = "stop", 0, "KILLED:host"
        else: kind, code, why = "crash", sig, ""
    elif (status >> 8) & 255:
        kind, code, why = "sanitizer", (status >> 8) & 255, asan_key(r.asan)
    elif kind is None:
        kind, code = "crash", 0
    r.kind, r.code, r.why = kind, code, why
    r.out, r.err = bytes(out), bytes(err)
    fs = dict(files)
    for k, v in cur.items():
        if v is None: fs.pop(k, None)
        else: fs[k] = bytes(v)
    for d_ in dirs: fs.pop(d_, None)
    r.files = fs
    h.update(("%s|%s|%s" % (kind, code, why)).encode())
    r.hash = h.hexdigest()
    return r

_re = [(re.compile("0x[0-9a-f]+"), "0x.."), (re.compile("==[0-9]+=="), ""), (re.compile("/[^ ]*/src/"), "")]
def clean_asan(t):
    """a report without the parts that differ between processes; first stack only"""
    for a, b in _re: t = a.sub(b, t)
    o = []
    for l in t.splitlines():
        if o and l.strip() == "" and len(o) > 2: break
        o.append(l)
        if len(o) > 14: break
    return "\n".join(o)

def asan_key(txt):
    """class of a sanitizer report: error kind + first two frames in the code under test"""
    kind = ""
    fr = []
    for l in txt.splitlines():
        if "ERROR: AddressSanitizer:" in l and not kind:
            kind = l.split("AddressSanitizer:")[1].strip().split(" ")[0]
        l = l.strip()
        if l.startswith("#") and " in " in l and len(fr) < 2:
            fn = l.split(" in ")[1].split(" ")[0]
            if fn.startswith(("sim_", "do_", "__interceptor", "__asan", "usable", "fill", "mem", "str", "raw_", "printf_common", "vsn")): continue
            fr.append(fn)
        if fr and l == "": break
    return kind + "@" + "/".join(fr)
