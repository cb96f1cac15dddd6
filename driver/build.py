#!/usr/bin/env python3
"""Builds the simulator flavours from /repo's current working tree into /verif/build/<flavour>-<hash>/simserver."""
import hashlib, os, subprocess, sys, shutil, glob, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMQ_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
PRISTINE = os.path.join(VERIF, "sim", "yaep_src.sha256")

FLAVOURS = {
    "plain": dict(cflags=["-O1", "-fsanitize-coverage=trace-pc"], ld=[]),
    "asan": dict(cflags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fsanitize-coverage=trace-pc"], ld=["-fsanitize=address"]),
    "work": dict(cflags=["-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc"], ld=[], sim=["-DSIM_WORK"],
                 seams="strlen strnlen memcpy memmove memset strcmp strncmp memcmp strcpy strncpy stpcpy strcat strncat strchr strrchr strstr memchr"),
    "zero": dict(cflags=["-O1", "-ftrivial-auto-var-init=zero", "-fsanitize-coverage=trace-pc"], ld=[]),
    "patt": dict(cflags=["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc"], ld=[]),
}

def sha_tree(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()

def files_under(d):
    r = []
    for root, _, fs in os.walk(d):
        for f in fs: r.append(os.path.join(root, f))
    return r

def yaep_hash():
    base = os.path.join(REPO, "src/main/c/yaep")
    h = hashlib.sha256()
    fs = files_under(os.path.join(base, "src")) + [os.path.join(base, "build_single_yaep_source_file.sh")]
    for p in sorted(fs):
        h.update(os.path.relpath(p, base).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode: raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def build(flavour):
    src = os.path.join(REPO, "src/main/c")
    fl = FLAVOURS[flavour]
    inputs = [p for p in files_under(src) if p.endswith((".c", ".h", ".sh"))] + glob.glob(VERIF + "/sim/*.[ch]") + [VERIF + "/sim/seams.txt"]
    key = hashlib.sha256((sha_tree(inputs) + repr(fl) + REPO).encode()).hexdigest()[:16]
    d = os.path.join(OUT, "%s-%s" % (flavour, key))
    exe = os.path.join(d, "simserver")
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        for old in glob.glob(os.path.join(OUT, flavour + "-*")): shutil.rmtree(old, ignore_errors=True)
        t = d + ".tmp"
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        s = os.path.join(t, "src")
        shutil.copytree(src, s, ignore=shutil.ignore_patterns("*.o"))
        # parts/yaep.{c,h} are generated from yaep/src: regenerate only if yaep/src itself was changed
        if os.path.exists(PRISTINE) and open(PRISTINE).read().strip() != yaep_hash():
            run(["sh", "./build_single_yaep_source_file.sh"], cwd=os.path.join(s, "yaep"))
        inc = ["-I" + s, "-I/usr/include/libxml2", "-I/usr/include/libxslt"]
        base = ["gcc", "-g", "-w", "-fpic", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-DPLATFORM_POSIX", "-DLINUX64", '-DVERSION="sim"', "-fno-stack-protector"]
        run(base + fl["cflags"] + inc + ["-c", os.path.join(s, "xmq.c"), "-o", t + "/xmq.o"])
        run(base + fl["cflags"] + ["-Dmain=xmq_cli_main"] + inc + ["-c", os.path.join(s, "xmq-cli.c"), "-o", t + "/cli.o"])
        names = open(VERIF + "/sim/seams.txt").read().split() + fl.get("seams", "").split()
        for o in ("xmq.o", "cli.o"):
            und = set(subprocess.run(["nm", "-u", t + "/" + o], stdout=subprocess.PIPE).stdout.decode().split())
            with open(t + "/redef", "w") as f:
                for n in names:
                    if n in und: f.write("%s sim_%s\n" % (n, n))
                    elif n + "64" in und: f.write("%s64 sim_%s\n" % (n, n))
            run(["objcopy", "--redefine-syms=" + t + "/redef", t + "/" + o])
        objs = []
        for c in ("core", "main", "api"):
            run(["gcc", "-g", "-O1", "-w", "-D_GNU_SOURCE"] + inc + ["-I" + VERIF + "/sim", "-c", VERIF + "/sim/%s.c" % c, "-o", t + "/%s.o" % c] + ([] if not fl["ld"] else ["-fsanitize=address"]) + fl.get("sim", []))
            objs.append(t + "/%s.o" % c)
        # api.c calls the library's allocator companions by their public names; only its own malloc is the host's
        run(["gcc", "-g", "-rdynamic"] + fl["ld"] + ["-o", t + "/simserver", t + "/cli.o", t + "/xmq.o"] + objs + ["-lxml2", "-lxslt", "-lz", "-lm", "-lpthread", "-ldl"])
        # record symbols that reach outside the seam
        u = subprocess.run("nm -u %s/xmq.o %s/cli.o | awk '{print $2}' | sort -u" % (t, t), shell=True, stdout=subprocess.PIPE).stdout.decode().split()
        open(t + "/undefined", "w").write("\n".join(u))
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(s)
        os.rename(t, d)
    return exe

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    fls = sys.argv[1:] or list(FLAVOURS)
    with ThreadPoolExecutor() as ex:
        for f, e in zip(fls, ex.map(build, fls)): print(f, e)
