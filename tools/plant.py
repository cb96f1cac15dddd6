#!/usr/bin/env python3
"""plant.py ID PROP [--no-check] [--checks P,Q]: tries the planted bug seeded/ID: applies its patch to /repo, builds, runs the
stable tests and demo.sh, runs the quick checks, and undoes it. Development tool; no check uses it."""
import json, os, subprocess, sys, tempfile, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def demo(d):
    t = tempfile.mkdtemp(prefix="demo.")
    shutil.copytree(d, t + "/d", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("bash %s/d/demo.sh" % t, cwd="/repo", timeout=300)
    shutil.rmtree(t)
    return r
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    nocheck = "--no-check" in sys.argv; notest = "--no-test" in sys.argv
    assert sh("git -C /repo status --porcelain -uno").stdout == b"", "repo dirty"
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        sh("bash /opt/vp/build.sh")
        r0 = demo(d)
        line = "%s [%s] clean-demo=%d" % (i, meta["property"], r0.returncode)
        if r0.returncode: line += " OUT:" + r0.stdout.decode(errors="replace")[-300:]
        try:
            a = sh("git -C /repo apply %s/patch.diff" % d)
            if a.returncode: print(i, "DOES NOT APPLY", a.stdout.decode()); continue
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: print(i, "BUILD FAILS", b.stdout.decode()[-600:]); continue
            if not notest:
                t = sh("bash /tmp/rt.sh").stdout.decode()
                line += " tests: " + t.strip()
            r1 = demo(d)
            line += " bug-demo=%d" % r1.returncode
            if not nocheck:
                for p in meta.get("checks", [meta["property"]]):
                    c = sh("timeout 900 python3 driver/check.py %s --tier quick" % p, cwd=V)
                    o = c.stdout.decode(errors="replace")
                    m = re.search(r"case (\d+)", o)
                    line += "  %s: rc=%d %s" % (p, c.returncode, ("CAUGHT case %s" % (m.group(1) if m else "?")) if c.returncode == 1 and "VIOLATION property=" + p in o else "MISSED " + o[-300:])
                    if "-v" in sys.argv: print(o)
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        print(line); sys.stdout.flush()
main()
