#!/usr/bin/env python3
"""seedtest.py ID [--notest] [CHECK...|all]: confirm a planted bug in a scratch copy that is
bound over /repo in a private mount namespace (build, stable tests, demonstration with and
without the patch), then run the given checks against it. /repo itself is not touched."""
import sys, os, subprocess, json, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def inner(w, sid, notest, checks):
    s = V + "/seeded/" + sid
    sh("mount --bind %s/repo /repo" % w)
    os.chdir("/repo")
    shutil.copytree(s, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    sh("bash /opt/vp/build.sh")
    def demo(tag):
        r = sh("timeout 300 bash %s/demo/demo.sh" % w, cwd="/repo")
        print("%s demo %s: %d  %s" % (sid, tag, r.returncode, r.stdout.strip()[-200:].replace("\n", " | ")), flush=True)
    demo("clean")
    r = sh("git apply %s/patch.diff" % s)
    if r.returncode: print("NO APPLY", r.stdout); return
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print("NO BUILD", r.stdout[-800:]); return
    demo("patched")
    if not notest:
        sh("flock /tmp/stabletest.lock bash /opt/vp/test.sh %s/out.json" % w)
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open(w + "/out.json"))
        bad = sorted(b - set(o["passed"]))
        print("%s tests: %d of %d stable pass %s" % (sid, len(b) - len(bad), len(b), bad[:6]), flush=True)
    for c in checks:
        r = sh("python3 checks/run.py %s quick" % c, cwd=V)
        keys = [l.strip() for l in r.stdout.split("\n") if l.startswith("  key=")]
        print("%s %s exit %d %s" % (sid, c, r.returncode, " ".join(keys)[:200]), flush=True)
def main():
    a = sys.argv[1:]
    if a[0] == "--inner": return inner(a[1], a[2], a[3] == "1", a[4:])
    notest = "--notest" in a
    a = [x for x in a if x != "--notest"]
    sid, checks = a[0], a[1:]
    if checks == ["all"]: checks = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(V + "/checks/c[0-9]*.py"))]
    w = tempfile.mkdtemp(prefix="seed-%s-" % sid, dir="/tmp")
    try:
        sh("cp -a /repo %s/repo" % w)
        subprocess.run(["unshare", "-Urm", "python3", os.path.abspath(__file__), "--inner", w, sid, "1" if notest else "0"] + checks)
    finally:
        shutil.rmtree(w, ignore_errors=True)
main()
