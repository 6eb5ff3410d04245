#!/usr/bin/env python3
"""stabletest.py DIR: runs the stable tests on a scratch copy of a clone of /repo bound over /repo in a private mount namespace."""
import sys, os, subprocess, json, shutil, tempfile
def sh(cmd): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
if sys.argv[1] == "--inner":
    w = sys.argv[2]
    sh("mount --bind %s/repo /repo" % w); os.chdir("/repo")
    sh("flock /tmp/stabletest.lock bash /opt/vp/test.sh %s/out.json" % w)
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open(w + "/out.json"))
    bad = sorted(b - set(o["passed"]))
    print("%d of %d stable pass %s" % (len(b) - len(bad), len(b), bad[:20]))
    sys.exit(1 if bad else 0)
w = tempfile.mkdtemp(prefix="stable-", dir="/tmp")
try:
    sh("cp -a /repo %s/repo" % w)
    d = os.path.abspath(sys.argv[1])
    for f in sh("cd %s && git ls-files" % d).stdout.split("\n"):
        if f and not f.startswith("test/"): shutil.copyfile(d + "/" + f, w + "/repo/" + f)
    sys.exit(subprocess.run(["unshare", "-Urm", "python3", os.path.abspath(__file__), "--inner", w]).returncode)
finally: shutil.rmtree(w, ignore_errors=True)
