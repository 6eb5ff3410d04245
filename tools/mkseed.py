#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a description
SPEC defines: ID PROP NEEDS BREAKS EDITS=[(file, old, new)] and DEMO_C (C text) or DEMO_SH."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: broken. Works in a scratch directory of its own.
D=$(mktemp -d) || exit 2
trap 'find "$D" -delete' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
ln -s /repo "$D/cligen"
'''
CDEMO = HEAD + '''gcc -g -w -DHAVE_CONFIG_H -D_GNU_SOURCE -I"$D" -I/repo -o "$D/demo" "$HERE/demo.c" /repo/libcligen.so.* -Wl,-rpath,/repo || exit 2
for l in /repo/libcligen.so.*; do ln -sf "$l" "$D/$(basename "$l")"; done
cd "$D" && LD_LIBRARY_PATH="$D:/repo" timeout 120 ./demo
'''
def main(path):
    g = {}; exec(open(path).read(), g)
    for sp in g.get("SEEDS") or [g]:
        d = V + "/seeded/" + sp["ID"]
        w = tempfile.mkdtemp(dir="/tmp")
        try:
            subprocess.run("git clone -q /repo %s/r" % w, shell=True, check=True)
            for f, old, new in sp["EDITS"]:
                p = w + "/r/" + f; t = open(p).read()
                if t.count(old) != 1: print(sp["ID"], "edit matches", t.count(old), "times in", f, repr(old[:60])); return 1
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run("git -C %s/r diff" % w, shell=True, stdout=subprocess.PIPE, text=True).stdout
            for l in diff.split("\n"):      # a planted bug has to change lines of the original repository
                if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                    o = subprocess.run("git -C /repo show $(git -C /repo rev-list --max-parents=0 HEAD):" + f, shell=True, stdout=subprocess.PIPE, text=True).stdout
                    if l[1:] not in o.split("\n"): print(sp["ID"], "NOT AN ORIGINAL LINE:", l[1:])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            if "DEMO_C" in sp:
                if "pre.h" in sp["DEMO_C"]: shutil.copy(V + "/tools/pre.h", d + "/pre.h")
                open(d + "/demo.c", "w").write(sp["DEMO_C"]); open(d + "/demo.sh", "w").write(CDEMO)
            else: open(d + "/demo.sh", "w").write(HEAD + sp["DEMO_SH"])
            json.dump(dict(property=sp["PROP"], needs=sp["NEEDS"], what_it_breaks=sp["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
            print("wrote", d)
        finally: shutil.rmtree(w, ignore_errors=True)
sys.exit(main(sys.argv[1]))
