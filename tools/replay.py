#!/usr/bin/env python3
"""replay.py <file written by a check>: run the recorded script again and print the event log"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, vp
r = json.load(open(sys.argv[1]))
print(r["property"], r["key"]); print(r["description"])
def dec(t):
    return t if not t.startswith("=") else repr(bytes.fromhex(t[1:]).decode("latin-1"))
for l in r["script"]:
    print("  >", " ".join(dec(t) for t in l.split(" ")))
evs, done, crash, other = vp.exec_script(build.build(sys.argv[2] if len(sys.argv) > 2 else r.get("san", "asan")), r["script"], 300)
for e in evs:
    for d in e:
        print(d)
for t in ([crash.text] if crash else []) + other:
    print(t)
