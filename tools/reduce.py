#!/usr/bin/env python3
"""reduce.py REPLAY.json PATTERN: drops script lines while the replay output still matches PATTERN."""
import sys, os, json, subprocess, re
f, pat = sys.argv[1:3]
d = json.load(open(f)); lines = d["script"] if isinstance(d["script"], list) else d["script"].split("\n")
here = os.path.dirname(os.path.abspath(__file__)); tmp = "/tmp/reduce.json"
def bad(ls):
    e = dict(d); e["script"] = ls if isinstance(d["script"], list) else "\n".join(ls); json.dump(e, open(tmp, "w"))
    e["description"] = ""; e["key"] = ""; json.dump(e, open(tmp, "w"))
    p = subprocess.run([sys.executable, here + "/replay.py", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return re.search(pat, p.stdout) is not None
n = 2
assert bad(lines)
while len(lines) > 1:
    k = max(1, len(lines) // n); hit = False
    for i in range(0, len(lines), k):
        t = lines[:i] + lines[i + k:]
        if bad(t): lines = t; hit = True; break
    if hit: n = max(2, n - 1)
    elif k == 1: break
    else: n = min(len(lines), n * 2)
for l in lines:
    p = l.split()
    print(p[0], *["#" + x[1:] if x[0] == "#" else repr(bytes.fromhex(x[1:]).decode("latin1")) for x in p[1:]])
