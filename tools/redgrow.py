#!/usr/bin/env python3
"""redgrow.py REPLAY.json: reduces a C02 history (first run of the three) while the heap still grows when it is repeated"""
import sys, json, os
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)) + "/../lib"]
import vp, build
b = build.build("asan")
L = json.load(open(sys.argv[1]))["script"]
L = L if isinstance(L, list) else L.split("\n")
h = L[1:L.index("resetall")]
def bad(h):
    r = vp.run_cases(b, [vp.Case((h + [vp.op("resetall"), vp.op("stats")]) * 4)])[0]
    s = [e["heap"] for e in r[0] or [] if e.get("op") == "stats"]
    return len(s) >= 4 and s[-1] > s[-1 - len(s) // 4] > s[-1 - 2 * len(s) // 4] and not r[1]
assert bad(h)
n = 2
while len(h) > 1:
    k = max(1, len(h) // n); hit = False
    for i in range(0, len(h), k):
        if bad(h[:i] + h[i + k:]): h = h[:i] + h[i + k:]; hit = True; break
    if hit: n = max(2, n - 1)
    elif k == 1: break
    else: n = min(len(h), n * 2)
for l in h:
    p = l.split(); print(p[0], *["#" + x[1:] if x[0] == "#" else repr(bytes.fromhex(x[1:]).decode("latin1")) for x in p[1:]])
