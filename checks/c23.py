"""C23: interpreting a line never changes how later lines are interpreted."""
from vp import op, Case
import random
import gram as G, meta as M, rich as R
RULE = ("random specifications with every construct, several trees, callbacks that fail, return values or change the arguments they are given, and sets; the same probes (lines evaluated, parsed, listed, completed) are "
        "asked of a fresh handle, and again, in another order, after a long random history (failed and ambiguous matches, help and TAB at every kind of position, control characters in the editor, other trees made active, "
        "changed alternatives, printing); answers, printed trees and the structure of the trees (order, parents, match marks) are compared; non-trivial = distinct (specification, probe) compared after a history")
ASSUME = ["expansion functions answer the same again when the probes are repeated"]
N = dict(quick=1600, thorough=40000)
BATCH = 30
TECH = "differential monitor (fresh / after a history) over recorded verdicts, callbacks, values, listings, completed lines and printed trees, structural monitor of the grammar + ASan/UBSan"
OVERLAP = [("T", "x { on { a, cb1(); } @U; }\n"), ("U", "on { b, cb2(); } z, cb3();\n")]
def noise(rng, d, n):
    """a history: script lines"""
    L = []
    prs = [(t, x) for t, pr in d["probes"] for x in pr]
    for _ in range(n):
        k = rng.random()
        t, (kind, l) = rng.choice(prs)
        if rng.random() < .2: L.append(op("active", rng.choice([t] * 3 + ["nosuch"])))
        if k < .3: M.emit(L, [(rng.choice("eeph"), l)])
        elif k < .5: M.emit(L, [(rng.choice("eph"), l + rng.choice([" ", " zz", " a", ' "', "\\", " ?", "  1", "|", " | cat", "#c"]))])
        elif k < .6: M.emit(L, [(rng.choice("eph"), "".join(rng.choice("ab <>|\"\\#@{};19.:/-é") for _ in range(rng.randint(0, 12))))])
        elif k < .7: L.append(op("opt", "tabmode", rng.choice([0, 1, 2, 4, 7])))
        elif k < .8 and d["fns"]: L.append(op("expset", rng.choice(list(d["fns"])), rng.choice([0, 0, -1]), 2, "eth0", "other"))
        elif k < .93: 
            s = "".join(c for c in l if 32 <= ord(c) < 127 and c not in "?\\~")[:60]
            L.append(op("keys", s[:rng.randint(0, len(s))] + rng.choice(["\t", "\t\t", "?", "\x01\t", "\x0b", "\x10", "\x02\x02\t", " ?", "\x12a"]) + "\n" + "~\n~\n", 2))
        elif k < .96: L.append(op("mon"))
        else: L.append(op("print", t, rng.choice([0, 1])))
    return L
def settle(rng, d):
    L = [op("opt", "tabmode", 0)]
    R.supply(L, d)
    return L
def gen(rng, i, tier):
    if i == 0:
        pr = [(t, [("e", "x on b"), ("e", "x on a"), ("h", "x on ")]) for t in "T"]
        d = dict(texts=OVERLAP, probes=pr, fns={})
    else: d = R.make(rng, 18, overlap=rng.random() < .4, cbname=rng.choice([None, ["cb", "fail", "pos", "mut"], ["mut", "cb"]]))
    if d is None: return None
    L = [op("new", 0)]
    R.load(L, d); R.supply(L, d)
    L += [op("print", t, 0) for t, _ in d["texts"]]
    R.probe(L, d)
    nz = noise(rng, d, rng.choice([10, 40, 150])) if i else []
    L += [op("activeget")] + nz + [op("activeget")] + settle(rng, d)
    pr = [(t, x, j) for j, (t, x) in enumerate((t, x) for t, p in d["probes"] for x in p)]
    rng.shuffle(pr)
    for t, x, j in pr:
        L.append(op("active", t)); M.emit(L, [x])
    L += [op("print", t, 0) for t, _ in d["texts"]] + [op("mon")]
    return Case(L, d=d, order=[j for t, x, j in pr], first=i == 0, nz=len(nz))
def check(ctx, case, ev):
    who = R.show(case.d)
    ld = [e for e in ev if e.get("op") == "load"]
    if len(ld) != len(case.d["texts"]) or any(e["rc"] != 0 for e in ld): ctx.fail("load", "%s\n%s" % (ld, who)); return
    # split at the markers
    k = [j for j, e in enumerate(ev) if e.get("op") == "activeget"]
    if len(k) != 2: ctx.fail("marks", "%d" % len(k)); return
    n = len(case.order); nt = len(case.d["texts"])
    a, b = M.answers(ev[:k[0]]), M.answers(ev[k[1] + 1:])
    if len(a) != n or len(b) != n: ctx.fail("lines", "%d %d" % (len(a), len(b))); return
    flat = R.flat(case.d)
    ctx.see("history operations", case.nz)
    for pos, j in enumerate(case.order):
        ctx.see("again: " + M.what(a[j])); ctx.nontrivial(who, flat[j], case.nz)
        if a[j] != b[pos]: ctx.fail("differs", "%s\nfresh %s\nlater %s\n%s" % (flat[j], a[j], b[pos], who))
        elif "res" in a[j][1] and a[j][1]["res"] == 1: ctx.sample(dict(line=flat[j][1], callbacks=a[j][1]["cbs"], history=case.nz))
    p = [e["text"] for e in ev if e.get("op") == "print"]
    if p[:nt] != p[-nt:]: ctx.fail("print", "%s\n---\n%s\n%s" % ("".join(p[:nt]), "".join(p[-nt:]), who))
    ctx.see("printed trees compared", nt)
    m = [e for e in ev if e.get("op") == "mon"][-1]
    ctx.see("grammar nodes inspected", m["nodes"])
    if (m["badorder"] or m["badparent"] or m["flags"]): ctx.fail("structure", "%s\n%s" % (m, who))
