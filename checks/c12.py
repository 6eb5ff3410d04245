"""C12: a printed grammar loads back as the same grammar."""
from vp import op, Case
import meta as M, rich as R
RULE = ("random grammars with every construct of the specification language (groups, optional parts, blocks, sets, choices, expansion and translation functions with arguments, limits of every kind, regular expressions, "
        "preferences, show names, hide, labels, several callbacks, tree references with labels and callbacks, help of several lines, keywords and names with special characters); every tree is printed, one by one or all together, the text is loaded "
        "in a second handle and printed again; both handles are probed with the same lines; non-trivial = distinct (specification, line) compared")
ASSUME = ["callback arguments and help contain no character the specification language cannot express (help: backslash, \") ; arguments: trailing backslash)", "a tree that is empty is not printed back",
          "the long form of printing (brief=0) is the one that loads back"]
N = dict(quick=2500, thorough=80000)
BATCH = 40
TECH = "round-trip and differential monitor (loaded / printed and reloaded) over recorded texts, verdicts, callbacks, listings and completed lines + ASan/UBSan"
def gen(rng, i, tier):
    d = R.make(rng)
    if d is None: return None
    L = [op("new", 0)]
    R.load(L, d); R.supply(L, d); R.probe(L, d)
    L += [op("new", 1), op("use", 0), op("printtrees", 0), op("reprint", 1, rng.randrange(2)), op("use", 1)]
    R.probe(L, d)
    return Case(L, texts=d["texts"], probes=R.flat(d))
def check(ctx, case, ev):
    who = "\n".join("-- %s:\n%s" % x for x in case.texts)
    ld = [e for e in ev if e.get("op") == "load"]
    if len(ld) != len(case.texts) or any(e["rc"] != 0 for e in ld): ctx.fail("load", "%s\n%s" % (ld, who)); return
    rp = [e for e in ev if e.get("op") == "reprint"]
    if len(rp) != len(case.texts): ctx.fail("trees", "%s" % rp); return
    for e in rp:
        ctx.see("trees printed and reloaded")
        if e["rc"] != 0: ctx.fail("reload", "%s\nprinted:\n%s\nfrom %s" % (e["err"], e["text"], who)); return
        if e["again"] != e["text"]: ctx.fail("second-print", "printed\n%s\nagain\n%s\nfrom %s" % (e["text"], e["again"], who)); return
        if not e["same"]: ctx.fail("pt_print", "the printing functions differ: %s" % e["text"])
    tt = [e for e in ev if e.get("op") == "printtrees"][0]
    if tt["rc"] != 0 or tt["text"] != "".join(e["text"] or "" for e in rp): ctx.fail("all-trees", "all trees printed: %r\neach printed: %r" % (tt, [e["text"] for e in rp]))
    ans = M.answers(ev); n = len(case.probes)
    if len(ans) != 2 * n: ctx.fail("lines", "%d answers for %d" % (len(ans), n)); return
    for (kind, l), a, b in zip(case.probes, ans[:n], ans[n:]):
        ctx.see(M.what(b)); ctx.nontrivial(who, kind, l)
        if a != b: ctx.fail("differs", "%s %r\nloaded %s\nprinted and reloaded %s\n%s\nprinted:\n%s" % (kind, l, a, b, who, "".join(e["text"] for e in rp)))
        elif "res" in a[1] and a[1]["res"] == 1: ctx.sample(dict(line=l, callbacks=a[1]["cbs"]))
