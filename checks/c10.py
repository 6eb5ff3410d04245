"""C10: optional parts, alternatives, groups and blocks."""
from vp import op, Case
import gram as G, meta as M, expr as X
RULE = ("random specifications built from sequences, nested ( | ) groups, nested [ ] optional parts, choice variables and { } blocks x lines evaluated, listed and completed on the specification and on a second handle "
        "holding every variant written out as a separate command; the two printed grammars are compared as well; non-trivial = distinct (specification, line) compared")
ASSUME = ["no two variants of a specification are the same command", "at least one word of a statement is not optional"]
N = dict(quick=2500, thorough=80000)
BATCH = 40
TECH = "differential monitor (compact / written-out specification) over recorded verdicts, callbacks, values, listings, completed lines and printed grammars + ASan/UBSan"
def gen(rng, i, tier):
    p = G.Prof(cbs=True, help=.4, multi=.2)
    gg = G.Gen(rng, p)
    pool = G.WORDS + ["w%d" % k for k in range(40)] + ["aa", "aab", "inn", "interf", "sho", "q-ueue"]
    rng.shuffle(pool)
    allv = rng.random()
    pfs = rng.random() < .4      # competing variables with stated preferences
    cnt = [0]
    def leaf():
        cnt[0] += 1
        if rng.random() < (.45 if pfs else .22):
            n = G.gvar(rng, None if rng.random() < .7 else ["string", "int32", "uint8"], rng.random() < .1, True, True)
            n.word = "v%d" % cnt[0]
            if pfs and rng.random() < .6: n.pref = rng.choice([1, 5, 9, 10, 40, 101, 120])
            if n.choice and rng.random() < .7: n.choice = rng.sample(["red", "green", "grey", "r", "blue", "bl-ue", "on", "up"], rng.randint(2, 4))
        else: n = G.N("cmd", pool.pop() if len(pool) > 5 and allv < .9 else "k%d" % cnt[0])
        if rng.random() < .4: n.help = rng.choice(["help %s" % n.word, "h"])
        return n
    try:
        sts = [X.gen(rng, leaf, gg.cbs) for _ in range(rng.randint(1, 4))]
        vs = X.variants(sts)
    except X.Big: return None
    # a choice variable written out: one variable per alternative
    wr = rng.random() < .5
    vs2 = vs
    if wr:
        vs2 = []
        for pth, st in vs:
            outs = [[]]
            for n in pth:
                if n.choice and len(n.choice) > 1:
                    al = []
                    for c in n.choice:
                        m = G.copy_node(n); m.choice = [c]; al.append(m)
                    outs = [o + [m] for o in outs for m in al]
                else: outs = [o + [n] for o in outs]
                if len(outs) > 100: return None
            vs2 += [(o, st) for o in outs]
        if len(vs2) > 800: return None
    keys = [tuple(n.key() for n in pth) for pth, st in vs2]
    if len(set(keys)) < len(keys): return None
    try: g = X.tree(vs2)
    except X.Big: return None
    def bad(nodes):
        w = [c for n in nodes for c in (n.choice or ([n.word] if n.kind == "cmd" else []))]
        return len(set(w)) < len(w) or any(bad(n.ch) for n in nodes)
    if bad(g): return None
    pr = M.probes(rng, g, 25, kinds="eeeeeehht")
    L = []
    order = list(vs2)
    if rng.random() < .5: rng.shuffle(order)
    a, b = X.text(sts), X.written(order)
    tm = rng.choice([0, 0, 4, 1])
    for h, t in ((0, a), (1, b)):
        L += [op("new", h), op("load", t, None), op("opt", "tabmode", tm), op("print", None, 0)]
        M.emit(L, pr)
    return Case(L, a=a, b=b, pr=pr, same=not (wr and any(len(n.choice or []) > 1 for p_, _ in vs for n in p_)), nv=len(vs2))
def check(ctx, case, ev):
    who = "\nspecification:\n%s\nwritten out:\n%s" % (case.a, case.b)
    ld = [e for e in ev if e.get("op") == "load"]
    if len(ld) != 2 or any(e["rc"] != 0 for e in ld): ctx.fail("load", "%s%s" % (ld, who)); return
    ans = M.answers(ev); n = len(case.pr)
    if len(ans) != 2 * n: ctx.fail("lines", "%d answers" % len(ans)); return
    ctx.see("variants written out", case.nv)
    p = [e["text"] for e in ev if e.get("op") == "print"]
    if case.same:
        ctx.see("printed grammars compared")
        if p[0] != p[1]: ctx.fail("print", "%s\n---\n%s%s" % (p[0], p[1], who))
    for (kind, l), a, b in zip(case.pr, ans[:n], ans[n:]):
        ctx.see(M.what(b)); ctx.nontrivial(case.a, kind, l)
        if a != b: ctx.fail("differs", "%s %r\nspecification %s\nwritten out %s%s" % (kind, l, a, b, who))
        elif "res" in a[1] and a[1]["res"] == 1: ctx.sample(dict(line=l, callbacks=a[1]["cbs"]))
