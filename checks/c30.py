"""C30: hidden commands."""
from vp import op, Case
import copy
import gram as G, meta as M, c07, c08
RULE = ("random grammars, with and without tree references and groups, in which keywords, variables and containers are marked hidden; a second handle loads the same grammar without the marks; lines, abbreviations and damaged "
        "lines are evaluated on both and everything compared; help and TAB are requested at every kind of position and nothing hidden may be seen, everything else must; "
        "non-trivial = distinct (grammar, line) compared or inspected, in grammars that contain hidden commands")
ASSUME = ["where a hidden alternative decides how an earlier word is read, only that nothing hidden is shown is judged"]
N = dict(quick=2500, thorough=70000)
BATCH = 40
TECH = "differential monitor (marks on / marks off) over recorded verdicts and callbacks, and reference-model monitor over listings and completed lines + ASan/UBSan"
def names(g, env=None):
    """give every keyword and variable its own name, sharing prefixes"""
    k = 0
    for n in G.walk(g):
        k += 1
        n.word = {0: "item", 1: "it", 2: "node-", 3: "x", 4: "no"}[k % 5] + str(k) + ("z" * (k % 3))
        if n.choice: n.choice = ["%sc%d" % (w, k) for w in n.choice]
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(1, 4), width=rng.choice([2, 4, 6, 9]), vars=rng.choice([.1, .35]), hide=rng.choice([.15, .3, .5]), cbs=True, help=.5, samename=False, multi=.2)
    g = G.Gen(rng, p).grammar()
    if not any(n.hide for n in G.walk(g)): rng.choice(list(G.walk(g))).hide = True
    if rng.random() < .7: names(g)
    sub, at = None, None
    if rng.random() < .35:
        # move the children of one node to a tree of their own
        c = [n for n in G.walk(g) if n.ch]
        if c: at = rng.choice(c); sub = at.ch
    def text(nodes, strip):
        h = copy.deepcopy((nodes, at, sub)) if at is not None and any(n is at for n in G.walk(nodes)) else (copy.deepcopy(nodes), None, None)
        nodes, a, s = h
        if a is not None:
            r = G.N("ref", "S"); r.ref = "S"
            a.ch = [r]
        if strip:
            for n in G.walk(nodes): n.hide = False
        return G.spec(nodes)
    if rng.random() < .3:
        for n in G.walk(g):
            if rng.random() < .3: n.labels = rng.sample(["la", "=lb", "=m"], rng.randint(1, 2))
    pg = g
    if sub is None and rng.random() < .3: pg, g = G.grouped(rng, g, .2)
    pr = M.probes(rng, g, 25, kinds="eeeeehhhttt")
    env = dict(caseignore=int(rng.random() < .15))
    o = dict(caseignore=env["caseignore"], tabmode=rng.choice([0, 0, 4, 1, 2]), delim=" ")
    L, loads = [], 0
    for h in (0, 1):
        L.append(op("new", h))
        if sub is not None:
            L.append(op("load", text(sub, h), "S")); loads += 1
        L.append(op("load", text(pg, h), "T")); loads += 1
        L += [op("active", "T"), op("opt", "caseignore", o["caseignore"]), op("opt", "tabmode", o["tabmode"])]
        M.emit(L, [x for x in pr if x[0] in "ep" or h == 0])
    return Case(L, g=g, vis=G.shown(g), env=env, o=o, pr=pr, loads=loads, spec=G.spec(g))
def check(ctx, case, ev):
    ld = [e for e in ev if e.get("op") == "load"]
    if len(ld) != case.loads or any(e["rc"] != 0 for e in ld): ctx.fail("load", "%s\n%s" % (ld, case.spec)); return
    ans = M.answers(ev)
    n0 = len(case.pr); pe = [k for k, (c, _) in enumerate(case.pr) if c in "ep"]
    if len(ans) != n0 + len(pe): ctx.fail("lines", "%d answers" % len(ans)); return
    A, B = ans[:n0], ans[n0:]
    hid = [n for n in G.walk(case.g) if n.hide]
    shown = {G.display(n) for n in G.walk(case.vis)} | {w for n in G.walk(case.vis) for w in n.choice or []}
    secret = set()
    for n in G.walk(hid):
        secret |= {"<%s>" % (n.show or n.word)} if n.kind == "var" and not n.choice else {n.word} if n.kind == "cmd" else set(n.choice)
    secret -= shown
    ctx.see("hidden commands in grammars", len(hid)); ctx.see("names that must never be shown", len(secret))
    for k, b in zip(pe, B):
        a, l = A[k], case.pr[k][1]
        ctx.see(M.what(a)); ctx.nontrivial(case.spec, l)
        if a != b: ctx.fail("changed", "%r with hidden marks %s\nwithout %s\n%s" % (l, a, b, case.spec))
        elif a[1]["res"] == 1 and a[1].get("co") in {n.word for n in hid}: ctx.see("accepted line ends on a hidden command")
    for (kind, l), a in zip(case.pr, A):
        if kind == "h":
            bl, cr = c07.blocks(a[1]["out"])
            got = {b[0].split(" ")[0] for b in bl} | {b[0] for b in bl if b[0].startswith("<")}
            ctx.see("listings inspected"); ctx.nontrivial(case.spec, "h", l)
            bad = {s for s in secret if s in got or any(x.startswith(s + " ") for x in got if s[0] == "<")}
            if bad: ctx.fail("shown", "help on %r shows %s\n%s\n%s" % (l, bad, a[1]["out"], case.spec))
            try: cands, _ = c07.expect(case, l)
            except G.Gray: continue
            miss = {G.display(n).split(" ")[0] for n in cands} - {x.split(" ")[0] for x in got}
            if miss: ctx.fail("lost", "help on %r lacks %s\n%s\n%s" % (l, miss, a[1]["out"], case.spec))
        elif kind == "t":
            got = a[1]["lines"][0] if len(a[1]["lines"]) == 1 else ""
            who = "TAB on %r (%s): %r\n%s\n%s" % (l, case.o, got, a[1]["out"], case.spec)
            if not (got.startswith(l) and got.endswith("~\n")): ctx.fail("altered", who); continue
            add = got[len(l):-2]
            ctx.see("TAB presses inspected"); ctx.nontrivial(case.spec, "t", l)
            for ln in a[1]["out"].split("\n")[1:]:
                if "cli> " in ln: continue
                if set(ln.split()[:1] if case.o["tabmode"] & 1 else ln.split()) & secret: ctx.fail("tab-shown", who)
            if not case.o["caseignore"]:
                try: w = c08.expect(case, l)
                except G.Gray:
                    toks = (l + add).split(" ")
                    if add and add.strip() and toks[-1 if toks[-1] else -2] in secret and l.split(" ")[-1] not in secret: ctx.fail("tab-completed", who)
                    continue
                if l + add != w: ctx.fail("tab", who + "\nexpected %r" % w)
