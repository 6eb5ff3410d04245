"""C25: selecting trees; edit levels."""
from vp import op, Case
import copy
import gram as G, meta as M, expr as X
import c11
RULE = ("grammars whose commands refer to one or two edit trees (below words, beside other commands, at the top, with and without callbacks), edit trees with groups, choices, variables and shared prefixes; histories of moving the edit point down by random lines "
        "(one or several words, refused ones, leaves), up, to the top, selecting trees by known and unknown names and adding commands to the edit tree; after every step lines, help and completion are compared with a grammar in which the present level is written out; non-trivial = distinct (edit tree, level, line) compared")
ASSUME = ["edit trees do not themselves refer to trees, and alternatives at one level differ", "commands of an edit tree have no callback arguments of their own (the edit callback takes its tree name from its first argument)",
          "a tree that is selected directly (not referred to) is compared when its edit point is at the top"]
N = dict(quick=2000, thorough=60000)
BATCH = 20
TECH = "differential monitor (references following the edit point / present level written out) after every step of a history, the level being tracked by an independent grammar interpreter; printed levels and edit trees + ASan/UBSan"
ENV = dict(trees={}, expand=lambda n, b: [])
def edittree(rng, words, types, fam):
    cbn = rng.choice([[], ["lcb"]])
    def fin(n):
        n.cbs = [("%s%d" % (rng.choice(cbn), rng.randint(0, 9)), [])] if cbn and rng.random() < .4 else []
        n.hide = False; n.labels = []; n.sets = False
    if rng.random() < .4:
        cnt = [0]
        def leaf():
            cnt[0] += 1
            if rng.random() < .25: n = G.gvar(rng, types, False); n.word = "%s%d" % (fam, cnt[0])
            else: n = G.N("cmd", rng.choice(words))
            return n
        sts = [X.gen(rng, leaf, lambda: []) for _ in range(rng.randint(1, 3))]
        def st(s):
            s.hide, s.labels = False, []
            s.cbs = []
            for b in s.block: st(b)
        for s in sts: st(s)
        try: g = X.tree(X.variants(sts))
        except X.Big: return None, None
        return g, X.text(sts)
    p = G.Prof(depth=rng.randint(1, 4), width=rng.choice([2, 3, 5]), vars=rng.choice([.1, .3]), cbs=False, help=.4, multi=0, rest=rng.random() < .2, samename=False, words=words, types=types, term=.8)
    g = G.Gen(rng, p).grammar()
    for n in G.walk(g): fin(n)
    return g, G.spec(g, rng if rng.random() < .4 else None)
def clash(nodes):
    ks = set()
    for n in nodes:
        for q in [n.key()] + ([("cmd", w) for w in n.choice] if n.choice else []):
            if q in ks: return True
            ks.add(q)
        if clash(n.ch): return True
    return False
def cmd(w, *ch, **k):
    n = G.N("cmd", w, **k); n.ch = list(ch); return n
def ref(t, cbs=None):
    r = G.N("ref", t); r.ref = t; r.term = True; r.cbs = cbs or []; return r
def gen(rng, i, tier):
    voc = [w for w in G.WORDS if w[0] not in "d"]; rng.shuffle(voc)
    ets = ["t", "u"][:rng.choice([1, 1, 2])]
    model, texts = {}, {}
    for k, t in enumerate(ets):
        model[t], texts[t] = edittree(rng, voc[k * 14:k * 14 + 14], [["string", "int32", "bool"], ["uint8", "ipv4addr", "macaddr"]][k], "vw"[k])
        if not model[t] or clash(model[t]): return None
    grouped = {t: "[" in texts[t] or "|" in texts[t] or "(" in texts[t] for t in ets}
    nodes, parent = {}, {}
    for t in ets:
        for n in G.walk(model[t]):
            n.uid = len(nodes); nodes[n.uid] = n
    def par(ns, p):
        for n in ns: parent[n.uid] = p; par(n.ch, n)
    for t in ets: par(model[t], None)
    mains = {}
    own = [w for w in voc[28:36]]
    for m in ["M1", "M2"][:rng.choice([1, 2, 2])]:
        ns = []
        for k, t in enumerate(ets):
            s = "" if k == 0 else "2"
            ns += [cmd("edit" + s, ref(t, [("wpset", [t])])), cmd("up" + s, term=True, cbs=[("wpup", [t])]), cmd("top" + s, term=True, cbs=[("wptop", [t])]), cmd("wshow" + s, term=True, cbs=[("wpshow", [t])])]
            if rng.random() < .8: ns.append(cmd("do" + s, ref(t, [("docb", rng.choice([[], ["x"]]))])))
            if rng.random() < .5: ns.append(cmd("view" + s, ref(t)))
            if rng.random() < .5: ns.append(cmd("mix" + s, ref(t, [("mcb", [])]), cmd("zown1", term=True, cbs=[("own", [])]), cmd("zown2", cmd("zz", term=True, cbs=[("own", ["z"])]), term=rng.random() < .5)))
            if rng.random() < .3: ns.append(cmd("deep" + s, cmd("dd", cmd("ddd", ref(t, [("ddcb", ["d"])]), term=True, cbs=[("dx", [])]))))
        if rng.random() < .3: ns.append(ref(ets[0], [("topcb", [])]))
        if m == "M2": ns.append(cmd("only2", term=True, cbs=[("o2", [])]))
        mains[m] = ns
    level = {t: None for t in ets}                # uid of the level's node
    adds = {t: [] for t in ets}
    act = "M1"
    L = [op("new", 0)]
    if rng.random() < .3:
        for t in ets: L.append(op("load", texts[t], t))
        for m in mains: L.append(op("load", G.spec(mains[m]), m))
        L.append(op("active", "M1"))
    else:
        for m in mains: L.append(op("load", G.spec(mains[m]), m))
        for t in ets: L.append(op("load", texts[t], t))
    others = rng.choice([[], ["operational", "oper"], ["oper", "operational", "Operational"], ["running-config", "running"]])
    for k, x in enumerate(others): L.append(op("load", "only-in-%d {inner;}\n" % k, x))
    for t in ets: L.append(op("print", t, 1))
    plan = []
    def mk(*w): L.append(op("mark", str(len(plan)))); plan.append(w)
    def lv(t): return model[t] if level[t] is None else nodes[level[t]].ch
    def written():
        return c11.inline(mains[act], {t: lv(t) for t in ets}, None, set(), 12, [0]) if act in mains else copy.deepcopy(model[act])
    moving = ("edit", "up", "top", "wshow")
    def compare():
        try: g = written()
        except c11.Big: return False
        pr = M.probes(rng, g, 8, kinds="eeeeehht")
        if act in mains: pr += M.probes(rng, [n for n in g if n.word[:4] in ("do", "do2", "edit", "mix", "mix2", "view")] or g, 4, kinds="eeht")
        pr = [(k if k != "e" or not any(m.startswith(l.split(" ")[0].strip('"')) or l.startswith(m) for m in moving) else "p", l) for k, l in pr if l.strip() and " _" not in l]
        pr += [("h", ""), ("h", "edit "), ("t", "do ")] if act in mains else [("h", "")]
        mk("cmp", pr, act, dict(level))
        M.emit(L, pr)
        L.extend([op("new", 1), op("load", G.spec(g), "T"), op("active", "T")]); M.emit(L, pr)
        for t in ets:
            w = "wshow" + ("" if t == "t" else "2")
            if act in mains and not grouped[t] and lv(t):
                L.extend([op("use", 0), op("eval", w), op("use", 1), op("load", G.spec(lv(t)), "lv" + t), op("print", "lv" + t, 1)])
        L.extend([op("exit", 1), op("use", 0)])
        return True
    def move(line):
        """the interpreter says where an edit line leads"""
        try: v = G.interp(written(), line, ENV)
        except G.Gray: return None
        if v.what != "MATCH": return (v.what, None)
        n = v.node; n = n.orig or n
        return ("MATCH", getattr(n, "uid", None))
    if not compare(): return None
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if act not in mains: k = .9
        t = rng.choice(ets); s = "" if t == "t" else "2"
        if k < .45:
            if not lv(t): continue
            l = "edit%s %s" % (s, rng.choice(G.lines(rng, lv(t), 6)))
            r = move(l)
            if r is None: continue
            mk("move", l, r[0]); L.append(op("eval", l))
            if r[0] == "MATCH":
                if r[1] is None or t == "u" and not l.startswith("edit2") : return None
                level[t] = r[1]
        elif k < .68:
            mk("up", "up" + s); L.append(op("eval", "up" + s))
            if level[t] is not None:
                p = parent[level[t]]; level[t] = None if p is None else p.uid
        elif k < .73:
            mk("up", "top" + s); L.append(op("eval", "top" + s)); level[t] = None
        elif k < .76 and all(x.word != "zadd%d" % len(adds[t]) for x in model[t]):
            w = "zadd%d" % len(adds[t])
            n = cmd(w, term=True); n.cbs = []; n.uid = len(nodes); nodes[n.uid] = n; parent[n.uid] = None
            mk("add",); L.append(op("loadinto", w + ";\n", t)); adds[t].append(w); model[t].append(n)
        elif k < .82:
            bad = rng.choice(["nosuch", "", "m1", "M1 ", "T", "M"])
            if others and rng.random() < .6:
                x = rng.choice(others)
                bad = rng.choice([x[:-1], x[:5], x + "s", x.upper(), x[1:], x[:-1] + "x"])
                if bad in others: bad = x + "-"
            mk("none", bad); L.append(op("active", bad)); L.append(op("activeget"))
            L.append(op("help", "")); L.append(op("loop", "up\n")); L.append(op("help", "ed")); L.append(op("keys", "ed\t~\n", 1))
            act = rng.choice(sorted(mains)); L.append(op("active", act))
        elif k < .88 and others:
            x = rng.randrange(len(others))
            mk("oth", others[x], "only-in-%d" % x); L += [op("active", others[x]), op("activeget"), op("help", ""), op("eval", "only inner")]
            act = rng.choice(sorted(mains)); L.append(op("active", act))
        else:
            act = rng.choice(sorted(mains) + [t for t in ets if level[t] is None])
            mk("sel", act); L.append(op("active", act)); L.append(op("activeget"))
        if not compare(): return None
    for t in ets: L.append(op("print", t, 1))
    L.append(op("exit", 0))
    return Case(L, plan=plan, texts=texts, mains={m: G.spec(x) for m, x in mains.items()}, ets=ets, added=any(adds.values()))
def check(ctx, case, ev):
    what = "\n".join("-- %s:\n%s" % x for x in list(case.mains.items()) + list(case.texts.items()))
    segs = {}; cur = "-"
    for e in ev:
        if e.get("op") == "mark": cur = e["t"]; segs[cur] = []
        else: segs.setdefault(cur, []).append(e)
    def hist(k): return " ; ".join("%s %r" % (w[0], w[1]) for w in case.plan[:k + 1] if w[0] != "cmp" and len(w) > 1)
    for e in ev:
        if e.get("op") == "load" and e["rc"] != 0: return ctx.fail("load", "%s\n%s" % (e, what))
    for k, w in enumerate(case.plan):
        s = segs[str(k)]
        if w[0] == "move":
            e = [e for e in s if e.get("op") == "eval"][0]
            if (e["res"] == 1) != (w[2] == "MATCH"): return ctx.fail("edit line", "%r after %s: %s, expected %s\n%s" % (w[1], hist(k), e, w[2], what))
            ctx.see("edit lines " + ("accepted" if e["res"] == 1 else "refused"))
        elif w[0] == "up":
            e = [e for e in s if e.get("op") == "eval"][0]
            if e["res"] != 1 or e["er"] < 0: return ctx.fail("up", "%s: %s\n%s" % (hist(k), e, what))
            ctx.see("moves " + w[1].rstrip("2"))
        elif w[0] == "sel":
            e = [e for e in s if e.get("op") == "activeget"][0]
            if e["name"] != w[1]: return ctx.fail("select", "selected %r, active is %r" % (w[1], e["name"]))
            ctx.see("selections")
        elif w[0] == "oth":
            ix = [e for e in s if e.get("op") in ("activeget", "help", "eval")]
            if ix[0]["name"] != w[1]: return ctx.fail("select", "selected %r, active is %r" % (w[1], ix[0]["name"]))
            if [r.split() for r in re_words(ix[1]["out"])] != [[w[2]]]: return ctx.fail("selected tree", "%r (which has %s) shows %r" % (w[1], w[2], ix[1]["out"]))
            if ix[2]["res"] != 1 or ix[2].get("co") != "inner": return ctx.fail("selected line", "%r: %s" % (w[1], ix[2]))
            ctx.see("selections among similar names")
        elif w[0] == "none":
            ix = [e for e in s if e.get("op") in ("activeget", "help", "loop", "keys")]
            if ix[0]["name"] is not None: return ctx.fail("select unknown", "selected unknown %r, active is %r" % (w[1], ix[0]["name"]))
            if any(re_words(e.get("out", "")) for e in ix if e["op"] == "help"): return ctx.fail("unknown help", "no tree selected, help shows %s" % [e.get("out") for e in ix])
            if ix[2]["rc"] >= 0 and "rror" not in ix[2]["err"] + ix[2]["out"]: return ctx.fail("unknown line", "no tree selected, a line gives %s" % ix[2])
            if any("cb" in e for e in s): return ctx.fail("unknown callback", "no tree selected, a callback ran")
            if ix[4]["lines"] and ix[4]["lines"][0].rstrip("\n") != "ed~": return ctx.fail("unknown TAB", "no tree selected, TAB gives %r" % ix[4]["lines"])
            ctx.see("unknown selections")
        elif w[0] == "cmp":
            n = len(w[1])
            cut = [j for j, e in enumerate(s) if e.get("op") == "load"][0]
            shows = [(j, e) for j, e in enumerate(s) if e.get("op") == "eval" and j > cut and (e.get("co") or "").startswith("wshow")]
            prints = [e["text"] for e in s if e.get("op") == "print"]
            end = shows[0][0] if shows else len(s)
            a, b = M.answers(s[:cut]), M.answers(s[cut:end])[:n]
            if len(a) != n or len(b) != n: return ctx.fail("answers", "%d %d %d" % (n, len(a), len(b)))
            for p, x, y in zip(w[1], a, b):
                if x != y: return ctx.fail("differs", "after %s, tree %s: %s\nwith references %s\nwritten out %s\n%s" % (hist(k), w[2], p, x, y, what))
                ctx.see(M.what(y)); ctx.nontrivial(what, str(sorted(w[3].items())), p)
            for (j, e), p in zip(shows, prints):
                got = e["err"] if len(e["err"]) < 500 else None
                if got is not None and norm(got) != norm(p): return ctx.fail("level shown", "after %s: wpshow prints %r, the level is %r\n%s" % (hist(k), e["err"], p, what))
                ctx.see("levels printed")
    pt = [e["text"] for e in segs.get("-", []) if e.get("op") == "print"]
    last = [e["text"] for e in ev if e.get("op") == "print"][-len(case.ets):]
    if not case.added and pt[:len(case.ets)] != last: return ctx.fail("tree changed", "%s\n%s\n%s" % (pt[:len(case.ets)], last, what))
    ctx.sample(dict(spec=what, history=hist(len(case.plan))))
def re_words(o): return [r for r in o.split("\n") if r.strip() and r.strip() != "<cr>"]
def norm(t): return [l for l in (t or "").split("\n") if l.strip() and l.strip() != ";"]
