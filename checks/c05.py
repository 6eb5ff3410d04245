"""C05: ties between variables."""
from vp import op, Case
import gram as G, random
import types_ as T
RULE = ("grammars with 2-7 competing variables of 20 types (limits, regular expressions, stated preferences) and keywords at up to three levels, declared in three different orders in three "
        "handles, x words that fit several of them, under every preference mode; non-trivial = distinct (grammar, line, mode) where at least two alternatives fitted some word")
ASSUME = ["default preference of each type as listed in the tutorial and the type table", "which of tied variables counts as first is not judged, only that it is one of them and the same for every declaration order"]
N = dict(quick=9000, thorough=150000)
BATCH = 40
TECH = "reference-model monitor plus order-permutation differential over match and callback events + ASan/UBSan"
WORDS = ["42", "1", "0", "7", "-3", "true", "false", "on", "off", "10.0.0.1", "abc", "1.5", "-2.25", "::1", "fe80::1", "1.1.1.1/24", "::/0", "11:22:33:44:55:66", "eth0", "a", "aa", "x12", "http://a.b/c",
         "2020-01-02T03:04:05", "123e4567-e89b-12d3-a456-426614174000", "255", "65536", "99999999999", "zz", "ab", "set", "show", "4", "12"]
def level(rng, depth, st):
    out, keys = [], set()
    for _ in range(rng.randint(2, 7) if depth == st["at"] else rng.randint(1, 3)):
        n = G.gvar(rng, st["types"], rng.random() < .2) if rng.random() < .8 else G.N("cmd", rng.choice(["a", "aa", "abc", "set", "show", "x12", "42", "1", "on", "z"]))
        if n.key() in keys or (n.choice and any(("cmd", w) in keys for w in n.choice)): continue
        keys.add(n.key())
        for w in n.choice or []: keys.add(("cmd", w))
        if n.kind == "var" and rng.random() < st["prefp"]: n.pref = rng.choice([1, 3, 5, 8, 20, 50, 99, 100, 101, 110, rng.randint(1, 120)])
        if n.typ != "rest" and depth < st["depth"] and rng.random() < .7:
            n.ch = level(rng, depth + 1, st)
            if rng.random() < .5:      # a keyword only this variable has
                st["k"] += 1; n.ch.append(G.N("cmd", "only%d" % st["k"], term=True, cbs=[("cbk%d" % st["k"], [])]))
        n.term = not n.ch or rng.random() < .5
        if n.term: st["k"] += 1; n.cbs = [("cb%d" % st["k"], [])]
        out.append(n)
    return out
def shuffled(rng, ns):
    out = []
    for n in ns:
        m = G.N("", ""); m.__dict__.update(n.__dict__); m.ch = shuffled(rng, n.ch); out.append(m)
    rng.shuffle(out)
    return out
def gen(rng, i, tier):
    d = rng.randint(1, 3)
    st = dict(depth=d, at=rng.randint(1, d), k=0, prefp=rng.choice([0, .2, .6]), types=rng.choice([None, None, ["string"], ["int8", "int32", "uint8", "uint64", "string"], ["string", "url", "interface", "time", "uuid"], ["decimal64", "int64", "string", "bool"]]))
    g = level(rng, 1, st)
    L, specs = [], []
    for hn in range(3):
        t = G.spec(shuffled(rng, g) if hn else g, rng); specs.append(t)
        L += [op("new", hn), op("load", t, None)]
    ls = []
    for l in G.lines(rng, g, 12):
        w = l.split(" ")
        for _ in range(rng.randint(0, 2)):
            j = rng.randrange(len(w)); w[j] = rng.choice(WORDS)
        ls.append((" ".join(w), rng.choice([0, 0, 1, 2, 3])))
    for hn in range(3):
        L.append(op("use", hn))
        for l, m in ls: L += [op("opt", "preference_mode", m), op("eval", l)]
    return Case(L, g=g, ls=ls, spec=specs[0], specs=specs)
def verdict(v): return "MATCH" if v.what == "MATCH" else v.what
def check(ctx, case, ev):
    loads = [e for e in ev if e.get("op") == "load"]
    if any(e["rc"] for e in loads) or len(loads) != 3:
        ctx.fail("load", "%s\n%s" % (loads, case.specs)); return
    res, cur = [[]], []
    k = 0
    for e in ev:
        if "cb" in e: cur.append(e["cb"])
        if e.get("op") == "eval":
            got = "MATCH" if e["rc"] == 0 and e["res"] == 1 else "NOMATCH" if e["rc"] == 0 and e["res"] == 0 else "MULTIPLE" if e["rc"] == 0 and e["res"] > 1 else "ERROR"
            res[-1].append((got, cur, e["cvv"][1:] if got == "MATCH" else None, e["reason"])); cur = []
            if len(res[-1]) == len(case.ls): res.append([])
    res = res[:3]
    if len(res) != 3: ctx.fail("lines", "lines missing"); return
    for k, (line, mode) in enumerate(case.ls):
        a = res[0][k]
        for r in res[1:]:
            if r[k] != a:
                ctx.fail("order-dependent", "line %r preference mode %d\n%s\ngives %s but in another declaration order gives %s" % (line, mode, case.specs[0], a, r[k]))
        env = dict(prefmode=mode)
        try: vs = G.interp_all(case.g, line, env)
        except G.Gray as x: ctx.see("left open"); continue
        ctx.see("mode %d %s" % (mode, "tie broken" if len(vs) > 1 else vs[0].what + " " + str(vs[0].why or "")))
        if fitted(case.g, line): ctx.nontrivial(case.spec, line, mode)
        ok = False
        for v in vs:
            w = (v.what, [f for f, _ in v.node.cbs] if v.what == "MATCH" else [], [list(b) for b in v.binds] if v.what == "MATCH" else None)
            if w == a[:3]: ok = True
        if not ok:
            ctx.fail("verdict", "line %r preference mode %d\n%s\nexpected one of %s, got %s" % (line, mode, case.spec, vs, a))
        elif a[0] == "NOMATCH" and all(v.why == "ambiguous" for v in vs) and a[3] != "Ambiguous command": ctx.fail("reason", "line %r: %s" % (line, a))
        else: ctx.sample(dict(line=line, mode=mode, got=a[:3]))
def fitted(g, line):
    try:
        w = line.split(" ")[0]
        return sum(G.tmatch(n, w, line, {})[0] for n in G.alts(g, {}, [])) > 1 or len(g) > 1
    except G.Gray: return False
