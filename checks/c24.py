"""C24: alternatives supplied at run time."""
from vp import op, Case
import copy
import gram as G
import words as W
import c07, c08
RULE = ("random grammars with expansion variables below keywords and variables, alone, several at one level and beside keywords, choices and free variables; the alternatives (translated or not, plain words sharing "
        "prefixes, numbers, words with blanks, question marks and backslashes escaped by the library) change between lines; lines are evaluated, listed with help and completed with TAB; "
        "non-trivial = distinct (grammar, alternatives, line) on which the verdict, values, calls of the expansion function, listing or completion were compared")
ASSUME = ["a variable that is the very first word of a tree is not expanded (documented in the code), so expansion variables stand below a first word",
          "an escaped alternative is listed and completed when its text is typed with the opening quote", "the number of calls of an expansion function per line is open, their arguments are not",
          "alternatives at one level are distinct"]
N = dict(quick=2500, thorough=70000)
BATCH = 40
TECH = "reference-model monitor over recorded callbacks, expansion calls, listings and completed lines + ASan/UBSan"
POOL = ["eth0", "eth1", "eth10", "eth0.100", "lo", "long-alternative-name-of-an-interface", "a", "ab", "abc", "A", "Eth0", "10", "100", "2", "x_y", "f.o", "[z]", "$v", "1.1.1.1", "é"]
ESC = ["a b", "a b c", "eth0 x", "what?", "ab?c d", "back\\slash", "c:\\dir one", " lead", "trail ", "two  blanks", "?", "\\", "eth 1", "q q"]
def esc(w):
    if not any(c in "?\\ \t" for c in w): return w
    return '"' + w.replace("\\", "\\\\").replace("?", "\\?") + '"'
def xid(n):
    """what supplies the alternatives of a variable: its function, or the function and its first argument"""
    return n.expand[0] if n.expand[0] != "exs" else "exs|" + n.expand[1][0]
def xev(x): return x["exp"] if x["exp"] != "exs" else "exs|" + (x["argv"][0][3] if x["argv"] else "")
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(2, 4), width=rng.choice([2, 3, 5]), vars=rng.choice([.3, .5]), cbs=True, help=.5, rest=rng.random() < .3, prefp=0, hide=rng.choice([0, 0, .2]))
    g = G.Gen(rng, p).grammar()
    fns = {}
    def rec(nodes, depth):
        for n in nodes:
            if depth and n.kind == "var" and not n.choice and n.typ in ("string", "int32", "uint8") and not n.pref and rng.random() < .6 or depth and n.kind == "cmd" and rng.random() < .1:
                if n.kind == "cmd": n.kind, n.word, n.typ = "var", rng.choice(G.VN), "string"
                f = "ex%d" % len(fns)
                n.rng, n.regex, n.show = [], [], None
                n.expand = (f, [("", "unquoted")] if rng.random() < .1 else [a for a in (rng.choice(["x", "y z", "arg,3", "/path/%s/list", ("int32", "-7"), ("string", "t y")]) for _ in range(rng.choice([0, 1, 1, 2])))])
                fns[f] = n
            rec(n.ch, depth + 1)
    rec(g, 0)
    if not fns: return None
    if rng.random() < .3:     # two variables of the same function with different arguments side by side
        def pair(nodes, depth):
            for n in list(nodes):
                if n.expand and depth and not any(m.expand and m.expand[0] == "exs" for m in nodes) and rng.random() < .7:
                    del fns[n.expand[0]]
                    k = len([f for f in fns if f.startswith("exs|")])
                    more = [rng.choice(["x", ("int32", "-7")])] if rng.random() < .3 else []
                    n.expand = ("exs", ["t%d" % k] + more)
                    m = G.N("var", rng.choice(G.VN), n.typ, expand=("exs", ["t%d" % (k + 1)] + (more if rng.random() < .7 else [])), term=True, cbs=[("cbz", [])], help=n.help and "other help")
                    nodes.append(m)
                    fns[xid(n)], fns[xid(m)] = n, m
                pair(n.ch, depth + 1)
        pair(g, 0)
    if rng.random() < .25: G.translate(rng, g, .5)
    env = dict(caseignore=int(rng.random() < .15))
    L = [op("new", 0), op("load", G.spec(g, rng), None), op("opt", "caseignore", env["caseignore"])]
    tab = dict(caseignore=env["caseignore"], tabmode=rng.choice([0, 0, 4, 2]), delim=" ")
    L.append(op("opt", "tabmode", tab["tabmode"]))
    siblings = {}
    def sib(nodes):
        for n in nodes:
            for m in nodes: siblings.setdefault(id(n), []).append(m)
            sib(n.ch)
    sib(g)
    steps, cur = [], {}
    def supply(f):
        n = fns[f]
        taken = {w.lower() for m in siblings[id(n)] if m is not n for w in ([m.word] if m.kind == "cmd" else m.choice or ([a for a, _ in cur.get(xid(m), [])] if m.expand else []))}
        pool = ["10", "100", "2", "20", "7"] if n.typ != "string" else POOL + ESC if rng.random() < .6 else POOL
        k = rng.choice([0, 1, 1, 2, 3, 5, 8])
        al = []
        for w in rng.sample(pool, len(pool)):
            if len(al) == k: break
            if esc(w).lower() in taken: continue
            taken.add(esc(w).lower()); al.append(w)
        helps = ["help on %s %d" % (f, j) for j in range(len(al))] if rng.random() < .6 else []
        if helps and rng.random() < .3: del helps[rng.randrange(len(helps)):]     # fewer than alternatives
        L.append(op("expsetesc", f, 0, len(al), *(al + helps)))
        cur[f] = [(esc(w), helps[j] if j < len(helps) else n.help) for j, w in enumerate(al)]
    for f in fns: supply(f)
    for _ in range(rng.randint(1, 3)):
        for f in fns:
            if rng.random() < .5: supply(f)
        now = {f: list(v) for f, v in cur.items()}
        def shadow(nodes):
            out = []
            for n in nodes:
                m = copy.copy(n); m.ch = shadow(n.ch)
                if m.expand: m.expand = None; m.choice = [w for w, _ in now[xid(n)]] or ["none"]
                out.append(m)
            return out
        for l in G.lines(rng, shadow(g), 12, junk=rng.random() < .3):
            k = rng.randrange(4)
            if any(not 32 <= ord(c) < 127 for c in l): k = 0
            if k == 0 or k == 1: L.append(op("eval", l)); steps.append(("eval", l, now))
            else:
                q = rng.randrange(4)
                if q == 0: l = l[:rng.randint(0, len(l))]
                elif q == 1: l += " "
                elif " " in l: l = l[:l.rindex(" ") + 1] + l[l.rindex(" ") + 1:][:rng.randint(0, 3)]
                if k == 2: L.append(op("help", l)); steps.append(("help", l, now))
                elif "?" not in l and "\\" not in l: L.append(op("keys", l + "\t" + c08.MARK + "\n", 1)); steps.append(("keys", l, now))
    return Case(L, g=g, fns=fns, steps=steps, env=env, tab=tab, spec=L[1])
def check(ctx, case, ev):
    it = iter(ev)
    e = next(it); e = next(it)
    if e["op"] != "load" or e["rc"] != 0:
        ctx.fail("load", "%s\n%s" % (e, G.spec(case.g))); return
    k, cbs, exps = 0, [], []
    for e in it:
        if "cb" in e: cbs.append(e)
        if "exp" in e: exps.append(e)
        if e.get("op") not in ("eval", "help", "keys"): continue
        kind, line, now = case.steps[k]; k += 1
        calls, got_cbs, got_exps = [], cbs, exps
        cbs, exps = [], []
        def expand(n, binds):
            calls.append((xid(n), tuple(tuple(b[:3]) + (b[3],) for b in binds if not b[2])))
            return now[xid(n)]
        env = dict(case.env, expand=expand)
        who = "%s %r with\n%s\nalternatives %s" % (kind, line, G.spec(case.g), now)
        sline = line
        # arguments of the expansion functions
        def seen(x): return (xev(x), tuple(tuple(c) for c in x["cvv"][1:]))
        try:
            if kind == "eval":
                if '"' in line and G.tokenize(line)[0][-1][:1] == '"': raise G.Gray("unterminated quote")
                v = G.interp(case.g, line, env)
            elif kind == "help": cands, cr = c07.expect(Case([], g=case.g, vis=G.shown(case.g), env=env), line)
            else:
                s, n = line, 0
                while True:
                    a = c08.step(case.g, G.shown(case.g), s, case.tab, env)
                    s += a
                    if not a or not case.tab["tabmode"] & c08.STEPS: break
                if a: c08.step(case.g, G.shown(case.g), s, case.tab, env)   # the listing after completion
        except G.Gray as x: ctx.see("left open (%s)" % x); continue
        for x in got_exps:
            if xev(x) not in case.fns: ctx.fail("fnargs", who + "\nno such declaration: %s" % x); continue
            n = case.fns[xev(x)]
            ctx.see("expansion calls")
            if [tuple(a[1:4:2]) for a in x["argv"] or []] != [("string", a) if isinstance(a, str) else (a[0] or "string", a[1]) for a in n.expand[1]]: ctx.fail("fnargs", who + "\n%s: declared %s" % (x, n.expand[1]))
            if kind != "keys" and x["cvv"][0][3] not in (line, W.trim(line, "#")): ctx.fail("fnline", who + "\n%s" % x)
        want, got = set(calls), {seen(x) for x in got_exps}
        if kind == "eval" and (not got >= want if '""' in line else got != want) or kind != "eval" and not all(x in want or any(y[1][:-1] == x[1] for y in want if y[0] == x[0]) for x in got if x[0] in {y[0] for y in want}): ctx.fail("fnvalues", who + "\nexpected calls %s\ngot %s" % (sorted(want), sorted(got)))
        if any(c[1] for c in got): ctx.see("expansion calls with earlier values")
        ctx.nontrivial(case.spec, str(now), kind, line)
        ctx.see(kind)
        if kind == "eval":
            res = dict(MATCH=1, MULTIPLE=2, NOMATCH=0)[v.what]
            if e["res"] != res: ctx.fail("verdict", who + "\nexpected %s\ngot %s" % (v, e)); continue
            ctx.see("verdict %s" % v.what)
            if v.what != "MATCH":
                if got_cbs: ctx.fail("callback-without-match", who)
                continue
            w = [["cmd", "rest", 0, W.trim(line, "#")]] + [list(b) for b in v.binds]
            for c in got_cbs:
                if c["cvv"] != w: ctx.fail("values", who + "\nexpected %s\ngot %s" % (w, c["cvv"])); break
            if [c["cb"] for c in got_cbs] != [c[0] for c in v.node.cbs]: ctx.fail("callbacks", who + "\ngot %s" % got_cbs)
            al = {x for f in now.values() for x, _ in f}
            for b in v.binds:
                if esc(b[3] or "") in al: ctx.see("alternatives bound")
                if esc(b[3] or "") in al and b[3] != esc(b[3]): ctx.see("escaped alternatives bound")
            ctx.sample(dict(line=line, values=v.binds, alternatives=now))
        elif kind == "help":
            g2, gcr = c07.blocks(e["out"])
            o = dict(helplines=0)
            w = {c07.want_block(n, o) for n in cands}
            ctx.see("alternatives listed", len(g2))
            if set(g2) != w and {x[0] for x in g2} != {x[0] for x in w}: ctx.fail("listing", who + "\nexpected %s\ngot %s" % (sorted(w), sorted(g2)))
        else:
            w = s + c08.MARK + "\n"
            if len(e["lines"]) != 1 or e["lines"][0] != w and not (case.env["caseignore"] and e["lines"][0].lower() == w.lower()): ctx.fail("completion", who + "\nexpected %r\ngot %s" % (w, e["lines"]))
            if s != line: ctx.see("completions")
            if s.endswith('" ') : ctx.see("escaped alternatives completed")
    if k != len(case.steps): ctx.fail("lines", "%d of %d steps answered" % (k, len(case.steps)))
