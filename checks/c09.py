"""C09: set grammars."""
from vp import op, Case
import gram as G, c07
RULE = ("random grammars with sets (nested sets, members with children, terminal and non-terminal, multi-word members, variables and keywords sharing prefixes, groups, below keywords and variables) x lines using "
        "the members in random order, repeated, incomplete, abbreviated and mixed between levels, with help and TAB requests in between, each line judged on its own; "
        "non-trivial = distinct (grammar, line) whose verdict and callbacks were compared")
ASSUME = ["a word is taken by the innermost set or member it continues, else by the next enclosing set", "a used member is no longer an alternative; lines with several readings are left open; a word ambiguous in an inner set but known to an outer one is left open",
          "choice variables as set members are not generated", "help inside sets is judged for listing only legal, unused members (the tests fix that only the innermost ones are listed)"]
N = dict(quick=3000, thorough=90000)
BATCH = 40
TECH = "reference-model monitor over recorded verdicts, callbacks and listings + ASan/UBSan"
def interp(nodes, line, env, upto=False):
    """reference: -> V ; upto: state after the words of line (node, contexts) or None"""
    toks, rests = G.tokenize(line)
    if upto and toks and toks[-1] == "": toks, rests = toks[:-1], rests[:-1]
    stack, binds, n = [], [], None
    for i, (tok, rest) in enumerate(zip(toks, rests)):
        last = i == len(toks) - 1
        if n is None: ctxs = [(nodes, None, 0)]
        else:
            ctxs = []
            if n.ch: ctxs.append((n.ch, set() if n.sets else None, len(stack)))
            if n.term or not n.ch: ctxs += [(c, u, k) for k, (c, u) in reversed(list(enumerate(stack)))]
        hits = [(k, G.best([x for x in c if not (u and id(x) in u)], tok, rest, last, env)) for k, (c, u, d) in enumerate(ctxs)]
        hits = [(k, m) for k, m in hits if m]
        if not hits:
            gone = any(G.best([x for x in c if u and id(x) in u], tok, rest, last, env) for c, u, d in ctxs)
            return G.V("NOMATCH", ("used" if len(ctxs) == 1 else "used*") if gone else "unknown")
        k, m = hits[0]
        c, used, depth = ctxs[k]
        if len(m) > 1 and len(hits) > 1: raise G.Gray("inner conflict")
        if len(m) > 1: return G.V("MULTIPLE", None) if last and not upto else G.V("NOMATCH", "ambiguous")
        n, v = m[0]
        del stack[depth:]
        if used is not None:
            used = used | {id(n)}
            stack.append((c, used))
        binds.append(G.bind(n, v, tok))
        if n.kind == "var" and n.typ == "rest" and not last:
            if len(hits) > 1 or len(ctxs) > 1: raise G.Gray("rest")
            break
    if upto:
        ctxs = [(nodes, None)] if n is None else ([(n.ch, set() if n.sets else None)] if n.ch else []) + (list(reversed(stack)) if n.term or not n.ch else [])
        return n, ctxs
    return G.V("MATCH", None, n, binds) if n.term else G.V("NOMATCH", "incomplete")
def ways(nodes, line, env):
    """number of readings of the line when every set or member it may continue is tried (stops at 2)"""
    return len(readings(nodes, line, env, 2, lambda n: n.term))
def readings(nodes, line, env, limit, ok):
    toks, rests = G.tokenize(line)
    if ok is None and toks and toks[-1] == "": toks, rests = toks[:-1], rests[:-1]
    found = []
    def go(i, n, stack):
        if len(found) >= limit: return
        if i == len(toks):
            if ok is None or ok(n): found.append((n, stack))
            return
        last = i == len(toks) - 1
        if n is None: ctxs = [(nodes, None, 0)]
        else:
            ctxs = []
            if n.ch: ctxs.append((n.ch, frozenset() if n.sets else None, len(stack)))
            if n.term or not n.ch: ctxs += [(c, u, k) for k, (c, u) in reversed(list(enumerate(stack)))]
        for c, u, d in ctxs:
            m = G.best([x for x in c if not (u and id(x) in u)], toks[i], rests[i], last, env)
            for x, v in m:
                st = stack[:d] + ([(c, u | {id(x)})] if u is not None else [])
                if x.kind == "var" and x.typ == "rest": go(len(toks), x, st)
                else: go(i + 1, x, st)
    go(0, None, [])
    return found
def walk(rng, nodes):
    """a line through the grammar (mostly legal)"""
    ws = []
    def member(n, top=False):
        w = G.wordfor(rng, n)
        ws.append(w)
        if n.typ == "rest": return False
        if n.sets and n.ch:
            k = rng.randint(0 if n.term else 1, len(n.ch))
            l = rng.sample(n.ch, k)
            if rng.random() < .15 and l: l.insert(rng.randint(0, len(l)), rng.choice(n.ch))
            for x in l:
                if not member(x): return False
        elif n.ch and (not n.term or rng.random() < .6): return member(rng.choice(n.ch))
        return True
    if nodes: member(rng.choice(nodes))
    if rng.random() < .2:
        j = rng.randrange(4)
        if j == 0: ws.append(rng.choice(ws + ["a", "1"]))
        elif j == 1 and len(ws) > 1: ws.pop()
        elif j == 2 and len(ws) > 2: a = rng.randrange(len(ws) - 1); ws[a], ws[a + 1] = ws[a + 1], ws[a]
        else: ws[rng.randrange(len(ws))] = rng.choice(["a", "ab", "1", "x", "s"])
    return " ".join(ws)
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(2, 5), width=rng.choice([2, 3, 5, 7]), vars=rng.choice([.1, .3]), choice=False, rest=rng.random() < .2, help=.2, term=.5,
               words=rng.choice([G.WORDS, list("abcdefghijkl") + ["ab", "abc", "cd", "word", "words"]]))
    g = G.Gen(rng, p).grammar()
    some = 0
    for n in G.walk(g):
        if n.ch and rng.random() < .6: n.sets = True; some = 1
    if not some: return None
    pg, g = G.grouped(rng, g, .15) if rng.random() < .25 else (g, g)
    L = [op("new", 0), op("load", G.spec(pg, rng), None)]
    steps = []
    for _ in range(25):
        l = walk(rng, g)
        k = rng.randrange(10)
        if k < 7: L.append(op("eval", l)); steps.append(("eval", l))
        elif k < 9:
            q = rng.randrange(3)
            if q == 0: l += " "
            elif q == 1: l = l[:rng.randint(0, len(l))]
            elif " " in l: l = l[:l.rindex(" ") + 1]
            L.append(op("help", l)); steps.append(("help", l))
        elif all(32 <= ord(c) < 127 and c not in "?\\" for c in l): L.append(op("keys", l + "\t\n", 1)); steps.append(("keys", l))
    return Case(L, g=g, steps=steps, env=dict(caseignore=0), spec=L[1])
def check(ctx, case, ev):
    it = iter(ev)
    e = next(it); e = next(it)
    if e["op"] != "load" or e["rc"] != 0:
        ctx.fail("load", "%s\n%s" % (e, G.spec(case.g))); return
    cbs, k = [], 0
    for e in it:
        if "cb" in e: cbs.append(e)
        if e.get("op") not in ("eval", "help", "keys"): continue
        kind, line = case.steps[k]; k += 1
        got, cbs = cbs, []
        who = "%s %r with\n%s\n" % (kind, line, G.spec(case.g))
        if kind == "keys": ctx.see("TAB presses"); continue
        try:
            if kind == "eval":
                if '"' in line and G.tokenize(line)[0][-1][:1] == '"': raise G.Gray("unterminated quote")
                v = interp(case.g, line, case.env)
                n = ways(case.g, line, case.env)
                if v.what == "MATCH" and n > 1 or v.what == "NOMATCH" and n: raise G.Gray("several readings")
            else:
                part = "" if line == "" or line[-1] in " \t" else line.split(" ")[-1]
                if '"' in line or "\\" in line: raise G.Gray("quoted")
                st = interp(case.g, line[:len(line) - len(part)], case.env, True)
        except G.Gray as x: ctx.see("left open (%s)" % x); continue
        ctx.nontrivial(case.spec, kind, line)
        if kind == "eval":
            ctx.see("verdict %s%s" % (v.what, " (%s)" % v.why if v.why else ""))
            if e["res"] != dict(MATCH=1, MULTIPLE=2, NOMATCH=0)[v.what]: ctx.fail("verdict", who + "expected %s\ngot %s" % (v, e)); continue
            if v.why == "used" and e["reason"] != "Already matched": ctx.fail("reason", who + "expected an already matched member, got %s" % e)
            if v.what != "MATCH":
                if got: ctx.fail("callback-without-match", who)
                continue
            names = [c["cb"] for c in got]
            if names != [c[0] for c in v.node.cbs]: ctx.fail("callbacks", who + "expected %s got %s" % ([c[0] for c in v.node.cbs], names))
            w = [list(b) for b in v.binds]
            for c in got:
                if c["cvv"][1:] != w: ctx.fail("values", who + "expected %s\ngot %s" % (w, c["cvv"])); break
            if len(v.binds) > 3: ctx.see("lines of four words or more")
            ctx.sample(dict(line=line, values=v.binds))
        else:
            if isinstance(st, G.V): ctx.see("help after a refused line"); continue
            n, ctxs = st
            if n is not None and n.typ == "rest": continue
            legal, must, x = [], [], []
            rd = readings(case.g, line[:len(line) - len(part)], case.env, 50, None)
            ctxs = [x for n2, stack in rd for x in
                    ([(case.g, None)] if n2 is None else ([(n2.ch, None)] if n2.ch else []) + (stack if n2.term or not n2.ch else []))]
            for c, u in ctxs:
                x = [m for m in c if not (u and id(m) in u)]
                try: x = [m for m in x if part == "" or G.tmatch(m, part, part, case.env)[0]]
                except G.Gray: x = None; break
                legal += x
                if u is None and c is ctxs[0][0]: must = x
            if x is None: continue
            lg = {G.display(m) for m in legal}
            g2, cr = c07.blocks(e["out"])
            shown = {b[0].split(" ")[0] for b in g2}
            ctx.see("help inside a grammar"); ctx.see("members listed", len(shown))
            if not shown <= lg: ctx.fail("listing", who + "listed %s but only %s can follow" % (sorted(shown), sorted(lg)))
            if len(rd) > 1: ctx.see("help with several readings"); continue
            if lg and not shown: ctx.fail("listing-empty", who + "nothing listed although %s can follow" % sorted(lg))
            if part == "" and n is not None and bool(cr) != n.term: ctx.fail("cr", who + "end marker %s although terminal is %s" % (cr, n.term))
    if k != len(case.steps): ctx.fail("lines", "%d of %d steps answered" % (k, len(case.steps)))
