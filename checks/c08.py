"""C08: what TAB does to the line."""
from vp import op, Case
import gram as G
RULE = ("random grammars (keywords sharing prefixes, hidden commands, variables, choices) x TAB pressed with the cursor at the end or inside a line, after words of every kind, in all tab modes, "
        "with and without case-insensitive keywords, on lines up to several hundred characters; non-trivial = distinct (grammar, modes, line, cursor) whose resulting line was compared")
ASSUME = ["the candidates are those for the text left of the cursor, resolved as in C03", "positions decided by hidden alternatives are not judged here",
          "a line whose abbreviated word already denotes a variable is not required to keep its meaning",
          "when candidates differ only in the case of letters (case-insensitive mode) any of the spellings may be used"]
N = dict(quick=3000, thorough=90000)
BATCH = 40
TECH = "reference-model monitor over recorded editor lines and verdicts + ASan/UBSan"
STEPS, VARS, COLS = 4, 2, 1
MARK = "~"
def lcp(ws, ci):
    p = ws[0]
    for w in ws[1:]:
        k = 0
        while k < min(len(p), len(w)) and (p[k] == w[k] or ci and p[k].lower() == w[k].lower()): k += 1
        p = p[:k]
    return p
def step(g, vis, s, o, env=None):
    """one completion step -> the text appended to s, or raises Gray"""
    env = env or dict(caseignore=o["caseignore"])
    cands, tok, _ = G.visible(vis, s, env)
    full, _, _ = G.visible(g, s, env)
    key = lambda n: (n.key(), n.word)
    if sorted(str(key(n)) for n in cands) != sorted(str(key(n)) for n in full if not n.hide): raise G.Gray("hidden alternatives decide the path")
    if o["tabmode"] & VARS and any(n.kind == "var" for n in cands): return ""
    ws = sorted({n.word for n in cands if n.kind == "cmd"})
    if not ws: return ""
    if s.endswith('"') and tok and not s.endswith(tok): return ""        # a quoted word cannot be extended
    if not tok and s and s[-1] not in " \t": raise G.Gray("empty word")
    p = lcp(ws, o["caseignore"])
    if len({w.lower() if o["caseignore"] else w for w in ws}) == 1: return p[len(tok):] + o["delim"]
    return p[len(tok):]
def expect(case, left):
    s, n = left, 0
    while True:
        a = step(case.g, case.vis, s, case.o)
        s += a; n += 1
        if not a or not case.o["tabmode"] & STEPS or case.o["delim"] != " ": break
    return s
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(1, 4), width=rng.choice([1, 2, 4, 6, 9]), vars=rng.choice([0, .1, .3]), hide=rng.choice([0, 0, 0, .15]), cbs=rng.random() < .5, help=.3)
    if rng.random() < .3:
        st = rng.choice(["inter", "a", "configuration-of-the-", "x_"])
        p.words = [st + w for w in ["", "face", "faces", "Face", "val", "vals", "b", "B", "bc", "long-suffix-" * 3, "long-suffix-" * 6, "1", "12"]] + ["other", "zz"]
    elif rng.random() < .3:
        p.words = G.WORDS + [w.swapcase() for w in G.WORDS[:12]] + [w.capitalize() for w in G.WORDS[:12]]
    g = G.Gen(rng, p).grammar()
    o = dict(caseignore=int(rng.random() < .25), tabmode=rng.choice([0, 0, 1, 4, 4, 5, 2, 3, 6, 7]), delim=" " if rng.random() < .9 else rng.choice("=:/"))
    L = [op("new", 0), op("load", G.spec(g, rng), None), op("opt", "caseignore", o["caseignore"]), op("opt", "tabmode", o["tabmode"]), op("opt", "delimiter", ord(o["delim"]))]
    if rng.random() < .3: L.append(op("opt", "helplines", 1))
    case = Case(L, g=g, vis=G.shown(g), o=o, steps=[], spec=L[1])
    for l in G.lines(rng, g, 16, junk=rng.random() < .3):
        k = rng.randrange(6)
        if k <= 1: l = l[:rng.randint(0, len(l))]
        elif k == 2: l += " "
        elif k == 3: # abbreviate every word
            l = " ".join(w[:rng.randint(1, len(w))] if w and rng.random() < .6 else w for w in l.split(" "))
        elif k == 4 and " " in l: l = l[:l.rindex(" ") + 1] + l[l.rindex(" ") + 1:][:rng.randint(0, 3)]
        elif k == 5 and rng.random() < .3:
            ws = l.split(" "); j = rng.randrange(len(ws)); ws[j] = '"%s"' % ws[j][:rng.randint(1, 9)]
            l = " ".join(ws if rng.random() < .5 else ws[:j + 1])
        if o["caseignore"] and rng.random() < .5: l = l.swapcase()
        if rng.random() < .1: l = " " * rng.randint(1, 70) + l
        if any(not 32 <= ord(c) < 127 or c in "?\\~" for c in l): continue
        r = "" if rng.random() < .6 else rng.choice(["x", " tail", "def ghi", " ", "a b c " * 12, "y" * 60, "y" * 120])
        case.steps.append((l, r))
        L.append(op("keys", l + r + "\x02" * len(r) + "\t" + MARK + "\n", 1))
        try: w = expect(case, l)
        except G.Gray: w = None
        L.append(op("parse", l)); L.append(op("parse", l if w is None else w))
    return case
def val(e): return (e["res"], e.get("co"), [x[0] for x in e.get("cvv", [])[1:]], [x[3] for x in e.get("cvv", [])[1:]])
def same(a, b):
    """same command and values; keywords may be spelled differently only by abbreviation (the value is the keyword of the grammar)"""
    return val(a) == val(b)
def check(ctx, case, ev):
    it = iter(ev)
    e = next(it); e = next(it)
    if e["op"] != "load" or e["rc"] != 0:
        ctx.fail("load", "%s\n%s" % (e, G.spec(case.g))); return
    evs = [e for e in it if e.get("op") in ("keys", "parse")]
    if len(evs) != 3 * len(case.steps): ctx.fail("lines", "%d of %d requests answered" % (len(evs), len(case.steps))); return
    for (l, r), e, p1, p2 in zip(case.steps, evs[::3], evs[1::3], evs[2::3]):
        who = "TAB in %r | %r (%s) with\n%s\ngot %r" % (l, r, case.o, G.spec(case.g), e["lines"])
        got = e["lines"][0] if len(e["lines"]) == 1 else ""
        if not (got.startswith(l) and got.endswith(MARK + r + "\n")): ctx.fail("altered", who); continue
        add = got[len(l):len(got) - len(r) - 2]
        ctx.see("TAB presses"); ctx.see("appending" if add else "appending nothing"); ctx.see("inside a line" if r else "at the end")
        try: w = expect(case, l)
        except G.Gray as x: ctx.see("left open (%s)" % x); continue
        ctx.nontrivial(case.spec, tuple(case.o.values()), l, r)
        if l + add != w and not (case.o["caseignore"] and (l + add).lower() == w.lower()):
            ctx.fail("completion", who + "\nappended %r, expected %r" % (add, w[len(l):])); continue
        if add.endswith(case.o["delim"]): ctx.see("word completed")
        elif add: ctx.see("common part appended")
        if add.count(" ") > 1: ctx.see("several steps at once")
        if case.o["delim"] == " " and p1["rc"] == 0 and p1["res"] == 1 and add:
            try: vv = G.interp(case.vis, l, dict(caseignore=case.o["caseignore"]))
            except G.Gray: continue
            if p1.get("coty") == "var": ctx.see("variable abbreviation skipped")
            elif vv.what != "MATCH" or vv.node.word != p1["co"]: ctx.see("left open (the line denotes a hidden command)")
            elif l[-1:] in " \t" or case.o["tabmode"] & STEPS: ctx.see("went on to the next word")
            else:
                ctx.see("verdicts compared")
                if not same(p1, p2): ctx.fail("meaning", who + "\n%s\n%s" % (p1, p2))
        if add: ctx.sample(dict(left=l, right=r, appended=add, modes=case.o))
