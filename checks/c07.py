"""C07: what help lists."""
from vp import op, Case
import gram as G
RULE = ("random grammars (keywords sharing prefixes, variables with show texts, choices, hidden commands, absent, empty, multi-line and long help texts) x help requested at "
        "every kind of position (empty line, after a blank, inside a word, after wrong words), with line, width and truncation settings, alternately through the help hook and through the "
        "? key, and for the tree as a whole; non-trivial = distinct (grammar, settings, line) whose listing was compared")
ASSUME = ["layout (columns, padding, order) is not part of the property: texts are compared with blanks collapsed", "the listing level is found as C03 resolves words",
          "positions reached only because a hidden alternative is ignored or taken are not judged here"]
N = dict(quick=3000, thorough=90000)
BATCH = 40
TECH = "reference-model monitor over captured help output + ASan/UBSan"
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(1, 4), width=rng.choice([2, 4, 6, 9]), vars=rng.choice([.2, .5]), hide=rng.choice([0, 0, 0, .15]), cbs=rng.random() < .5, help=rng.choice([.4, .9]))
    g = G.Gen(rng, p).grammar()
    for k, n in enumerate(G.walk(g)):
        if n.help == "" and rng.random() < .7: n.help = None
        if n.help is not None and rng.random() < .2: n.help = rng.choice(["first line %d\nsecond line" % k, "a\nb\nc %d\nd" % k, "one %d\n\ttwo\n  three" % k, " \tone %d\n \t two\n" % k, "%d " % k + "long text " * rng.choice([3, 7, 8, 9, 20])]).rstrip()
        if n.kind == "var" and not n.choice and rng.random() < .25: n.show = rng.choice(["shown text", "X", "addr/len", "a-rather-long-description-of-it"])
    env = dict(caseignore=rng.random() < .15)
    L = [op("new", 0), op("load", G.spec(g, rng), None)]
    o = dict(caseignore=int(env["caseignore"]), helptrunc=rng.choice([0, 0, 1]), helplines=rng.choice([0, 0, 1, 2, 3]), width=rng.choice([80, 80, 40, 132, 25]))
    if o["helptrunc"]: o["width"] = rng.choice([70, 80, 100])
    for k, v in o.items(): L.append(op("opt", k, v))
    steps = []
    for l in G.lines(rng, g, 20, junk=rng.random() < .5):
        k = rng.randrange(5)
        if k == 0: l = l[:rng.randint(0, len(l))]
        elif k <= 2: l += " "
        elif k == 3 and " " in l: l = l[:l.rindex(" ") + 1]
        if env["caseignore"] and rng.random() < .5: l = l.swapcase()
        if rng.random() < .15: l = " " * rng.randint(1, 3) + l
        key = rng.random() < .2 and "?" not in l and "\\" not in l and "\t" not in l and all(32 <= ord(c) < 127 for c in l) and len(l) < 200
        L.append(op("keys", l + "?" + "\n", 1) if key else op("help", l))
        steps.append((l, key))
    tops = [n.word.lower() for n in g if n.kind == "cmd"]
    # the help of the whole tree is that of an empty line (which of two commands differing only in case is listed is left open)
    if not any(n.hide or n.choice for n in g) and not (env["caseignore"] and len(set(tops)) < len(tops)):
        L += [op("help", ""), op("treehelp")]; steps.append(("", False))
    return Case(L, g=g, vis=G.shown(g), env=env, steps=steps, o=o, spec=L[1])
def norm(s): return " ".join(s.split())
def blocks(out):
    """-> (list of blocks (tuple of normalised lines), cr marker seen)"""
    b, cr = [], 0
    for ln in out.split("\n"):
        if not ln.strip(): continue
        if ln.rstrip() == "  <cr>": cr += 1; continue
        if ln.startswith("  ") and ln[2:3] not in ("", " "): b.append([norm(ln)])
        elif b and ln.startswith("   "): b[-1].append(norm(ln))
        else: b.append(["?? " + ln])
    return [tuple(x) for x in b], cr
def want_block(n, o):
    h = [norm(x) for x in (n.help or "").split("\n")]
    h = [x for x in h if x]
    if o["helplines"]: h = h[:o["helplines"]]
    d = norm(G.display(n))
    return (norm(d + " " + (h[0] if h else "")),) + tuple(h[1:])
def same(got, want, trunc):
    if got == want: return True
    if not trunc: return False
    # truncated help: each line is a prefix and nothing but the end is missing
    return len(got) <= len(want) and all(w.startswith(g) for g, w in zip(got, want)) and len(want) - len(got) <= 0
def expect(case, line):
    """-> (blocks wanted, cr wanted or None) ; raises Gray"""
    cands, tok, _ = G.visible(case.vis, line, case.env)
    full, _, _ = G.visible(case.g, line, case.env)
    fullvis = {id(n.orig or n) for n in full}
    key = lambda n: (n.key(), n.word)
    if case.env["caseignore"] and len({x.word.lower() for x in cands if x.kind == "cmd"}) < len([x for x in cands if x.kind == "cmd"]): raise G.Gray("keywords differing only in case")
    if sorted(map(str, map(key, cands))) != sorted(str(key(n)) for n in full if not n.hide): raise G.Gray("hidden alternatives decide the path")
    cr = 0
    if G.tokenize(line)[0][-1] == "" and line.strip(" \t"):
        try:
            v1 = G.interp(case.g, line.rstrip(" \t"), case.env)
            v2 = G.interp(case.vis, line.rstrip(" \t"), case.env)
            v3 = G.interp([n for n in case.g if not n.hide], line.rstrip(" \t"), case.env)
            cr = None if not v1.what == v2.what == v3.what else int(v1.what == "MATCH")
        except G.Gray: cr = None
    return [n for n in cands], cr
def check(ctx, case, ev):
    it = iter(ev)
    e = next(it); e = next(it)
    if e["op"] != "load" or e["rc"] != 0:
        ctx.fail("load", "%s\n%s" % (e, G.spec(case.g))); return
    k = 0; last = None
    for e in it:
        if e.get("op") == "treehelp":
            ctx.see("help of a whole tree")
            if last is None or e["rc"] != 0 or e["out"].split() != last.split(): ctx.fail("treehelp", "%r\non an empty line %r\n%s" % (e, last, case.spec))
        if e.get("op") not in ("help", "keys"): continue
        line, key = case.steps[k]; k += 1
        out = last = e["out"]
        if key:
            # text between the end of the typed line and the redrawn prompt
            i = out.find("\n"); j = out.rfind("\n\r")
            j = out.rfind("\r" + "cli> ")
            if i < 0 or j < i: ctx.fail("key-output", "%r: %r" % (line, out)); continue
            out = out[i:j]
            if e["lines"] != [line + "\n"]: ctx.fail("key-line", "help changed the line %r to %r" % (line, e["lines"]))
        elif e["rc"] < 0: ctx.fail("help-error", "%r: %s" % (line, e))
        try: cands, cr = expect(case, line)
        except G.Gray as x: ctx.see("left open (%s)" % x); continue
        got, gcr = blocks(out)
        want = {}
        for n in cands: want.setdefault(want_block(n, case.o), 0); want[want_block(n, case.o)] += 1
        # equal command and first help line: shown once or as often as declared
        ctx.see("help requests"); ctx.see("alternatives expected", len(want)); ctx.see("listings %s" % ("empty" if not want else "single" if len(want) == 1 else "several"))
        ctx.see("end-of-command marker %s" % cr); ctx.see("via ? key" if key else "via hook")
        ctx.nontrivial(case.spec, tuple(case.o.values()), line)
        who = "help on %r (%s) with\n%s\nexpected %s cr=%s\ngot %s cr=%s" % (line, case.o, G.spec(case.g), sorted(want), cr, sorted(got), gcr)
        trunc = case.o["helptrunc"]
        # the help texts stand below each other
        cols = set()
        fit = case.o["width"] > max([16] + [len(G.display(n)) for n in cands]) + 10   # (narrower: the texts do not fit beside)
        for ln in out.split("\n") if fit else []:
            if ln.startswith("   "): cols.add((len(ln) - len(ln.lstrip(" \t")), "\t" in ln[:len(ln) - len(ln.lstrip(" \t"))]))
            elif ln.startswith("  ") and ln.rstrip() != "  <cr>":
                for n in cands:
                    d = "  " + G.display(n) + " "
                    h0 = (n.help or "").split("\n")[0].lstrip(" \t").rstrip()
                    if h0 and not trunc and ln.startswith(d) and ln.rstrip().endswith(" " + h0) and ln[len(d):len(ln.rstrip()) - len(h0)].strip(" ") == "" and sum(ln.startswith("  " + G.display(m) + " ") for m in cands) == 1:
                        cols.add((len(ln.rstrip()) - len(h0), False))
        if len(cols) > 1 or any(t for c, t in cols): ctx.fail("columns", who + "\n%r" % out)
        elif cols: ctx.see("listings whose columns were checked")
        # shortened help ends at the right edge of the terminal
        if trunc and fit and cr is not None:
            wide = [ln for ln in out.split("\n") if len(ln) > case.o["width"]]
            if wide: ctx.fail("too wide", who + "\n%r" % wide)
            ctx.see("shortened listings within the width")
        left = list(got)
        hits = {w: 0 for w in want}
        for exact in (1, 0):
            for g in list(left):
                w = [w for w in want if (g == w if exact else same(g, w, trunc) and hits[w] < want[w])]
                if w: hits[w[0]] += 1; left.remove(g)
        firsts = {w[0] for w in want if hits[w]}
        if left: ctx.fail("extra", who + "\nextra %s" % left)
        for w in want:
            if hits[w] > want[w]: ctx.fail("twice", who + "\ntwice %s" % (w,))
            elif not hits[w] and w[0] not in firsts and not (trunc and any(f.split(" ")[0] == w[0].split(" ")[0] for f in firsts)): ctx.fail("missing", who + "\nmissing %s" % (w,))
        if cr is not None and cr != gcr: ctx.fail("cr", who)
        if len(want) > 1 and cr: ctx.sample(dict(line=line, listed=[w[0] for w in want], cr=cr))
    if k != len(case.steps): ctx.fail("lines", "%d of %d requests answered" % (k, len(case.steps)))
