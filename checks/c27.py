"""C27: order, splitting and merging of declarations."""
from vp import op, Case
import copy, ctypes, functools
_libc = ctypes.CDLL(None)
def cmp(mode):
    """the order of commands: by character, without regard to case, or numbers by value"""
    b = lambda s: s.encode("latin-1", "replace")
    if mode[0]: return functools.cmp_to_key(lambda x, y: _libc.strverscmp(b(x), b(y)))
    return functools.cmp_to_key(lambda x, y: _libc.strcasecmp(b(x), b(y)) if mode[1] else (b(x) > b(y)) - (b(x) < b(y)))
NUMBERED = ["eth0", "eth1", "eth2", "eth10", "eth02", "Eth1x", "eth1b", "eth16", "v1.2", "v1.10", "v1.02", "Zed", "alpha", "Beta", "a-b", "a_b", "A.b", "1", "01", "2", "10", "x", "X1", "x10", "x9"]
import gram as G, meta as M, rich as R
RULE = ("random grammars (all variable kinds, limits, sets, hidden commands, labels, several callbacks, references) loaded as generated and, on further handles: with siblings shuffled, as single commands in random order, with "
        "commands without callbacks repeated, split over several texts added to one tree, split over trees merged with the library's merge function in random order, as several trees in one text, and as a deep copy whose original is released; all handles are "
        "printed and probed with the same lines, and the order, uniqueness and parent links of all nodes are inspected; non-trivial = distinct (grammar, form, line) compared")
ASSUME = ["no two equal commands with different help texts or labels (one of them may lack the help text)", "callbacks of one command are declared in one statement (their order is their order)"]
N = dict(quick=1200, thorough=40000)
BATCH = 25
TECH = "differential monitor (forms of declaration) over recorded verdicts, callbacks, values, listings, completed lines and printed grammars, structural monitor of the trees + ASan/UBSan"
def pieces(nodes, pre=(), rng=None):
    """statements: each terminal path once; a set is one statement, or one for the command and one or more for its members"""
    out = []
    for n in nodes:
        if n.kind == "ref": out.append((pre, n)); continue
        if n.sets and rng and rng.random() < .6:
            m = copy.copy(n); m.term, m.cbs = False, []
            if n.term: out.append((pre, leafcopy(n)))
            if len(n.ch) > 1 and rng.random() < .5:
                k = rng.randrange(1, len(n.ch)); m2 = copy.copy(m); m.ch, m2.ch = n.ch[:k], n.ch[k:]
                out.append((pre, m2))
            out.append((pre, m)); continue
        if n.sets or n.kind == "cmd" and n.hide and n.ch and not n.term: out.append((pre, n)); continue
        if n.term: out.append((pre, leafcopy(n)))
        out += pieces(n.ch, pre + (n,), rng)
    return out
def leafcopy(n):
    m = copy.copy(n); m.ch, m.sets = [], False
    return m
def stmt(p, rng, seen):
    """one statement; the help text of a node above it may be left out where another statement has it"""
    pre, n = p
    up = []
    for x in pre:
        if (x.term or id(x) in seen) and rng.random() < .3: x = nohelp(x)
        else: seen.add(id(x))
        up.append(x)
    pre = up
    return " ".join(G.head(x) for x in pre) + (" " if pre else "") + G.render(n, rng if rng.random() < .3 else None) + "\n"
def nohelp(n):
    m = copy.copy(n); m.help = None
    return m
def shuffle(rng, nodes):
    nodes = list(nodes); rng.shuffle(nodes)
    out = []
    for n in nodes:
        m = copy.copy(n); m.ch = shuffle(rng, n.ch); out.append(m)
    return out
def differ(rng, n):
    m = copy.copy(n); m.labels, m.help, m.ch, m.sets, m.term = [], None, [], False, True
    m.cbs = [("twin", [])] if rng.random() < .5 else []
    if rng.random() < .5: m.word = n.word + "t"
    if n.expand:
        f, a = n.expand[0], list(n.expand[1])
        k = rng.randrange(3)
        if k == 0: a = a + ["x"]
        elif k == 1 and a: a[-1] = a[-1] + "y"
        else: f = f + "b"
        m.expand = (f, a)
        return m
    if n.choice: m.choice = n.choice[:-1] + [n.choice[-1] + "q"]; return m
    if n.regex:
        r = list(n.regex); k = rng.randrange(3)
        if k == 0: r.append(("[^q]*", 0))
        elif k == 1: r[-1] = (r[-1][0], 1 - r[-1][1])
        else: r[-1] = (r[-1][0] + "x?", r[-1][1])
        m.regex = r
        return m
    if n.rng:
        r = list(n.rng); j = rng.randrange(len(r)); lo, hi = r[j]; k = rng.randrange(4)
        if lo == hi or hi - lo > 10**9: k = 3
        if k == 0: r[j] = (lo + 1, hi)
        elif k == 1: r[j] = (lo, hi - 1)
        elif k == 2: r.insert(rng.randint(0, len(r)), (lo, hi))
        else: r.append((3, 7))
        m.rng = r
        return m
    if n.typ == "decimal64" and rng.random() < .5: m.n = n.n % 18 + 1; return m
    if n.typ in G.T.INTS or n.typ in ("string", "decimal64", "rest"): m.rng = [(1, 2), (4, 5)][:rng.randint(1, 2)]; return m
    return None
def size(nodes):
    """the number of nodes the declarations amount to"""
    return sum(1 + n.term + size(n.ch) for n in nodes)
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(1, 4), width=rng.choice([2, 3, 5, 9, 9, 30 if i % 5 == 0 else 3]), vars=rng.choice([.2, .5]), help=.5, multi=.2, hide=rng.choice([0, .1]), prefp=.05, rest=True, choice=rng.random() < .5)
    mode = rng.choice([(0, 0), (0, 0), (1, 0), (1, 1), (0, 1)])      # (the order of commands is an option)
    if rng.random() < .4:
        p.words = G.WORDS + NUMBERED
        if rng.random() < .5: p.words = NUMBERED; p.width = max(p.width, 6)
    if mode == (0, 1): p.words = list({w.lower(): w for w in p.words}.values())
    g = G.Gen(rng, p).grammar()
    fns = {}
    for n in G.walk(g):
        if n.choice and rng.random() < .3: n.choice = ["a-first-long-word", "another-one", "third"][:rng.randint(1, 3)] + n.choice
    def expands(nodes, depth=0):
        for n in nodes:
            if depth and n.kind == "var" and not n.choice and n.typ == "string" and rng.random() < .15:
                n.rng, n.regex = [], []
                n.expand = ("ex%d" % len(fns), [rng.choice(["x", "y z"]) for _ in range(rng.choice([0, 1]))]); fns[n.expand[0]] = n
            expands(n.ch, depth + 1)
    expands(g)
    sub = [G.N("cmd", "subtree-" + w, term=True, cbs=[("scb", [w])], help=w) for w in ("one", "two")]
    useref = rng.random() < .4
    for n in list(G.walk(g)):
        if n.term and not n.hide and rng.random() < .1: n.labels = [rng.choice(["la", "=lb"])]
        if n.hide and n.ch and not n.term: n.hide = False
        if n.ch and n.typ != "rest" and not n.hide and not n.labels and rng.random() < .07: n.sets = True
        if useref and n.ch and n.typ != "rest" and rng.random() < .2:
            r = G.N("ref", "U"); r.ref = "U"; r.term = True
            if rng.random() < .4: r.cbs = [("rcb", ["x"])]
            n.ch.append(r)
    if useref and rng.random() < .3:
        r = G.N("ref", "U"); r.ref = "U"; r.term = True; g.append(r)
    def regexps(nodes):     # (no two variables beside each other with the same one: they would be the same variable)
        rx = [r for r in R.RX if all([r] != m.regex for m in nodes)]; rng.shuffle(rx)
        for n in nodes:
            if rng.random() < .1 and n.kind == "var" and n.typ == "string" and not n.rng and not n.choice and not n.expand and not n.regex and rx: n.regex = [rx.pop()]
            regexps(n.ch)
    regexps(g)
    # variables that differ from one beside them in one detail only
    def twin(nodes):
        have = {n.key() for n in nodes}
        for n in list(nodes):
            twin(n.ch)
            if n.kind != "var" or n.hide or rng.random() > .25: continue
            m = differ(rng, n)
            if m is None or m.key() in have: continue
            have.add(m.key()); nodes.insert(rng.randint(0, len(nodes)), m)
            if m.expand: fns[m.expand[0]] = m
    if rng.random() < .6: twin(g)
    def par(nodes):
        for n in nodes:
            if n.sets and any(m.sets for m in G.walk(n.ch)): 
                for m in G.walk(n.ch): m.sets = False
            par(n.ch)
    h = copy.deepcopy(g)
    def clean(nodes):
        nodes[:] = [n for n in nodes if n.kind != "ref"]
        for n in nodes:
            if n.expand: n.choice = ["eth0", "eth1", "lo"]
            clean(n.ch)
    clean(h)
    pr = M.probes(rng, h, 14)
    if useref: pr += [(k, l.rsplit(" ", 1)[0] + " subtree-one") for k, l in pr[:4] if k != "t"]
    ps = pieces(g, (), rng)
    rep = [q for q in ps if q[1].kind != "ref" and not q[1].sets and not q[1].ch and not q[1].labels and not q[1].hide and q[1].term]
    forms = [("as generated", None)]
    cand = ["shuffled", "commands", "texts", "merged", "copy", "one text"]
    for f in rng.sample(cand, 3): forms.append((f, None))
    L = [op("new", 0), op("opt", "lexicalorder", mode[0]), op("opt", "ignorecase", mode[1])]
    for k, (f, _) in enumerate(forms):
        if k: L.append(op("new", k))
        if f != "one text" and useref: L.append(op("load", G.spec(sub), "U"))
        if f == "as generated": L.append(op("load", G.spec(g), "T"))
        elif f == "shuffled": L.append(op("load", G.spec(shuffle(rng, g), rng), "T"))
        elif f == "one text":
            a, b = 'treename="T";\n' + G.spec(shuffle(rng, g)), 'treename="U";\n' + G.spec(sub)
            L.append(op("load", rng.choice([a + b, b + a]), "start"))
        elif f == "copy":
            L += [op("load", G.spec(shuffle(rng, g)), "orig"), op("dup", "orig", "T"), op("print", "orig", 0)]
            L += [op("print", "T", 0), op("freetree", "orig")]
        else:
            seen = set()
            q = [stmt(x, rng, seen) for x in ps] + [stmt((x[0], _nocb(x[1])), rng, seen) for x in rep if rng.random() < .1]
            rng.shuffle(q)
            if f == "commands": L.append(op("load", "".join(q), "T"))
            else:
                n = rng.randint(2, 4); parts = [[] for _ in range(n)]
                for s in q: rng.choice(parts).append(s)
                parts = ["".join(x) for x in parts if x] or ["\n"]
                if f == "texts":
                    L.append(op("load", parts[0], "T"))
                    for x in parts[1:]: L.append(op("loadinto", x, "T"))
                else:
                    names = ["T"] + ["P%d" % j for j in range(1, len(parts))]
                    order = list(range(len(parts))); rng.shuffle(order)
                    for j in order: L.append(op("load", parts[j], names[j]))
                    src = names[1:]; rng.shuffle(src)
                    for x in src: L.append(op("merge", "T", x))
                    if rng.random() < .5: L += [op("freetree", x) for x in src]
        L += [op("expset", x, 0, 3, "eth0", "eth1", "lo") for x in fns] + [op("active", "T"), op("mon", "T"), op("names", "T"), op("print", "T", 0)]
        M.emit(L, pr)
    return Case(L, forms=[f for f, _ in forms], pr=pr, spec=G.spec(g), L=L, size=size(g), mode=mode)
def _nocb(n):
    m = copy.copy(n); m.cbs = []
    return m
def check(ctx, case, ev):
    who = "\n%s" % case.spec
    bad = [e for e in ev if e.get("op") in ("load", "loadinto", "merge", "active") and e["rc"] != 0]
    if bad: ctx.fail("load", "%s%s" % (bad, who)); return
    k = len(case.forms); n = len(case.pr)
    ans = M.answers(ev)
    if len(ans) != k * n: ctx.fail("lines", "%d" % len(ans)); return
    mons = [e for e in ev if e.get("op") == "mon"]
    key = cmp(case.mode)
    for e in ev:
        if e.get("op") == "names":
            for l in (e["text"] or "").split("\n"):
                w = l.split(" ")
                if len(w) > 1: ctx.see("orders compared (%s)" % ("numbers by value" if case.mode[0] else "without case" if case.mode[1] else "by character"))
                if any(key(a) > key(b) for a, b in zip(w, w[1:])): ctx.fail("order", "%s with order %s%s" % (w, case.mode, who))
    pt = [[]]
    for e in ev:
        if e.get("op") == "print": pt[-1].append(e["text"])
        if e.get("op") == "new" and pt[-1]: pt.append([])
    for j, f in enumerate(case.forms):
        if mons[j]["badorder"] or mons[j]["badparent"]: ctx.fail("structure", "%s: %s%s" % (f, mons[j], who))
        if mons[j]["one"] != case.size: ctx.fail("number of nodes", "%s: %d nodes in the tree, %d declared%s" % (f, mons[j]["one"], case.size, who))
        ctx.see("nodes inspected", mons[j]["nodes"])
        if len(set(pt[j])) > 1: ctx.fail("copy-print", "%s%s" % (pt[j], who))
        if j == 0: continue
        ctx.see("grammars: " + f)
        if pt[j][-1] != pt[0][-1]: ctx.fail("print", "%s:\n%s\nas generated:\n%s%s" % (f, pt[j][-1], pt[0][-1], who))
        for (kind, l), a, b in zip(case.pr, ans[:n], ans[j * n:]):
            ctx.see(M.what(a)); ctx.nontrivial(case.spec, f, kind, l)
            if kind == "h" and j == 1 and "out" in a[1]:
                w = [x[2:].split(" ")[0] for x in a[1]["out"].split("\n") if x.startswith("  ") and x[2:3] not in (" ", "<", "")]
                if len(w) > 1: ctx.see("listings in order")
                if any(key(x) > key(y) for x, y in zip(w, w[1:])): ctx.fail("listing-order", "%r: %s with order %s%s" % (l, w, case.mode, who))
            if a != b: ctx.fail("differs", "%s %r\nas generated %s\n%s %s%s" % (kind, l, a, f, b, who))
            elif "res" in a[1] and a[1]["res"] == 1: ctx.sample(dict(line=l, form=f, callbacks=a[1]["cbs"]))
