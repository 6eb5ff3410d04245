"""C11: tree references."""
from vp import op, Case
import copy
import gram as G, meta as M
RULE = ("random sets of trees referring to each other (references at the top of a tree, below words, beside other commands, nested, recursive, bringing in commands that are there already, filtered by labels, with and without callbacks and help, through the "
        "resolve function, to missing trees) x lines evaluated, listed and completed both on the referring grammar and on a second handle holding the grammar with every reference written out; the referenced trees "
        "are printed and probed directly before and after; non-trivial = distinct (trees, line) compared")
ASSUME = ["one callback at most on a reference or a referenced command (which of several is replaced is not documented)", "a reference at the top level of a tree that is itself referenced carries no callback",
          "a command beside a reference that the referenced tree has too carries a callback in one of the two only, and references have neither labels nor callbacks then (documented as undefined)"]
N = dict(quick=2500, thorough=70000)
BATCH = 40
TECH = "differential monitor (reference / written out) over recorded verdicts, callbacks, listings and completed lines + ASan/UBSan"
LAB = ["la", "lb", "lab", "=lc", "=local", "=loc"]
class Big(Exception): pass
def flt(r): return {x[len("remove:"):] if x.startswith("remove:") else x[len("=@remove:"):] for x in r.labels}
def name(x): return G.lab(x)
def inline(nodes, trees, ctx, filt, depth, count, top=False):
    """the grammar with references written out; ctx: callback of the innermost reference with one"""
    out = []
    for n in nodes:
        f0 = filt
        filt = f0 | getattr(n, "fl", set())
        if any(name(x) in filt for x in n.labels if n.kind != "ref"): filt = f0; continue
        count[0] += 1
        f1, filt = filt, f0
        if count[0] > 1500: raise Big()
        if n.kind == "ref":
            if depth <= 0: continue
            if n.ref not in trees: continue
            out += inline(flat(trees, n.ref, set()), trees, n.cbs or ctx, f1 | flt(n), depth - 1, count)
            continue
        m = copy.copy(n)
        if ctx and m.term:
            if ctx[0][0] == "prepend_me": m.cbs = list(m.cbs)
            elif m.cbs: m.cbs = [(ctx[0][0], list(m.cbs[0][1]) + list(ctx[0][1]))]
            else: m.cbs = [ctx[0]]
        m.labels, m.fl = [], set()
        m.ch = inline(n.ch, trees, ctx, f1, depth - 1, count)
        if n.ch and not m.ch and not m.term: m.ch = [G.N("cmd", "_never_", term=True, hide=True)]
        out.append(m)
    return out
def flat(trees, t, seen):
    """top-level references inside a referenced tree are part of it"""
    out = []
    for n in trees[t]:
        if n.kind == "ref" and n.ref in trees and t not in seen:
            f = flt(n)
            for c in flat(trees, n.ref, seen | {t}):
                c = copy.copy(c); c.fl = getattr(c, "fl", set()) | f
                out.append(c)
        elif n.kind != "ref": out.append(n)
    return out
def overlap(rng, c, words, k, depth):
    """a command that is also in the referenced tree, with other continuations"""
    d = G.N("cmd", c.word)
    d.help = c.help if rng.random() < .5 else rng.choice(["local help", None]) if c.help is None else None
    if not c.term and rng.random() < .5: d.term = True; d.cbs = [("fo%d" % k, [rng.choice(G.ARGS)])]
    sub = [x for x in c.ch if x.kind == "cmd" and not x.hide]
    if sub and depth < 2 and rng.random() < .5: d.ch.append(overlap(rng, rng.choice(sub), words, k, depth + 1))
    if not d.term and not d.ch or rng.random() < .3:
        if words: d.ch.append(G.N("cmd", words.pop(), term=True, cbs=[("fo%d" % k, [])], help=rng.choice(["own", None])))
    if not d.ch and not d.term: d.term, d.cbs = not c.term, []
    return d
def joined(nodes):
    """equal commands of one level as one command"""
    out, by = [], {}
    for n in nodes:
        q = by.get(n.key()) if n.kind == "cmd" else None
        if q is None:
            n = copy.copy(n); n.ch = list(n.ch); out.append(n); by[n.key()] = n; continue
        if q.term and n.term or q.hide or n.hide: raise Big()
        if n.term: q.term, q.cbs = True, n.cbs
        if q.help is None: q.help = n.help
        elif n.help not in (None, q.help): raise Big()
        q.ch += n.ch; q.sets = q.sets or n.sets
    for n in out: n.ch = joined(n.ch)
    return out
def gen(rng, i, tier):
    nt = rng.randint(2, 4)
    fam = rng.choice([["S1", "S2", "S3", "S4"], ["iface", "iface-list", "iface-lists", "Iface"], ["configuration", "config", "configurations", "CONFIG"]])
    if rng.random() < .3: fam = rng.sample(fam, 4)
    names, gone = ["T"] + fam[:nt - 1], rng.choice(["gone", fam[3], fam[0] + "x", fam[0][:-1], "t"])
    voc = list(G.WORDS); rng.shuffle(voc)
    trees = {}
    rec = rng.random() < .2
    own = ["string", "int32", "bool", "ipv4addr"]
    if rng.random() < .5: rng.shuffle(own)
    for k, t in enumerate(names):
        # own vocabulary per tree, so that siblings of a reference differ from what it brings in
        p = G.Prof(depth=rng.randint(1, 3), width=rng.choice([2, 3, 5]), vars=rng.choice([0, .2]), cbs=True, help=.4, multi=0, rest=False, samename=False, hide=rng.choice([0, 0, .1]),
                   words=voc[k * 8:k * 8 + 8], types=[own[k]], cbname=["f%d_" % k], lim=k == 0 or own[k] == "string")
        trees[t] = G.Gen(rng, p).grammar()
        if rng.random() < .3: G.translate(rng, trees[t], .5)
    labs = rng.sample(LAB, 2)
    for t in names[1:]:
        for n in G.walk(trees[t]):
            if rng.random() < .25: n.labels = [rng.choice(labs)]
    def ref(to, top):
        r = G.N("ref", to); r.ref = to
        if rng.random() < .5 and not top: r.cbs = [("cb" + str(rng.randint(0, 9)), [rng.choice(G.ARGS) for _ in range(rng.choice([0, 1, 2]))])]
        if rng.random() < .4: r.labels = ["remove:" + name(x) for x in rng.sample(labs, rng.randint(1, 2))]
        if rng.random() < .2: r.help = "the reference"
        r.term = True
        return r
    missing = rng.random() < .1
    wrap = rng.random() < .15
    for k, t in enumerate(names):
        later = names[k + 1:] if not rec or k == 0 else names[1:]
        if not later: continue
        for _ in range(rng.choice([1, 1, 2])):
            to = rng.choice(later)
            slots = [(n.ch, 0) for n in G.walk(trees[t]) if n.kind != "ref" and n.typ != "rest" and not n.choice] + ([(trees[t], k > 0)] if not rec or k == 0 else [])
            if k == 0 and missing: to = gone
            if not slots: continue
            s, top = rng.choice(slots)
            if any(n.kind == "ref" for n in s): continue
            s.append(ref(to, top))
    # a leaf that got children keeps its end; a node without must end
    for t in names:
        for n in G.walk(trees[t]):
            if not n.ch and n.kind != "ref": n.term = True
            if not n.term: n.labels = []
    # commands beside a reference that the referenced tree has too
    over = not rec and not missing and rng.random() < .3
    if over:
        own_w = voc[32:]
        for t in names:
            for n in G.walk(trees[t]):
                if n.kind == "ref": n.labels, n.cbs = [], []
        for k, t in enumerate(names):
            for s in [trees[t]] + [n.ch for n in G.walk(trees[t])]:
                for r in [x for x in s if x.kind == "ref" and x.ref in names]:
                    for c in flat(trees, r.ref, set()):
                        if c.kind == "cmd" and not c.hide and own_w and rng.random() < .6: s.append(overlap(rng, c, own_w, k, 0))
    if rng.random() < .2:
        for t in names:
            for n in G.walk(trees[t]):
                n.hide = False
                if n.ch and rng.random() < .4: n.sets = True
    try: g = inline(trees["T"], trees, None, set(), 12, [0])
    except Big: return None
    if over:
        try: g = joined(g)
        except Big: return None
    def clash(nodes):
        ks = set()
        for n in nodes:
            for q in [n.key()] + ([("cmd", w) for w in n.choice] if n.choice else []):
                if q in ks: return True
                ks.add(q)
            if clash(n.ch): return True
        return False
    if clash(g) or not g: return None
    deep = 4 if rec else 99
    full = [x for x in M.probes(rng, g, 25, kinds="eeeeeehht") if len(x[1].split(" ")) <= deep and not any(w[:1] == "_" for w in x[1].split(" "))]
    own = {t: M.probes(rng, inline(trees[t], trees, None, set(), 12, [0]), 4, kinds="eeh") for t in names[1:]} if not rec else {}
    def rn(nodes):
        nodes = copy.deepcopy(nodes)
        for n in G.walk(nodes):
            if n.kind == "ref" and n.ref == names[-1]: n.ref = "alias"
        return nodes
    o = dict(tabmode=0 if rec else rng.choice([0, 0, 4]))
    L = [op("new", 0)]
    order = list(names)
    if rng.random() < .5: rng.shuffle(order)
    for t in order: L.append(op("load", G.spec(rn(trees[t]) if wrap else trees[t], rng if rng.random() < .3 else None), t))
    if wrap: L.append(op("rwrap", "alias", names[-1]))
    L.append(op("opt", "tabmode", o["tabmode"]))
    def own_probes():
        for t in names[1:]:
            if t in own:
                L.append(op("active", t)); M.emit(L, own[t])
    own_probes()
    for t in names: L.append(op("print", t, 1))
    L.append(op("active", "T")); M.emit(L, full)
    for t in names: L.append(op("print", t, 1))
    own_probes()
    if missing:
        L += [op("mon")]
    L += [op("new", 1), op("load", G.spec(g), "T"), op("active", "T"), op("opt", "tabmode", o["tabmode"])]
    M.emit(L, full)
    return Case(L, full=full, own=own, names=names, missing=missing, g=g, trees=trees, spec="\n".join("-- %s:\n%s" % (t, G.spec(trees[t])) for t in names), written=G.spec(g))
def strip(a, sets):
    """which reason is given for a word refused in a set is left open"""
    return (a[0], dict(a[1], reason=bool(a[1].get("reason")))) if sets else a
def check(ctx, case, ev):
    ld = [e for e in ev if e.get("op") == "load"]
    if len(ld) != len(case.names) + 1 or any(e["rc"] != 0 for e in ld): ctx.fail("load", "%s\n%s\n%s" % (ld, case.spec, case.written)); return
    ans = M.answers(ev)
    no = sum(len(x) for x in case.own.values()); nf = len(case.full)
    if len(ans) != 2 * no + 2 * nf: ctx.fail("lines", "%d answers" % len(ans)); return
    own1, ref, own2, wr = ans[:no], ans[no:no + nf], ans[no + nf:2 * no + nf], ans[2 * no + nf:]
    pt = [e["text"] for e in ev if e.get("op") == "print"]
    k = len(case.names)
    if pt[:k] != pt[k:2 * k]: ctx.fail("tree-changed", "%s\n%s\n%s" % (case.spec, pt[:k], pt[k:]))
    if own1 != own2: ctx.fail("own-changed", case.spec + str([(a, b) for a, b in zip(own1, own2) if a != b][:1]))
    ctx.see("probes of referenced trees repeated", no)
    # the resolve function is told the words of the line, for references at every depth
    seq, pend, q = case.full, [], 0
    for e in ev:
        if "resolve" in e: pend.append(e); continue
        if e.get("op") not in M.KIND: continue
        q += 1
        if no < q <= no + nf:
            kind, l = seq[q - no - 1]
            for r in pend:
                ctx.see("calls of the resolve function")
                cvt = r["cvt"] or []
                if any(c[0] is not None for c in cvt[1:]) or kind == "e" and [c[3] for c in cvt[1:]] != G.tokenize(l)[0]: ctx.fail("resolve-words", "%s %r\n%s\n%s" % (kind, l, r, case.spec)); break
        pend = []
    sets = any(n.sets for t in case.trees.values() for n in G.walk(t))
    for (kind, l), a, b in zip(case.full, ref, wr):
        a, b = strip(a, sets), strip(b, sets)
        if sets: ctx.see("lines in trees with sets")
        ctx.nontrivial(case.spec, kind, l)
        who = "%s %r\nwith references %s\nwritten out %s\n%s\nwritten out:\n%s" % (kind, l, a, b, case.spec, case.written)
        if case.missing and a != b:
            # the level with the missing tree gives an error, and is not a match
            if "res" in a[1] and (a[1]["res"] == 1 or a[1]["cbs"]): ctx.fail("missing-match", who)
            elif a[1]["rc"] >= 0 and kind not in "ht" : ctx.fail("missing-no-error", who)
            else: ctx.see("errors for missing trees")
            continue
        ctx.see(M.what(b))
        if a != b: ctx.fail("differs", who)
        elif "res" in a[1] and a[1]["res"] == 1: ctx.sample(dict(line=l, callbacks=a[1]["cbs"]))
