"""Specifications with groups, alternatives, optional parts and blocks, and their written-out form."""
import copy
import gram as G
class S:
    """statement: items, terminal?, callbacks, hide, labels, block"""
    def __init__(s, items): s.items, s.term, s.cbs, s.hide, s.labels, s.block = items, True, [], False, [], []
def gen(rng, leaf, cbs, depth=0, width=3, sub=2):
    """leaf(): a fresh node ; cbs(): callbacks"""
    st = S(seq(rng, leaf, 0, depth == 0))
    if depth < sub and rng.random() < .35 and not ends_rest(st.items):
        st.block = [gen(rng, leaf, cbs, depth + 1, width, sub) for _ in range(rng.randint(1, width))]
        st.term = rng.random() < .4
    if st.term:
        st.cbs = cbs() if rng.random() < .9 else []
        st.hide = rng.random() < .08
        if rng.random() < .1: st.labels = [rng.choice(["la", "=lb"])]
    return st
def rests(items):
    for k, x in items:
        if k == "w":
            if x.typ == "rest": return True
        elif any(rests(a) for a in x): return True
    return False
def ends_rest(items): return rests(items)
def seq(rng, leaf, depth, must):
    n = rng.choice([1, 1, 2, 2, 3, 4]) if depth == 0 else rng.choice([1, 1, 1, 2, 3])
    out = []
    for _ in range(n):
        if out and rests(out): break
        r = rng.random()
        if depth >= 3 or r < .55: out.append(("w", leaf()))
        elif r < .78: out.append(("alt", [seq(rng, leaf, depth + 1, True) for _ in range(rng.randint(1, 4))]))
        else: out.append(("opt", [seq(rng, leaf, depth + 1, True) for _ in range(rng.randint(1, 3))]))
    if must and all(k == "opt" for k, _ in out): out.insert(rng.randint(0, len(out)) if not rests(out) else 0, ("w", leaf()))
    elif all(k == "opt" for k, _ in out): out.insert(0, ("w", leaf()))
    return out
def text_items(items):
    o = []
    for k, x in items:
        if k == "w": o.append(G.head(x))
        elif k == "alt": o.append("(" + " | ".join(text_items(a) for a in x) + ")")
        else: o.append("[" + " | ".join(text_items(a) for a in x) + "]")
    return " ".join(o)
def opts(st):
    n = G.N("cmd", "x"); n.cbs, n.hide, n.labels = st.cbs, st.hide, st.labels
    return G.opts(n)
def text(sts, ind=0):
    p = "  " * ind
    o = ""
    for st in sts:
        t = p + text_items(st.items)
        if st.term: t += opts(st) + ";"
        if st.block: t += " {\n" + text(st.block, ind + 1) + p + "}"
        o += t + "\n"
    return o
def paths(items):
    """every variant of a sequence (list of node lists)"""
    out = [[]]
    for k, x in items:
        if k == "w": out = [p + [x] for p in out]
        else:
            alts = [q for a in x for q in paths(a)] + ([[]] if k == "opt" else [])
            out = [p + q for p in out for q in alts]
        if len(out) > 400: raise Big()
    return out
class Big(Exception): pass
def variants(sts, pre=()):
    """-> list of (node list, statement)"""
    out = []
    for st in sts:
        for p in paths(st.items):
            full = list(pre) + p
            if st.term: out.append((full, st))
            if st.block: out += variants(st.block, full)
        if len(out) > 600: raise Big()
    return out
def written(vs): return "".join(" ".join(G.head(n) for n in p) + opts(st) + ";\n" for p, st in vs)
def tree(vs):
    """node tree of the written-out commands (for walking)"""
    top = []
    def ins(lst, n):
        for m in lst:
            if m.key() == n.key():
                if m.word != n.word: raise Big()
                return m
        m = copy.copy(n); m.ch = []; m.term = False; m.cbs = []
        lst.append(m)
        return m
    for p, st in vs:
        lst, m = top, None
        for n in p:
            m = ins(lst, n); lst = m.ch
        m.term = True; m.cbs = m.cbs + st.cbs; m.hide = m.hide or st.hide
    return top
