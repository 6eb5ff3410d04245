"""C04: what callbacks receive."""
from vp import op, Case
import gram as G
from words import unescape
import types_ as T
RULE = ("random grammars (commands, variables of 20 types, choices, groups, several callbacks per command with typed and string arguments, failing (with various codes) and argument-changing callbacks, translation functions) x lines with "
        "random blanks, quoted words and abbreviations, under the keyword-exclusion, expanded-first-word, user-handle and wrapper options; non-trivial = distinct "
        "(grammar, line, option) whose callbacks were compared")
ASSUME = ["which command a line denotes is taken from the reference interpreter of C03", "empty constant arguments are not generated"]
N = dict(quick=4000, thorough=100000)
BATCH = 40
TECH = "reference-model monitor over callback events (order, vectors, arguments, return codes) + ASan/UBSan"
def argtext(a):
    if isinstance(a, str): return ["string", a]
    return [a[0], {"decimal64": "3.14"}.get(a[0], a[1])]
def gen(rng, i, tier):
    p = G.Prof(depth=rng.randint(1, 5), width=rng.choice([2, 4, 6]), vars=rng.choice([.2, .5, .7]), multi=.5, hide=rng.choice([0, 0, .1]),
               cbname=rng.choice([["cb"], ["cb", "pos"], ["cb", "fail", "pos", "mut"], ["cb", "failn", "pos"], ["cb", "mut"]]))
    if rng.random() < .1: p.depth, p.width = rng.choice([9, 13]), 2
    g = G.Gen(rng, p).grammar()
    if rng.random() < .4: G.translate(rng, g, .4)
    env = dict(caseignore=0)
    pg, g = G.grouped(rng, g, .2) if rng.random() < .2 else (g, g)
    L = [op("new", 0), op("load", G.spec(pg, rng), None)]
    o = dict(exclude_keys=0, expand_first=0, wrap=0, userhandle=0)
    steps = []
    for l in G.lines(rng, g, 25, junk=rng.random() < .3):
        if rng.random() < .2:
            k = rng.choice(list(o)); o[k] = 1 - o[k]; L.append(op("opt", k, o[k]))
        if rng.random() < .3 and '"' not in l and "\\" not in l: l = rng.choice(["", " ", "\t"]) + l.replace(" ", rng.choice(["  ", " \t", "   "])) + rng.choice(["", "  "])
        L.append(op("eval", l)); steps.append((l, dict(o)))
        if rng.random() < .15: L.append(op("eval", l)); steps.append((l, dict(o)))
    return Case(L, g=g, steps=steps, env=env, spec=L[1], tr={n.word for n in G.walk(g) if n.translate})
def trimmed(l):
    return l if '"' in l or "\\" in l else " ".join(l.split())
def expected(v, line, o):
    b = [("cmd", "rest", 0, line)] + list(v.binds)
    if o["expand_first"]: b[0] = ("cmd", "rest", 0, " ".join(x[3] for x in v.binds))
    if o["exclude_keys"]: b = [b[0]] + [x for x in b[1:] if not x[2]]
    return [list(x) for x in b]
def run(cbs, v, line, o):
    """expected event list and return code"""
    out, rc = [], 0
    cvv = expected(v, line, o)
    for f, args in cbs:
        if o["wrap"]: out.append(("wrap", "pre", f))
        out.append(("cb", f, cvv, [argtext(a) for a in args] or None))
        if f.startswith("fail"): rc = -1; break
        if o["wrap"]: out.append(("wrap", "post", f))
    return out, rc
def norm(e):
    if "wrap" in e: return ("wrap", e["wrap"], e["name"])
    return ("cb", e["cb"], e["cvv"], [[x[1], x[3] or ""] for x in e["argv"]] if e["argv"] else None)
def check(ctx, case, ev):
    it = iter(ev)
    e = next(it); e = next(it)
    if e["op"] != "load" or e["rc"] != 0:
        ctx.fail("load", "%s\n%s" % (e, G.spec(case.g))); return
    cbs, k = [], 0
    for e in it:
        if "cb" in e or "wrap" in e: cbs.append(e)
        if e.get("op") != "eval": continue
        (line, o), got, cbs = case.steps[k], [norm(x) for x in cbs], []
        k += 1
        line = trimmed(line)
        try: v = G.interp(case.g, line, case.env)
        except G.Gray as x: ctx.see("left open"); continue
        if v.what != "MATCH":
            if got: ctx.fail("callback-without-match", "%r: %s" % (line, got))
            continue
        if e["rc"] or e["res"] != 1: ctx.see("verdict differs (C03)"); continue
        want, rc = run(v.node.cbs, v, line, o)
        ctx.nontrivial(case.spec, line, tuple(o.values()))
        ctx.see("callback calls", len([w for w in want if w[0] == "cb"])); ctx.see("values compared", len(v.binds)); ctx.see("values translated", len([1 for b in v.binds if not b[2] and b[0] in case.tr])); ctx.see("options " + "".join(str(x) for x in o.values()))
        if rc: ctx.see("failing callbacks")
        if got != want:
            key = "order"
            if [x[:2] for x in got] == [x[:2] for x in want]:
                key = "arguments" if [x[:3] for x in got] == [x[:3] for x in want] else "values"
            ctx.fail(key, "line %r options %s\n%s\nexpected %s\ngot %s" % (line, o, G.spec(case.g), want, got))
        if e["er"] != rc: ctx.fail("return", "line %r returned %s expected %s" % (line, e["er"], rc))
        ctx.sample(dict(line=line, calls=want[:3]))
    if k != len(case.steps): ctx.fail("lines", "%d of %d lines answered" % (k, len(case.steps)))
