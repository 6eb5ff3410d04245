"""C03: verdict of a line."""
from vp import op, Case
import gram as G
RULE = ("random grammars (keywords sharing prefixes, variables of 20 types with limits, choices, groups of alternatives, nesting to depth 5) x lines walking them with abbreviations, wrong, "
        "missing and extra words, with and without case-insensitive mode; non-trivial = distinct (grammar, line) whose verdict the reference defines")
ASSUME = ["words are resolved one at a time from the left, as the documentation describes", "lines whose words are of an open value format are not judged"]
N = dict(quick=3000, thorough=90000)
BATCH = 40
TECH = "reference-model monitor over match events + ASan/UBSan"
WANT = dict(MATCH=1, NOMATCH=0)
def gen(rng, i, tier):
    big = rng.random() < .1
    p = G.Prof(depth=rng.randint(1, 5), width=rng.choice([2, 4, 6, 9 if not big else 20]), vars=rng.choice([0, .2, .5]), cbs=rng.random() < .8, hide=rng.choice([0, 0, .1]))
    g = G.Gen(rng, p).grammar()
    env = dict(caseignore=rng.random() < .25)
    pg, g = G.grouped(rng, g, .2) if rng.random() < .2 else (g, g)
    L = [op("new", 0), op("load", G.spec(pg, rng), None)]
    if env["caseignore"]: L.append(op("opt", "caseignore", 1))
    ls = G.lines(rng, g, 25)
    if env["caseignore"]: ls = [l.swapcase() if rng.random() < .3 else l.upper() if rng.random() < .3 else l for l in ls]
    for l in ls: L.append(op("eval", l))
    return Case(L, g=g, ls=ls, env=env, spec=L[1])
def klass(reason):
    return {"Unknown command": "unknown", "Incomplete command": "incomplete", "Ambiguous command": "ambiguous"}.get(reason, "var")
def judge(ctx, case, line, e, cbs, key=""):
    try: v = G.interp(case.g, line, case.env)
    except G.Gray as x:
        ctx.see("left open (%s)" % x); return None
    ctx.see("verdict %s%s" % (v.what, " " + v.why if v.why else ""))
    ctx.nontrivial(case.spec, line)
    who = "line %r with\n%s\nexpected %s, got %s" % (line, G.spec(case.g), v, e)
    got = "MATCH" if e["rc"] == 0 and e["res"] == 1 else "NOMATCH" if e["rc"] == 0 and e["res"] == 0 else "MULTIPLE" if e["rc"] == 0 and e["res"] > 1 else "ERROR"
    if got != v.what: ctx.fail(key + "verdict", who)
    elif got == "NOMATCH":
        if not e["reason"]: ctx.fail(key + "no-reason", who)
        elif klass(e["reason"]) != v.why: ctx.fail(key + "reason", who)
    if got != "MATCH" and cbs: ctx.fail(key + "executed", who + " callbacks %s" % cbs)
    if got == "MATCH" and v.what == "MATCH" and case.g is not None:
        want = [f for f, a in v.node.cbs]
        if [c["cb"] for c in cbs] != want: ctx.fail(key + "wrong-command", who + " callbacks %s expected %s" % ([c["cb"] for c in cbs], want))
    return v
def check(ctx, case, ev):
    it = iter(ev)
    e = next(it); e = next(it)
    if e["op"] != "load" or e["rc"] != 0:
        ctx.fail("load", "%s\n%s" % (e, G.spec(case.g))); return
    cbs, k = [], 0
    for e in it:
        if "cb" in e: cbs.append(e)
        if e.get("op") == "eval":
            v = judge(ctx, case, case.ls[k], e, cbs)
            if v and v.what == "MATCH": ctx.sample(dict(line=case.ls[k], bound=v.binds))
            k += 1; cbs = []
    if k != len(case.ls): ctx.fail("lines", "%d of %d lines answered" % (k, len(case.ls)))
