"""C33: assignments and flags of a specification reach the application."""
from vp import op, Case
import gram as G
RULE = ("(1) specifications with up to 12 global assignments (repeated names, names that are beginnings of each other, empty and odd values) at any place between commands, trees and blocks of trees, loaded from a string and from a file, "
        "one to five times into the same vector, some without a vector, some with another word for treename; (2) random grammars whose complete commands carry flags and assignments, interpreted by their full, abbreviated and completed "
        "lines directly and through a tree reference, and variables with run-time alternatives that carry them; non-trivial = distinct (specification, vector) and (grammar, line) compared")
ASSUME = ["an assignment given with a command at the top of a tree is taken as a global one (not generated)", "flags and assignments on a word that only opens a block are not judged (where they belong is not documented)", "which command a line denotes is taken from the reference interpreter of C03",
          "a vector is not judged after a load that failed"]
N = dict(quick=2500, thorough=80000)
BATCH = 40
TECH = "reference-model monitor over the vectors an application receives (globals at load, those of the matched command at each line) + ASan/UBSan"
GN = ["prompt", "comment", "name", "mode", "a", "ab", "abc", "A", "x1", "user-id", "long_name_with_underscores", "prompt2", "plugin", "hide", "help"]
GV = ["", "x", "cli> ", "%U@%H> ", "#", "value with blanks", " lead", "trail ", "a;b", "{}", "<v>", "1", "-5", "0x10", "tree|x", "@ref", "v" * 300, "caf\xc3\xa9", "treename", "tab\there", "a=b", "it's", "*", ".", "a # b", "\\\\n", "/usr/lib:/lib"]
GV.remove("\\\\n")
FL = ["flag", "auth", "local", "act-prekey", "x", "hidden", "hide2", "F", "fl", "flags"]
def gen(rng, i, tier):
    return (glob if rng.random() < .45 else local)(rng, tier)
def glob(rng, tier):
    L = [op("new", 0), op("gvec", 1)]
    names = rng.sample(GN, rng.randint(1, 8)); kw = "treename"
    if rng.random() < .2:
        kw = rng.choice(["tn", "treename2", "tree", "prompt-tree"]); L.append(op("tkw", kw)); names.append("treename")
    cur, plan, trees = {}, [], set()
    on = True
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        if rng.random() < .15:
            on = not on or rng.random() < .3; cur = {}; L.append(op("gvec", int(on)))
        parts, dup = [], rng.random() < .5
        for q in range(rng.choice([0, 1, 2, 4, 8, 12])):
            n, v = rng.choice(names), rng.choice(GV)
            parts.append((n, v))
        stm, body = [], 0
        for n, v in parts:
            r = rng.random()
            if r < .25: stm.append(rng.choice(["c%d, cb();" % body, "c%d <v:string>, cb(\"x\");" % body, "c%d { d; e, cb(); { f; } }" % body, "c%d { k, auth, %s=\"local\"; l; }" % (body, rng.choice(names)), "c%d (x|y), cb();" % body])); body += 1
            elif r < .35: t = "t%d_%d" % (k, body); body += 1; stm.append('%s="%s";' % (kw, t)); trees.add(t)
            elif r < .4: stm.append("# %s=\"no\";\n" % n)
            sp = rng.choice(["", "", " ", "\n", "\t "])
            stm.append('%s%s=%s"%s";' % (n, sp, rng.choice(["", "", " ", "\n"]) if sp else "", v))
        stm.append(rng.choice(["z%d;" % k, "z%d, cb();" % k, "z%d { y; }" % k, ""]))
        text = rng.choice(["\n", " ", "\n\n"]).join(stm)
        if not text.strip(): text = "z;"
        L.append(op("gload", text, "g%d" % k, rng.choice(["f", "s", "s"])))
        for n, v in parts: cur[n] = v
        plan.append((text, dict(cur) if on else None))
    return Case(L, kind="g", plan=plan)
def local(rng, tier):
    deep = rng.random() < .6
    def gr(words=None, types=None):
        p = G.Prof(depth=rng.randint(1, 3), width=rng.choice([2, 3, 5]), vars=rng.choice([.2, .5]), cbs=rng.random() < .5, hide=rng.choice([0, 0, .15]), help=.3, **(dict(words=words) if words else {}))
        g = G.Gen(rng, p).grammar()
        for n in G.walk(g):
            if n.term and rng.random() < .5:
                l = [rng.choice(FL) for _ in range(rng.choice([1, 1, 2, 4]))]
                n.labels = ["=" + (x if rng.random() < .5 or not deep else '%s="%s"' % (x, rng.choice(["", "v", "some text", "1", "a;b", "}", x]))) for x in l]
        if deep: g = [G.N("cmd", "zz%s" % (words or "z")[0][0], ch=g + [G.N("cmd", "zlast", term=True, labels=["=flag", '=x="y"'])])]
        return g
    voc = list(G.WORDS); rng.shuffle(voc)
    g = g0 = gr(voc[:len(voc) // 2])
    L = [op("new", 0)]
    ref = rng.random() < .4
    if ref:
        s = gr(voc[len(voc) // 2:])
        L.append(op("load", G.spec(s, rng), "S"))
        w = G.N("cmd", "zvia"); r = G.N("ref", "S"); r.ref = "S"; r.term = True; w.ch = [r]
        L.append(op("load", G.spec(g + [w], rng), "T")); w = G.N("cmd", "zvia", ch=s)
        g = g + [w]
        L.append(op("active", "T"))
    else: L.append(op("load", G.spec(g, rng), "T"))
    sn = {id(n) for n in G.walk(s)} if ref else set()
    spec = "\n".join(repr(x) for x in L)
    steps, pfx = [], {}
    for l in G.lines(rng, g, 20, junk=False):
        l = " ".join(l.split()) if '"' not in l and "\\" not in l else l
        k = rng.random()
        if k < .1: L.append(op("keys", l.replace("\\", "") + "\t\n", 1))
        elif k < .2: L.append(op("help", l))
        if rng.random() < .2:
            t = rng.choice(["T"] + ["S"] * ref)
            n = rng.choice(list(G.walk(s if t == "S" else g0))); x = rng.choice(["pre", "p", "a longer prefix", "", None])
            if n.word: L.append(op("prefix", t, n.word, x)); pfx = dict(pfx); pfx[t, n.word] = x
        o = "eval" if rng.random() < .5 else "parse"
        L.append(op(o, l)); steps.append((l, pfx))
    ex = []
    if not ref and rng.random() < .5:
        for q in range(rng.randint(1, 2)):
            lb = [rng.choice(FL) for _ in range(rng.choice([0, 1, 2]))]
            lab = ["=" + (x if rng.random() < .5 else '%s="%s"' % (x, rng.choice(["", "v", "text"]))) for x in lb]
            ex.append(("zx%d" % q, "vv%d" % q, lab))
            L.insert(2, op("expset", "exz%d" % q, 0, 3, "one", "two", "three", "", "", ""))
            L.append(op("loadinto", "zx%d { <vv%d:string exz%d()>%s; }" % (q, q, q, "".join(", " + G.lab(x) for x in lab)), "T"))
            L += [op("keys", "zx%d t\t\n" % q, 1), op("parse", "zx%d two" % q)]
    return Case(L, kind="l", g=g, env=dict(caseignore=0), steps=steps, ex=ex, sn=sn, spec=spec)
def want_labels(n):
    out = []
    for x in n.labels:
        a, eq, v = x[1:].partition("=")
        out.append(["string", a, v[1:-1]] if eq else ["int32", a, "1"])
    if n.hide: out.append(["int32", "hide", "1"])
    return out
def got_labels(c): return [[x[1], x[0], x[3] or ""] for x in c or []]
def check(ctx, case, ev):
    if case.kind == "g":
        ls = [e for e in ev if e.get("op") == "gload"]
        for (text, want), e in zip(case.plan, ls):
            if e["rc"] < 0: return ctx.fail("load", "%s\n%s" % (e, text))
            ctx.see("loads"); ctx.see("loads without a vector", want is None)
            if want is None:
                if e["g"]: return ctx.fail("globals", "no vector given: %s" % e)
                continue
            got = [(x[0], x[1], x[3] or "") for x in e["g"] or []]
            exp = [(n, "string", v) for n, v in want.items()]
            ctx.nontrivial(text, len(exp)); ctx.see("global values compared", len(exp))
            if got != exp: return ctx.fail("globals", "after loading\n%s\nexpected %s\ngot %s" % (text, exp, got))
        if len(ls) != len(case.plan): ctx.fail("events", "%d of %d loads" % (len(ls), len(case.plan)))
        if ls: ctx.sample(dict(spec=case.plan[-1][0][:300], globals=ls[-1]["g"]))
        return
    it = iter(ev)
    k, exps = 0, []
    for e in it:
        if e.get("op") in ("load", "loadinto") and e["rc"] != 0: return ctx.fail("load", "%s\n%s" % (e, case.spec))
        if "exp" in e and e["exp"].startswith("exz"): exps.append(e)
        if e.get("op") == "prefix" and (e["bad"] or not e["n"]): return ctx.fail("prefix", str(e))
        if e.get("op") not in ("eval", "parse"): continue
        if k >= len(case.steps):
            q = k - len(case.steps); k += 1
            if q >= len(case.ex): continue
            w, vn, lab = case.ex[q]
            n = G.N("var", vn, "string", labels=lab)
            mine = [x for x in exps if x["exp"] == "exz%d" % q]
            if e["rc"] or e["res"] != 1: return ctx.fail("expansion", "%s\n%s" % (e, case.ex))
            if not mine: return ctx.fail("expansion not called", "%s" % case.ex)
            for x in mine:
                ctx.see("run-time alternative functions asked")
                if got_labels(x.get("mlab")) != want_labels(n) or x.get("mat") != vn: return ctx.fail("object of the function", "variable <%s> with %s, the function finds %s with %s" % (vn, want_labels(n), x.get("mat"), got_labels(x.get("mlab"))))
            if got_labels(e.get("lab")) != want_labels(n): return ctx.fail("labels", "variable <%s>: expected %s got %s" % (vn, want_labels(n), got_labels(e.get("lab"))))
            continue
        line, pfx = case.steps[k]; k += 1
        try: v = G.interp(case.g, line, case.env)
        except G.Gray: ctx.see("left open"); continue
        if v.what != "MATCH" or e["rc"] or e["res"] != 1: ctx.see("no match or verdict differs (C03)"); continue
        n = v.node
        if n.inner or n.orig: ctx.see("left open (choice)"); continue
        got, want = sorted(got_labels(e.get("lab"))), sorted(want_labels(n))
        order = [x for x in got_labels(e.get("lab")) if x[1] != "hide"] == [x for x in want_labels(n) if x[1] != "hide"]
        ctx.see("commands compared"); ctx.see("flags and assignments compared", len(want)); ctx.see("commands without any", not want)
        ctx.nontrivial(case.spec, line)
        if got != want or not order: return ctx.fail("labels", "%r: expected %s got %s\n%s" % (line, want_labels(n), got_labels(e.get("lab")), case.spec))
        if (e["co"], e["coty"]) != (n.word, n.kind): return ctx.fail("object", "%r: %s %s\n%s" % (line, e["co"], n, case.spec))
        x = pfx.get(("S" if id(n) in case.sn else "T", n.word))
        if e.get("pfx") != x: return ctx.fail("prefix", "%r: prefix %r, set %r\n%s" % (line, e.get("pfx"), x, case.spec))
        if x is not None: ctx.see("prefixes found again")
        if (e["help"] or None) != (n.help or None): return ctx.fail("help text", "%r: %r, declared %r\n%s" % (line, e["help"], n.help, case.spec))
    if case.steps: ctx.sample(dict(spec=case.spec[:300], line=case.steps[-1][0]))
