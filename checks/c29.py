"""C29: regular-expression limits constrain the whole value."""
from vp import op, Case
import re
RULE = ("random expressions (literals, escaped metacharacters, classes, negated classes, alternation, groups, * + ? and bounded repetition, own anchors in the POSIX dialect), one to three per variable, plain and "
        "inverted, in both dialects, x words generated from the expression, extended, truncated and mutated; non-trivial = distinct (dialect, expressions, word) decided by the oracle")
ASSUME = ["words on which the XML-schema library called directly differs from the language definition are its own defects and not judged", "the specification language cannot express a string ending in a backslash", "back-references, collating elements and words outside ASCII are not generated for the membership oracle"]
N = dict(quick=4000, thorough=100000)
BATCH = 40
TECH = "independent regular-language oracle over match and compile events + ASan/UBSan"
AL = "abcdxyz0159"
META = r".*+?()[]{}|\^$"
def rxx(rng):
    """XML-schema dialect: flat, since the library doing it has known defects with nested repetition"""
    ps = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .3:
            a = [cat([rx(rng, 0, True) for _ in range(rng.randint(1, 2))]) for _ in range(rng.randint(2, 3))]
            ps.append(grp(("|".join(q[0] for q in a), "|".join(q[1] for q in a), lambda a=a: rng.choice(a)[2]()))); continue
        q = rx(rng, 0, True)
        if len(q[0]) == 1 or q[0][0] in "[\\":
            r = rng.random()
            if r < .2: q = (q[0] + "*", q[1] + "*", lambda s=q[2]: "".join(s() for _ in range(rng.randint(0, 3))))
            elif r < .4: q = (q[0] + "+", q[1] + "+", lambda s=q[2]: "".join(s() for _ in range(rng.randint(1, 3))))
            elif r < .5: q = (q[0] + "?", q[1] + "?", lambda s=q[2]: s() if rng.random() < .5 else "")
        ps.append(q)
    return cat(ps)
def cat(p): return "".join(q[0] for q in p), "".join(q[1] for q in p), lambda: "".join(q[2]() for q in p)
def rx(rng, d, x):
    """-> (dialect text, python text, sampler)"""
    k = rng.randrange(9) if d > 0 else rng.randrange(4)
    if k <= 1:
        c = rng.choice(AL + "-_/:%")
        return c, re.escape(c), lambda: c
    if k == 2:
        r = rng.random()
        if r < .25: return ".", "[^\\n\\r]" if x else ".", lambda: rng.choice(AL + "-./")
        if r < .6:
            c = rng.choice(".*+?()[]{}|\\" + ("" if x else "^$"))
            return "\\" + c, re.escape(c), lambda: c
        neg = rng.random() < .4
        a, b = sorted(rng.sample("abcdxyz", 2))
        t = "[%s%s-%s%s]" % ("^" if neg else "", a, b, rng.choice(["", "0-9", "_"]))
        py = t
        if not x and rng.random() < .2:      # a bracket that stands first is itself a member
            o = rng.choice(["", "[", "("]); t, py = t.replace("^", "").replace("[", "[^]" + o if neg else "[]" + o, 1), t.replace("^", "").replace("[", "[^\\]" + o.replace("[", "\\[") if neg else "[\\]" + o.replace("[", "\\["), 1)
        def s():
            for _ in range(50):
                c = rng.choice(AL + "_" + ("])" if py != t else ""))
                if re.fullmatch(py, c): return c
            return "q"
        return t, py, s
    if k == 3: 
        w = "".join(rng.choice(AL) for _ in range(rng.randint(1, 4)))
        return w, w, lambda: w
    if k in (4, 5):
        p = [rx(rng, d - 1, x) for _ in range(rng.randint(2, 3))]
        p = [grp(q) if "|" in q[0] else q for q in p]
        return "".join(q[0] for q in p), "".join(q[1] for q in p), lambda: "".join(q[2]() for q in p)
    if k == 6:
        p = [rx(rng, d - 1, x) for _ in range(rng.randint(2, 3))]
        t = ("|".join(q[0] for q in p), "|".join(q[1] for q in p), lambda: rng.choice(p)[2]())
        return t if rng.random() < .4 else grp(t)
    q = grp(rx(rng, d - 1, x))
    k = rng.randrange(5)
    if k == 0: return q[0] + "*", q[1] + "*", lambda: "".join(q[2]() for _ in range(rng.randint(0, 3)))
    if k == 1: return q[0] + "+", q[1] + "+", lambda: "".join(q[2]() for _ in range(rng.randint(1, 3)))
    if k == 2: return q[0] + "?", q[1] + "?", lambda: q[2]() if rng.random() < .5 else ""
    m = rng.randint(0, 3); n = m + rng.randint(0, 2) or 1
    t = "{%d,%d}" % (m, n) if k == 3 else "{%d}" % n
    return q[0] + t, q[1] + t, lambda: "".join(q[2]() for _ in range(n))
def grp(q): return "(" + q[0] + ")", "(?:" + q[1] + ")", q[2]
BADP = ["(", "a(b", "[a", "a{2,1}", "*)(", "a)b|(c", "x[z-a]", "(a", "a**{1,0}", "[[:foo:]]", "a)|(b", "(()"]
BADX = ["(", "a(b", "[a", "a)", "(a", "[z-a]", "\\", "a)|(b"]
def gen(rng, i, tier):
    x = rng.random() < .45
    rs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        t, py, s = rxx(rng) if x and rng.random() < .6 else rx(rng, rng.randint(1, 3), x)
        if t.endswith('\\'): t, py, s = cat([(t, py, s), ('a', 'a', lambda: 'a')])
        inv = rng.random() < .25
        if not x and rng.random() < .3:           # the expression brings anchors of its own
            if "|" in t: t, py, s = grp((t, py, s))
            a = rng.randrange(3)
            t = ("^" if a != 1 else "") + t + ("$" if a != 0 else "")
        rs.append((t, py, inv, s))
    t, py, inv, s = rs[0]
    ws = set()
    for _ in range(14):
        try: w = rng.choice(rs)[3]()
        except Exception: w = "a"
        k = rng.randrange(7)
        if k == 0: w += rng.choice(AL)
        elif k == 1: w = rng.choice(AL) + w
        elif k == 2 and w: w = w[:-1]
        elif k == 3 and w: w = w[1:]
        elif k == 4: w = w + w
        elif k == 5 and w: p = rng.randrange(len(w)); w = w[:p] + rng.choice(AL) + w[p+1:]
        if len(w) <= 60: ws.add(w)
    ws = sorted(ws)
    L = [op("new", 0)]
    if x: L.append(op("opt", "regex_xsd", 1))
    typ = rng.choice(["string", "string", "rest"])
    ln = (0, 99) if rng.random() < .7 else tuple(sorted((rng.randint(0, 8), rng.randint(0, 12))))
    sp = "k <v:%s%s %s>, cb();" % (typ, "" if ln == (0, 99) else " length[%d:%d]" % ln, " ".join('regexp:%s"%s"' % ("!" if v else "", t.replace('"', '\\"')) for t, p, v, s in rs))
    L.append(op("load", sp, None))
    cw = [w for w in ws if w and not any(c in w for c in ' "\\\t')]
    for w in cw: L.append(op("eval", "k " + w))
    for t, py, inv, s in rs:
        if x: L.append(op("rxref", t, *ws))
        L.append(op("re", t, int(inv), *ws)); L.append(op("rec", t, "x" if x else "p", *ws))
    bad = rng.choice(BADX if x else BADP)
    L.append(op("rec", bad, "x" if x else "p", "a", "ab", "b"))
    L.append(op("re", bad, 0, "a", "ab", "b"))
    if rng.random() < .2:
        L += [op("load", 'u <v:string regexp:".*x">, cb();', "t2"), op("active", "t2"), op("eval", "u \xe5x"), op("eval", "u \xff\xfe"), op("eval", "u x")]
    return Case(L, rs=[(t, p, v) for t, p, v, s in rs], ws=ws, cw=cw, x=x, spec=sp, bad=bad, ln=ln)
def m(py, w): return bool(re.fullmatch(py, w, re.S))
def check(ctx, case, ev):
    it = iter(ev); next(it); e = next(it)
    if e["op"] == "opt": e = next(it)
    if e["rc"] != 0: ctx.fail("load", "%s %s" % (case.spec, e)); return
    k = 0; j = 0; late = False
    d = "xsd" if case.x else "posix"
    cb = 0; nre = nrec = 0
    odd = set()
    for e in ev:
        if e.get("op") == "rxref":
            t, p, v = case.rs[case.__dict__.setdefault("_r", 0)]
            case._r += 1
            odd |= {w for w, r in zip(case.ws, e["m"]) if bool(r) != m(p, w)}
    case._r = 0
    if odd: ctx.see("words the XML library itself gets wrong", len(odd))
    for e in it:
        if "cb" in e: cb += 1
        if e.get("op") == "load": late = True
        if e.get("op") == "eval" and late:
            ctx.see("non-ASCII words")
            if e["rc"] < 0: ctx.fail("fatal:" + d, "a word outside ASCII is a fatal error: %s" % e)
        elif e.get("op") == "eval":
            w = case.cw[k]; k += 1; c, cb = cb, 0
            if w in odd: continue
            want = all(m(p, w) != v for t, p, v in case.rs) and case.ln[0] <= len(w.encode('latin-1')) <= case.ln[1]
            ctx.nontrivial(d, case.spec, w); ctx.see("%s word %s" % (d, "fits" if want else "refused"))
            who = "%s word %r expected %s: %s" % (case.spec, w, want, e)
            if e["rc"] or e["res"] != int(want) or c != int(want): ctx.fail("match:" + d, who)
            elif not want and not e["reason"]: ctx.fail("reason:" + d, who)
            ctx.sample(dict(spec=case.spec, word=w, fits=want))
        elif e.get("op") == "re":
            if nre < len(case.rs):
                t, p, v = case.rs[nre]
                for w, r in zip(case.ws, e["m"]):
                    if w in odd: continue
                    if r != int(m(p, w) != bool(v)): ctx.fail("api:" + d, "match_regexp %r invert=%d on %r gives %d" % (t, v, w, r))
            elif any(e["m"]): ctx.fail("invalid:" + d, "invalid expression %r matches: %s" % (case.bad, e))
            nre += 1
        elif e.get("op") == "rec":
            if nrec < len(case.rs):
                t, p, v = case.rs[nrec]
                if e["rc"] != 1: ctx.fail("compile:" + d, "%r: %s" % (t, e)); nrec += 1; continue
                for w, r in zip(case.ws, e["m"]):
                    if w in odd: continue
                    ctx.see("compiled expression applied")
                    if r != int(m(p, w)): ctx.fail("exec:" + d, "%r on %r gives %d" % (t, w, r))
            else:
                ctx.see("invalid expressions")
                if e["rc"] != 0: ctx.fail("invalid-compiles:" + d, "%r compiles: %s" % (case.bad, e))
            nrec += 1
    if k != len(case.cw) or nrec != len(case.rs) + 1: ctx.fail("lines", "unanswered")
