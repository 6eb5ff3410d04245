"""C14: comparison is a consistent order; copies are equal and independent."""
from vp import op, Case
import types_ as T
RULE = ("groups of 3-8 values of one type (extremes, neighbours, duplicates, random) compared pairwise in both directions; then copied/duplicated with "
        "names, flags and const marks while the source is changed, reset and freed; one case in twelve compares values of several types; non-trivial = distinct unordered pair of texts of one type")
ASSUME = ["decimals compared have the same number of fraction digits (the documented precondition of cv_cmp)",
          "for addresses, prefixes, MAC, UUID and URL only consistency is required of the order, not a particular order"]
N = dict(quick=6000, thorough=250000)
BATCH = 100
TECH = "order-axiom and copy-isolation monitor over operation log + ASan/UBSan"
TY = T.TYPES + ["void", "empty", "int32", "int64", "uint32", "uint64", "decimal64", "time"]
NAMES = [None, "a", "x", "long-name with blanks", ""]
LAST = {}
def setv(rng, L, r, t, n, near=None):
    """emit ops giving register r a value; return its key (None = unset)"""
    if t in T.INTS and rng.random() < .7:
        lo, hi = T.INTS[t]
        v = rng.choice([lo, hi, lo+1, hi-1, 0, 1, 2, hi//2, hi//2+1, hi//2+2, rng.randint(lo, hi)] + ([-1, -2, lo//2, lo//2-1] if lo else []))
        if near is not None and rng.random() < .4: v = max(lo, min(hi, near + rng.choice([-1, 0, 1, 2**31, -2**31, 2**32, -2**32])))
        L.append(op("vint", r, str(v))); return v
    if t == "decimal64" and rng.random() < .7:
        v = rng.choice([-2**63, 2**63-1, 0, 1, -1, rng.randint(-2**63, 2**63-1), rng.randint(-1000, 1000), 2**32, -2**32, 2**31])
        if near is not None and rng.random() < .4: v = max(-2**63, min(2**63-1, near + rng.choice([-1, 0, 1, 2**31, 2**32, -2**32, 2**33])))
        L.append(op("vdeci", r, str(v))); return v
    if t == "time" and rng.random() < .8:
        s = rng.choice([0, 1, 255, 256, 257, 65535, 65536, 2**31-1, 2**31, 2**32-1, rng.randint(0, 2**32)])
        u = rng.choice([0, 1, 255, 256, 999999, rng.randint(0, 999999)])
        if near is not None and rng.random() < .5: s, u = near[0], rng.choice([near[1], 0, 256, 1, 999999])
        L.append(op("vtime", r, s, u)); return (s, u)
    if t == "void":
        v = rng.choice([0, 8, 16, 4096, rng.randint(0, 9)]); L.append(op("vvoid", r, v)); return v
    if t == "empty": return 0
    s = None
    if LAST.get("t") == t and rng.random() < .5:      # differs from the value before in one place
        for _ in range(12):
            s = LAST["s"]; p = rng.randrange(len(s)) if s else 0
            s = s[:p] + rng.choice("0123456789abcdefxyz:./@-Z") + s[p+1:]
            j = T.judge(t, n, s)
            if j and j[0] and s != LAST["s"]: break
            s = None
    if s is None: s = T.good(rng, t, n)
    LAST.update(t=t, s=s)
    k = T.judge(t, n, s)
    L.append(op("vparse", r, s))
    if t == "time":
        import datetime, calendar
        dt, us = k[2]
        return (calendar.timegm(dt.timetuple()), us)
    return k[2]
def gen(rng, i, tier):
    L, exp = [], []
    LAST.clear()
    if i % 12 == 7:                 # values of different types: an order over all of them
        k = rng.randint(3, 9)
        few = rng.sample(TY, rng.randint(2, 4)) + rng.choice([[], ["string", "rest", "interface"]])
        n = rng.randint(1, 18)
        ts = [rng.choice(few) for _ in range(k)]
        keys = []
        for r, t in enumerate(ts):
            L.append(op("vnew", r, t))
            if t == "decimal64": L.append(op("vdecn", r, n))
            keys.append(setv(rng, L, r, t, n if t == "decimal64" else 0))
        L.append(op("vcmpall", k)); exp.append(("mix", ts, keys))
        return Case(L, exp=exp)
    t = rng.choice(TY)
    n = rng.randint(1, 18) if t == "decimal64" else 0
    k = rng.randint(3, 8)
    keys = []
    for r in range(k):
        L.append(op("vnew", r, t))
        if n: L.append(op("vdecn", r, n))
        near = keys[-1] if keys and isinstance(keys[-1], (int, tuple)) and t in list(T.INTS) + ["decimal64", "time"] else None
        if keys and rng.random() < .2:
            L.append(op("vdup", r, r-1)); keys.append(keys[-1])
        else:
            keys.append(setv(rng, L, r, t, n, near))
    L.append(op("vcmpall", k)); exp.append(("all", t, list(keys)))
    carry = {}
    # copies
    for c in range(rng.randint(1, 3)):
        src, dst = rng.randrange(k), 20 + c
        nm = rng.choice(NAMES)
        cst = rng.choice([0, 1])
        L.append(op("vname", src, nm)); L.append(op("vconst", src, cst))
        seq = []
        for _ in range(rng.randint(0, 5)):
            m = rng.choice([1, 2, 4, 8, 3, 64, 5])
            if rng.random() < .6: L.append(op("vflag", src, "s", m)); seq.append(("s", m))
            else: L.append(op("vflag", src, "c", m)); seq.append(("c", m))
        seq = carry.get(src, []) + seq; carry[src] = seq
        exp.append(("flags", src, dst, nm, cst, seq, t))
        L.append(op("vget", src))
        if rng.random() < .5:
            L.append(op("vdup", dst, src))
        else:
            L.append(op("vnew", dst, t)); L.append(op("vcp", dst, src))
        L.append(op("vget", dst))
        L.append(op("vcmp", src, dst)); L.append(op("vcmp", dst, src))
        # change or release the source, then the copy must read the same
        m = rng.randrange(5)
        if m == 0: setv(rng, L, src, t, n); L.append(op("vname", src, "other")); L.append(op("vflag", src, "s", 127))
        elif m == 1: L.append(op("vreset", src))
        elif m == 2: L.append(op("vfree", src))
        elif m == 3 and t in ("string", "rest", "interface"):
            L.append(rng.choice([op("vstr", src, "changed"), op("vstrn", src, "changed too", 4), op("vstrdirect", src, "zz")]))
        elif m == 3 and t == "url":
            L.append(op("vurl", src, rng.choice(["proto", "addr", "path", "user", "passwd"]), "chg"))
        else: L.append(op("vname", src, "n2"))
        L.append(op("vget", dst))
        # and the other way round: releasing a copy of the copy leaves it alone
        L.append(op("vdup", 30, dst)); L.append(op("vfree", 30)); L.append(op("vget", dst))
        if m in (0, 1, 2, 3):       # source is no longer usable for the next round
            L.append(op("vnew", src, t)); carry.pop(src, None)
            if n: L.append(op("vdecn", src, n))
            keys[src] = setv(rng, L, src, t, n)
    return Case(L, exp=exp)
NUM = set(T.INTS) | {"decimal64", "time", "bool", "string", "rest", "interface"}
def sg(a, b):
    if isinstance(a, str): a, b = a.encode("latin-1"), b.encode("latin-1")
    return (a > b) - (a < b)
def check(ctx, case, ev):
    it = iter([e for e in ev if e.get("op") != "vparse"])
    for e in ev:
        if e.get("op") == "vparse" and e["rc"] != 1: ctx.fail("setup-parse", "%s" % e)
    for x in case.exp:
        if x[0] == "mix":
            _, ts, keys = x
            e = next(it)
            while e["op"] != "vcmpall": e = next(it)
            m = e["m"]; k = len(keys)
            M = [m[a*k:(a+1)*k] for a in range(k)]
            text = ("string", "rest", "interface")
            for a in range(k):
                for b in range(k):
                    who = "%s %r vs %s %r gave %d" % (ts[a], keys[a], ts[b], keys[b], M[a][b])
                    both = ts[a] in text and ts[b] in text
                    ctx.see("comparisons across types judged" if ts[a] != ts[b] else "comparisons judged")
                    if M[a][b] != -M[b][a]: ctx.fail("antisymmetry:mixed", who + ", reversed %d" % M[b][a])
                    if (M[a][b] == 0) != ((ts[a] == ts[b] or both) and keys[a] == keys[b]): ctx.fail("equality:mixed", who)
                    if both and M[a][b] != sg(keys[a], keys[b]): ctx.fail("order:mixed", who)
                    for c in range(k):
                        if M[a][b] <= 0 and M[b][c] <= 0 and M[a][c] > 0: ctx.fail("transitivity:mixed", "%s %r %s %r %s %r" % (ts[a], keys[a], ts[b], keys[b], ts[c], keys[c]))
            continue
        if x[0] == "all":
            _, t, keys = x
            e = next(it)
            while e["op"] != "vcmpall": e = next(it)
            m = e["m"]; k = len(keys)
            M = [m[a*k:(a+1)*k] for a in range(k)]
            for a in range(k):
                for b in range(k):
                    ctx.see("comparisons judged")
                    if a < b: ctx.nontrivial(t, str(keys[a]), str(keys[b]))
                    who = "%s: %r vs %r gave %d" % (t, keys[a], keys[b], M[a][b])
                    if M[a][b] != -M[b][a]: ctx.fail("antisymmetry:%s" % t, who + ", reversed %d" % M[b][a])
                    if (M[a][b] == 0) != (keys[a] == keys[b]): ctx.fail("equality:%s" % t, who)
                    if t in NUM and M[a][b] != sg(keys[a], keys[b]): ctx.fail("order:%s" % t, who)
                    for c in range(k):
                        if M[a][b] <= 0 and M[b][c] <= 0 and M[a][c] > 0: ctx.fail("transitivity:%s" % t, "%r %r %r" % (keys[a], keys[b], keys[c]))
            ctx.sample(dict(type=t, keys=[str(q) for q in keys[:4]]))
            continue
        _, src, dst, nm, cst, seq, t = x
        g = next(it); e = next(it)
        if e["op"] in ("vdup", "vcp"):
            if e.get("ok", 1) != 1 or e.get("rc", 0) != 0: ctx.fail("copy-failed", "%s" % e)
            d1 = next(it)
        else: ctx.fail("log-shape", "%s" % e); return
        c1, c2, d2 = next(it), next(it), next(it)
        nx = next(it)                    # dup 30
        d3 = next(it)
        ctx.see("copies judged"); ctx.see("type %s" % t)
        fl = 0
        for w, m in seq: fl = fl | m if w == "s" else fl & ~m
        want = "".join("1" if fl & (1 << b) else "0" for b in range(7))
        if g["flags"] != want: ctx.fail("flags", "%s after %s" % (g["flags"], seq))
        if g["name"] != nm or g["const"] != cst: ctx.fail("name-const", "%s set %r %r" % (g, nm, cst))
        strip = lambda d: {k: v for k, v in d.items()}
        if strip(g) != strip(d1): ctx.fail("copy-differs:%s" % t, "%s copied as %s" % (g, d1))
        if c1["c"] or c2["c"]: ctx.fail("copy-unequal:%s" % t, "%s" % g)
        if strip(d1) != strip(d2): ctx.fail("copy-dependent:%s" % t, "%s became %s" % (d1, d2))
        if strip(d1) != strip(d3): ctx.fail("copy-dependent2:%s" % t, "%s became %s" % (d1, d3))
