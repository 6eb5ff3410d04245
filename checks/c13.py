"""C13: value texts: accepted exactly when well formed, printed text parses back equal."""
import calendar
from vp import op, Case
import types_ as T
RULE = ("for each of 20 value types, texts generated from the type's own syntax (extremes of every width, near misses, random mutations) parsed "
        "and printed by three printers and bounded prints of several sizes, in 11 local timezones; non-trivial = distinct (type, fraction digits, text) with a definite verdict")
ASSUME = ["texts containing blanks (numbers), single-digit MAC groups, time zones other than Z and a trailing backslash are left open",
          "string types round-trip for values without backslashes"]
N = dict(quick=12000, thorough=400000)
BATCH = 100
TECH = "reference-model monitor over operation log + ASan/UBSan"
PI = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool"]
ZONES = ["XYZ-5", "EST5EDT", "ABC+11:30", "CET-1CEST", "Europe/Moscow", "America/Caracas", "Asia/Kolkata", "Pacific/Apia", "Europe/Stockholm", "America/New_York"]
def gen(rng, i, tier):
    zone = "UTC" if rng.random() < .7 else rng.choice(ZONES)
    L, exp = [op("tz", zone)], []
    for _ in range(12):
        t = rng.choice(T.TYPES)
        n = rng.choice([1, 2, 3, 9, 17, 18, rng.randint(1, 18)]) if t == "decimal64" else 0
        s = T.text(rng, t, n or 2)
        if zone != "UTC" and rng.random() < .4: t, n = "time", 0; s = T.text(rng, t, 2)
        if rng.random() < .06: s = T.text(rng, rng.choice(T.TYPES), 2)
        L.append(op("vt", t, n, s)); exp.append(("vt", t, n, s))
    for _ in range(3):
        t = rng.choice(PI + ["decimal64"])
        n = rng.randint(1, 18)
        s = T.text(rng, t, n)
        L.append(op("pint", "dec%d" % n if t == "decimal64" else t, s)); exp.append(("pint", t, n, s))
    if rng.random() < .05:
        t = rng.choice(list(T.INTS))
        L.append(op("vmax", t, 0)); exp.append(("vmax", t))
    return Case(L, exp=exp, zone=zone)
def acc(t, n, v):
    """what the typed accessors give for judged value v"""
    if t == "decimal64": return dict(av=v, an=n)
    if t == "bool" or t in T.INTS or t in ("string", "rest", "interface"): return dict(av=v)
    if t in ("ipv4addr", "ipv6addr"): return dict(av=v[0].hex(), an=32 if t[3] == "4" else 128)
    if t in ("ipv4prefix", "ipv6prefix"): return dict(av=v[0].hex(), an=v[1])
    if t == "macaddr": return dict(av=v.replace(":", ""))
    if t == "uuid": return dict(av=v.replace("-", ""))
    if t == "time": return dict(av=calendar.timegm(v[0].timetuple()), an=v[1])
    if t == "url": return {"a%d" % i: v[i] for i in range(5)}
    return {}
def check(ctx, case, ev):
    it = iter(ev)
    for x in case.exp:
        e = next(it)
        if x[0] == "vmax":
            lo, hi = T.INTS[x[1]]
            ctx.see("type limits compared")
            if e["max"] != str(hi) or e["maxstr"] != str(hi) or e["maxdup"] != str(hi) or (e["minrc"] == 0 and e["min"] != str(lo)) or e["tname"] != x[1]:
                ctx.fail("limit:%s" % x[1], "%s" % e)
            continue
        _, t, n, s = x
        j = T.judge(t, n, s)
        who = "%s%s %r%s" % (t, "(%d)" % n if t == "decimal64" else "", s, "" if case.zone == "UTC" else " TZ=%s" % case.zone)
        if x[0] == "pint":
            if j is None: continue
            ctx.see("number parses compared")
            if (e["rc"] == 1) != j[0] or e["rc"] < 0:
                ctx.fail("pverdict:%s" % t, "%s: parse function gave %s, expected %s" % (who, e, j))
            elif j[0] and e["v"] != j[2]:
                ctx.fail("pvalue:%s" % t, "%s: %s, expected %s" % (who, e, j))
            elif not j[0] and not e["reason"]:
                ctx.fail("reason:%s" % t, "%s rejected without a reason" % who)
            continue
        e2 = next(it)
        ctx.see("values judged" if j is not None else "values left open")
        if (e["rc"] > 0) != (e2["rc"] == 0):
            ctx.fail("parse-variants:%s" % t, "%s: cv_parse1 %s, cv_parse %s" % (who, e["rc"], e2["rc"]))
        if e["rc"] < 0:
            ctx.fail("parse-error:%s" % t, "%s: %s" % (who, e)); continue
        for k in ("unterminated", "badprefix", "short") + tuple(k for k in e if k.startswith("cv2str")):
            if k in e: ctx.fail("bounded-print:%s" % t, "%s: %s" % (who, e))
        if j is not None:
            if (e["rc"] == 1) != j[0]:
                ctx.fail("verdict:%s" % t, "%s: %s, expected %s" % (who, "accepted as %r" % e.get("s") if e["rc"] else "rejected: %s" % e["reason"], j))
                continue
            ctx.nontrivial(t, n, s); ctx.see("type %s" % t)
            if t == "time" and case.zone != "UTC": ctx.see("times in another local timezone")
            ctx.see("accepted" if j[0] else "rejected")
        if not e["rc"]:
            if not e["reason"]: ctx.fail("reason:%s" % t, "%s rejected without a reason" % who)
            continue
        if e["reason"]: ctx.fail("reason:%s" % t, "%s accepted with a reason" % who)
        pr = e["pr"]
        if t in ("string", "rest", "interface") and pr is not None and pr[:1] == '"' and pr[-1:] == '"': pr = pr[1:-1]
        if e["s"] != e["cb"] or e["s"] != pr:
            ctx.fail("printers-differ:%s" % t, "%s: %s" % (who, e))
        if j is not None and e["s"] != j[1]:
            ctx.fail("print:%s" % t, "%s printed as %r, expected %r" % (who, e["s"], j[1]))
        if j is not None:
            w = acc(t, n, j[2])
            g = {k: e.get(k) for k in w}
            if g != w: ctx.fail("accessor:%s" % t, "%s: the accessors give %s, expected %s" % (who, g, w))
        if e["vs"] != e["s"] or e["vcmp"] != 0:
            ctx.fail("setters:%s" % t, "%s: a value made with the typed setters is %r, compare %s" % (who, e["vs"], e["vcmp"]))
        if t in ("string", "rest") and "\\" in e["s"]: continue
        if t == "url" and s.count("@") > 1: continue
        if e.get("rt") != 1 or e.get("cmp") != 0 or e.get("s2") != e["s"]:
            ctx.fail("roundtrip:%s" % t, "%s: %s" % (who, e))
        ctx.sample(dict(type=t, text=s, printed=e["s"]))
