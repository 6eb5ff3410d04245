"""C06: range and length limits."""
from vp import op, Case
import re
import gram as G, types_ as T
RULE = ("variables of every integer type, decimal64 (1-18 fraction digits), string and rest with one to six intervals (open lower ends, type extremes, single values, overlapping, unordered) x words at, "
        "next to and far from every bound in all number notations; non-trivial = distinct (specification, word) decided by the interval oracle")
ASSUME = ["word formats are those of C13"]
N = dict(quick=6000, thorough=150000)
BATCH = 40
TECH = "arbitrary-precision interval oracle over match events + ASan/UBSan"
def gen(rng, i, tier):
    t = rng.choice(list(T.INTS) + ["decimal64", "decimal64", "string", "rest"])
    n = G.N("var", "v", t); n.n = rng.randint(1, 18) if t == "decimal64" else 2
    lo, hi = T.INTS.get(t, (-2**63, 2**63 - 1) if t == "decimal64" else (0, rng.choice([40, 40, 40, 300, 1000])))
    def pt():
        return rng.choice([lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.choice([0, 1, -1, 127, 128, 255, 256, 2**31 - 1, -2**31, 2**32, 2**63 - 1, 2**63, 10**18]))), max(lo, min(hi, rng.randint(-500, 500)))])
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        a, b = sorted((pt(), pt()))
        if rng.random() < .15: b = a
        if rng.random() < .2: a = lo
        n.rng.append((a, b))
    n.full = rng.random() < .5
    n.plus = rng.random() < .1
    if t in ("string", "rest") and rng.random() < .3: n.regex = [(r, v) for r, v in [("[^@]*", 0), (".*", 0), ("@+", 1)] if rng.random() < .6]
    sp = "k %s, cb();" % text(n, lo)
    ws = set()
    for _ in range(30):
        if t in ("string", "rest"):
            b = rng.choice(rng.choice(n.rng)) + rng.choice([-1, 0, 1]) if rng.random() < .8 else rng.randint(0, 50 if hi == 40 else hi + 300)
            w = "".join(rng.choice("abcXYZ019_-./") for _ in range(max(1, b)))
            if t == "rest" and b > 2 and rng.random() < .5: w = w[0] + " " + w[2:]
            elif rng.random() < .1 and t == "string": w = '"' + w[:1] + " " * max(0, b - 1) + '"'
        else:
            v = rng.choice(rng.choice(n.rng)) + rng.choice([-1, 0, 0, 1, rng.randint(-10, 10)]) if rng.random() < .7 else pt() + rng.choice([-1, 0, 1])
            if rng.random() < .1: v += rng.choice([2**32, -2**32, 2**64, -2**64, 2**16, 256])
            w = T.dec_print(v, n.n) if t == "decimal64" else T.fmt_int(rng, v)
            if t == "decimal64" and rng.random() < .3: w = w.rstrip("0")
            if rng.random() < .04: w = T.mutate(rng, w, "0123456789-+.xa") or "0"
        ws.add(w)
    ws = sorted(ws)
    L = [op("new", 0), op("load", sp, None)] + [op("eval", "k " + w) for w in ws]
    return Case(L, n=n, ws=ws, spec=sp)
def text(n, lo):
    n2 = G.N("", ""); n2.__dict__.update(n.__dict__)
    o = "<v:%s" % n.typ
    if n.typ == "decimal64": o += " fraction-digits:%d" % n.n
    k = "length" if n.typ in ("string", "rest") else "range"
    f = (lambda v: T.dec_print(v, n.n)) if n.typ == "decimal64" else str
    f0 = f
    if getattr(n, "plus", 0): f = lambda v: ("+" if v >= 0 else "") + f0(v)
    for a, b in n.rng:
        o += " %s[%s]" % (k, f(b)) if a == lo and not n.full else " %s[%s:%s]" % (k, f(a), f(b))
    for r, v in n.regex: o += ' regexp:%s"%s"' % ("!" if v else "", r)
    return o + ">"
def check(ctx, case, ev):
    it = iter(ev); next(it); e = next(it)
    if e["rc"] != 0: ctx.fail("load", "%s %s" % (case.spec, e)); return
    n, k, cb = case.n, 0, 0
    for e in it:
        if "cb" in e: cb += 1; val = e["cvv"][-1]
        if e.get("op") != "eval": continue
        w, c, cb = case.ws[k], cb, 0; k += 1
        tok = w[1:-1] if w[:1] == '"' else w
        try: ok, can = G.fits(n, tok)
        except G.Gray: ctx.see("left open"); continue
        ctx.nontrivial(case.spec, w); ctx.see("%s %s" % (n.typ, "inside" if ok else "rejected"))
        who = "%s word %r: %s" % (case.spec, w, e)
        if ok:
            if e["rc"] or e["res"] != 1: ctx.fail("rejected-inside:" + n.typ, who)
            elif c != 1 or val[3] != can: ctx.fail("value:" + n.typ, who + " expected %s" % can)
        else:
            if e["rc"] or e["res"] != 0: ctx.fail("accepted-outside:" + n.typ, who)
            elif not e["reason"] or e["reason"] in ("Unknown command",): ctx.fail("reason:" + n.typ, who)
            else:
                # limits that are told are the declared ones (or those of the type), and the value told is the one given
                m = re.search(r"^(.*?) out of range: ?(.*)$", e["reason"] or "", re.S)
                if m:
                    f = (lambda v: T.dec_print(v, n.n)) if n.typ == "decimal64" else str
                    own = [(f(a), f(b)) for a, b in n.rng]
                    lo = str(T.INTS[n.typ][0]) if n.typ in T.INTS else "0" if n.typ != "decimal64" else f(-2**63)
                    typ = [[tuple(map(str, T.INTS[n.typ]))], [("-" + str(2**63), str(2**63 - 1))], [("0", str(2**64 - 1))]] if n.typ in T.INTS else []
                    got = [tuple(x.split(" - ")) for x in m.group(2).split(", ")]
                    if n.typ == "decimal64": typ = [[(str(-2**63), str(2**63 - 1))]]
                    # (an open lower end is shown empty)
                    got = [(g[0] or lo if g[0] == "" and not n.full and o[0] == lo else g[0],) + g[1:] for g, o in zip(got, own + [own[-1]] * len(got))] if len(got) == len(own) else got
                    if got != own and got not in typ: ctx.fail("limits told:" + n.typ, who + " expected " + str(own))
                    shown = m.group(1).split(" ")[-1]
                    if n.typ in ("string", "rest"): good = shown == str(len(tok))
                    else: good = shown == tok or shown == (T.dec_print(T.dec_parse(tok, n.n), n.n) if n.typ == "decimal64" else str(T.intval(tok)))
                    if got == own and not good: ctx.fail("value told:" + n.typ, who + " expected " + str(can))
                    ctx.see("limits told")
                elif n.typ in T.INTS and tok not in e["reason"]: ctx.fail("reason without the word:" + n.typ, who)
            if c: ctx.fail("callback:" + n.typ, who)
    if k != len(case.ws): ctx.fail("lines", "unanswered lines")
    ctx.sample(dict(spec=case.spec, words=case.ws[:6]))
