"""C15: value vector against a Python list."""
from vp import op, Case
RULE = ("random operation histories (add, append a copy, delete by entry/index incl. out of range and foreign entries, find, "
        "constant marks, rename, duplicate, reset, keyword exclusion, first-word expansion) on several vectors, full dump compared after each; "
        "non-trivial = distinct (operation, vector length, outcome)")
ASSUME = ["values are strings (also empty), small integers and no value here; other types are covered by C13/C14"]
N = dict(quick=2000, thorough=50000)
TECH = "reference-model monitor over operation log + ASan/UBSan"
NAMES = [None, "a", "b", "ab", "cmd", "x"]
STR = ("string", "rest", "interface")
class E:
    __slots__ = ("name", "typ", "const", "val")
    def __init__(s, name, typ, const, val): s.name, s.typ, s.const, s.val = name, typ, const, val
    def cp(s): return E(s.name, s.typ, s.const, s.val)
    def t(s): return [s.name, s.typ, s.const, s.val]
def dump(L, exp, i, vec, cname, tag):
    L.append(op("cdump", i)); exp.append(("dump", tag, [e.t() for e in vec], cname))
def gen(rng, i, tier):
    L, exp = [], []
    vecs, cn = {}, {}
    uid = 0
    nv = rng.randint(1, 3)
    if rng.random() < .3:       # lines of a text
        ls = ["".join(rng.choice(["a", "bc", " ", "\t", "x y", "\"", "."]) for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(0, 5))]
        end = rng.random() < .5
        L.append(op("ctxt", "\n".join(ls) + ("\n" if end and ls else "")))
        w = [l.lstrip(" \t") for l in ls]
        if w and not end and not w[-1]: w.pop()
        exp.append(("txt", w))
    for k in range(nv):
        vecs[k] = []; cn[k] = None
        L.append(op("cnew", k, 0))
    def val(t):
        nonlocal uid
        uid += 1
        return str(uid % 120) if t not in STR else "v%d" % uid
    for _ in range(rng.randint(5, 40)):
        k = rng.randrange(nv); v = vecs[k]; r = rng.random()
        if r < 0.25:
            t = rng.choice(["string", "int8", "uint32", "int64", "string", "rest", "interface", "empty"]); n = rng.choice(NAMES); x = val(t) if t != "empty" else ""
            L.append(op("cadd", k, t, n, x if t != "empty" else None)); v.append(E(n, t, 0, x))
            exp.append(("add", len(v) - 1)); tag = "add"
        elif r < 0.33:
            n = rng.choice(NAMES); x = val("string")
            L.append(op("caddstr", k, n, x)); v.append(E(n, "string", 0, x)); exp.append(("rc", 0)); tag = "addstr"
        elif r < 0.43:
            s = rng.randrange(nv)
            if not vecs[s]: continue
            ix = rng.randrange(len(vecs[s]))
            c = vecs[s][ix].cp(); v.append(c)
            L.append(op("cappend", k, s, ix)); exp.append(("ix", len(v) - 1)); tag = "append"
        elif r < 0.50:
            ix = rng.choice([0, len(v) - 1, rng.randint(0, max(len(v), 1))])
            L.append(op("cdel", k, ix))
            if 0 <= ix < len(v): del v[ix]
            exp.append(("n", len(v))); tag = "del"
        elif r < 0.53:
            L.append(op("cdelforeign", k)); exp.append(("n", len(v))); tag = "delforeign"
        elif r < 0.62:
            ix = rng.choice([0, len(v) - 1, len(v), len(v) + 1, len(v) + 5, -1, -2, rng.randint(0, len(v) + 1)])
            if ix == -1 and False: pass
            L.append(op("cdeli", k, ix))
            if 0 <= ix < len(v):
                del v[ix]; exp.append(("n", len(v)))
            else:
                exp.append(("n", -1))
            tag = "deli"
        elif r < 0.70:
            ix = rng.choice([-1, -3, len(v), len(v) + 3, rng.randint(0, len(v) + 1), 0])
            L.append(op("ci", k, ix))
            exp.append(("i", v[ix].t() if 0 <= ix < len(v) else None)); tag = "i"
        elif r < 0.78:
            n = rng.choice(NAMES)
            L.append(op("cfind", k, n))
            any_ = next((j for j, e in enumerate(v) if e.name == n), -1)
            key = next((j for j, e in enumerate(v) if e.name == n and e.const), -1)
            var = next((j for j, e in enumerate(v) if e.name == n and not e.const), -1)
            st = v[any_].val if any_ >= 0 and v[any_].typ in STR else None
            exp.append(("find", n, any_, key, var, st)); tag = "find"
        elif r < 0.84:
            if not v: continue
            ix = rng.randrange(len(v)); c = rng.choice([0, 0, 1, 1, 2, 100])
            L.append(op("cconst", k, ix, c)); v[ix].const = c; tag = "const"
        elif r < 0.87:
            if not v: continue
            ix = rng.randrange(len(v))
            if v[ix].typ == "empty": continue
            x = val(v[ix].typ)
            L.append(op("cset", k, ix, x)); v[ix].val = x; exp.append(("rc", 0)); tag = "set"
        elif r < 0.90:
            n = rng.choice(["n1", "longer-name", None])
            L.append(op("cname", k, n)); cn[k] = n; tag = "name"
        elif r < 0.94:
            s = rng.randrange(nv)
            if s == k: continue
            L.append(op("cdup", k, s)); vecs[k] = [e.cp() for e in vecs[s]]; cn[k] = cn[s]; exp.append(("ok", 1)); tag = "dup"
        elif r < 0.955:
            L.append(op("creset", k)); vecs[k] = []; cn[k] = None; tag = "reset"
        elif r < 0.965:                # made with a number of values, each given type and value afterwards
            m = rng.randint(0, 4); tag = "init"
            if rng.random() < .5:
                L.append(op("cnew", k, m))
            else:
                L.append(op("cinit", k, m)); exp.append(("rc", 0))
            vecs[k] = []; cn[k] = None
            for j in range(m):
                t = rng.choice(["string", "int8", "uint32", "int64"]); x = val(t)
                L.append(op("ctype", k, j, t, x)); exp.append(("rc", 0)); vecs[k].append(E(None, t, 0, x))
        elif r < 0.98:
            s = rng.randrange(nv)
            if s == k or not vecs[s]: continue
            ix = rng.randrange(len(vecs[s]))
            L.append(op("cfromvar", k, s, ix)); vecs[k] = [vecs[s][ix].cp()]; cn[k] = None; exp.append(("ok", 1)); tag = "fromvar"
        else:
            if len(v) < 1: continue
            L.append(op("cexclude", k))
            vecs[k] = [v[0]] + [e for e in v[1:] if not e.const]
            exp.append(("anyrc",)); tag = "exclude"
        # a copy is independent: the source is dumped as well
        for q in ([k] if rng.random() < .7 else list(range(nv))):
            dump(L, exp, q, vecs[q], cn[q], tag)
    return Case(L, exp=exp)
def q(t):
    return '"%s"' % t[3] if t[1] in ("string", "interface") else t[3]
def check(ctx, case, ev):
    if len(ev) != len(case.exp):
        return ctx.fail("events", "%d events, expected %d" % (len(ev), len(case.exp)))
    for e, x in zip(ev, case.exp):
        k = x[0]
        if k == "add":
            bad = e["ix"] != x[1] or e.get("prc", 0) != 0
        elif k == "ix": bad = e["ix"] != x[1]
        elif k == "rc": bad = e["rc"] != x[1]
        elif k == "anyrc": bad = e["rc"] < 0
        elif k == "n": bad = e["n"] != x[1]
        elif k == "ok": bad = e["ok"] != x[1]
        elif k == "txt": bad = e["rc"] != 0 or [x_[-1] for x_ in e["t"]] != x[1]; ctx.see("texts split into lines")
        elif k == "i":
            bad = (e["null"] == 1) != (x[1] is None) or (x[1] is not None and (e["name"], e["s"]) != (x[1][0], x[1][3]))
        elif k == "find":
            bad = e["any"] != x[2] or e["str"] != x[5] or (x[1] is not None and (e["key"], e["var"]) != (x[3], x[4]))
        else:
            n = len(x[2])
            ctx.see("vector dumps compared")
            ctx.nontrivial(x[1], n)
            bad = (e["len"] != n or e["e"] != x[2] or e["cname"] != x[3] or e["each"] != n or e["each1"] != max(n - 1, 0) or e["next"] != n
                   or "badeach" in e or "badnext" in e or "badeach1" in e)
            if not bad:
                pr = ("%s:\n" % x[3] if x[3] is not None else "") + "".join(
                    ("%d : %s = %s\n" % (j, t[0], q(t))) if t[0] is not None else "%d : %s\n" % (j, q(t)) for j, t in enumerate(x[2]))
                rows = e["cb"].split("\n")
                if e["cbrc"] != 0 or len(rows) != n + 1 or any(r != "%d : %s = %s" % (j, t[0], t[3]) for j, (r, t) in enumerate(zip(rows, x[2])) if t[0] is not None):
                    return ctx.fail("buffer", "written to a buffer %r expected %s" % (e["cb"], x[2]))
                if e["pr"] != pr:
                    return ctx.fail("printed", "printed %r expected %r" % (e["pr"], pr))
        if bad:
            return ctx.fail("%s" % (k if k != "dump" else "dump-after-" + x[1]), "observed %s expected %s" % (e, x))
    ctx.sample(dict(ops=len(case.lines)))
