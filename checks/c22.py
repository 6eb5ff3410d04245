"""C22: output filters."""
from vp import op, Case
import re
RULE = ("trees with implicit, explicit, referenced and (for one command) other filter trees; commands with one to three callbacks that print nothing, short texts, many lines, long texts (up to 700 kB, several times what the sockets hold), some failing in the middle; "
        "filters that copy, select, count, answer more than they read, print first and read later, read nothing, read a little, exit early, exit with a code, die by a signal, pause, print zero bytes, linger after their output ended, print through stdio and return, exec a shell, are several in a row or do not exist; "
        "in a fifth of the histories a signal arrives every 40-100 milliseconds; "
        "aliases of plain and filtered commands filtered again; 2-9 commands per handle, filtered and plain; descriptors and children counted after each; non-trivial = distinct (output size class, output, filter, position in history)")
ASSUME = ["filters end when their input ends", "the return value is judged for filters that exit", "paging is off"]
N = dict(quick=600, thorough=20000)
BATCH = 15
TECH = "differential monitor (bytes on standard output against a model of each filter) with descriptor, child and callback monitors over command histories, watchdog for deadlock + ASan/UBSan in parent and filter"
WORDS = ["alpha", "beta", "a b c", "x", "", "gamma delta", "100%", "%s%d%n", "line", "abc", "zz abc zz"]
REFUSED = "refused"
def lines(b): return b.split("\n")[:-1] + ([b.split("\n")[-1]] if b and not b.endswith("\n") else [])
def nl(ls): return "".join(l + "\n" for l in ls)
def csum(b):
    s = 0
    for c in b.encode("latin-1"): s = (s * 31 + c) & 0xffffffffffffffff
    return s
def upper(b): return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in b)
BIG = "".join("big line %d\n" % i for i in range(3000))
PAGE = "".join("%d some text to fill a line of the answer\n" % i for i in range(1, 20001))
# name: (callback text, model(input, argument) -> output, exit code or None)
FILTERS = {
    "cat": ('pipefn("cat")', lambda b, a: b, 0),
    "cat2": ('pipesh("cat")', lambda b, a: b, 0),
    "xcat": ('pipesh("exec cat")', lambda b, a: b, 0),
    "upper": ('pipefn("upper")', lambda b, a: upper(b), 0),
    "zero": ('pipefn("zero")', lambda b, a: b.replace("a", "\0"), 0),
    "count": ('pipefn("count")', lambda b, a: "count %d sum %d\n" % (len(b), csum(b)), 0),
    "big": ('pipefn("big")', lambda b, a: BIG, 0),
    "early": ('pipefn("early")', lambda b, a: "", 0),
    "noread": ('pipefn("noread")', lambda b, a: "noread\n", 0),
    "code": ('pipefn("rc3")', lambda b, a: "", 3),
    "head": ('pipefn("head")', lambda b, a: b[:10], 0),
    "linger": ('pipefn("linger")', lambda b, a: "linger %d\n" % len(b), None),
    "nul": ('pipefn("nul")', lambda b, a: "a\0b\nc\0\0", 0),
    "ret": ('pipefn("ret")', None, 0),
    "tail": ('pipesh("tail -n 3")', lambda b, a: "".join(l for l in re.findall(r"[^\n]*\n|[^\n]+$", b)[-3:]), 0),
    "wc": ('pipesh("wc -c | tr -d \' \'")', lambda b, a: "%d\n" % len(b), 0),
    "grep": ('pipesh("grep -a -F -e", "arg")', None, None),
    "few": ('pipesh("exec head -n 2")', lambda b, a: "".join(re.findall(r"[^\n]*\n|[^\n]+$", b)[:2]), 0),
    "lead": ('pipesh("echo first; cat; echo last")', lambda b, a: "first\n" + b + "last\n", 0),
    "fill": ('pipesh("seq -f \'%.0f some text to fill a line of the answer\' 20000; cat")', lambda b, a: PAGE + b, 0),
    "exit4": ('pipesh("cat; exit 4")', lambda b, a: b, 4),
    "die": ('pipesh("cat; kill -9 $$")', lambda b, a: b, None),
    "sink": ('pipesh("cat >/dev/null; echo done")', lambda b, a: "done\n", 0),
    "true": ('pipesh("true")', lambda b, a: "", 0),
    "false": ('pipesh("exit 1")', lambda b, a: "", 1),
    "late": ('pipesh("sleep .05; cat")', lambda b, a: b, 0),
    "pause": ('pipesh("echo one; sleep 1.3; cat")', lambda b, a: "one\n" + b, 0),
    "quiet": ('pipesh("exec cat 2>/dev/null")', lambda b, a: b, 0),
    "two": ('pipefn("upper"), pipesh("tail -n 1")', lambda b, a: upper("".join(re.findall(r"[^\n]*\n|[^\n]+$", b)[-1:])), 0),
    "three": ('pipesh("cat"), pipefn("head"), pipefn("count")', lambda b, a: "count %d sum %d\n" % (len(b[:10]), csum(b[:10])), 0),
    "absent": ('nofn()', None, 0),
}
def gen(rng, i, tier):
    L = [op("new", 0)]
    fs = rng.sample(sorted(FILTERS), rng.randint(2, 6))
    if i % 60 and "pause" in fs: fs.remove("pause")
    if not fs: fs = ["cat"]
    cmds = {}; outs = {}
    L1 = []
    def outtext(name, big):
        k = rng.random()
        if big:
            if k < .5:
                n = rng.choice([1500, 4000, 9000]); w = rng.randint(20, 75)
                L1.append(op("outrep", name, n, w))
                t = []
                for j in range(n):
                    b = "line %d " % j
                    t.append(b + "".join(chr(97 + (j + q) % 26) for q in range(len(b), w)) + "\n")
                return "".join(t)
            if k < .65:      # one long text printed at once
                ch = ["".join(rng.choice("abcdefgh \n") for _ in range(1000)) * rng.choice([120, 250, 500])]
                L1.append(op("outset", name, *ch)); return ch[0]
            ch = ["".join(rng.choice("abcdefgh \n") for _ in range(100)) * rng.choice([30, 41, 100]) + rng.choice(["", "\n"]) for _ in range(rng.choice([1, 8, 60]))]
            L1.append(op("outset", name, *ch)); return "".join(ch)
        if k < .15: L1.append(op("outset", name)); return ""
        ch = [rng.choice(WORDS) + rng.choice(["\n", "\n", "", "\n\n", "\t", "\r\n"]) for _ in range(rng.choice([1, 2, 5, 30]))]
        L1.append(op("outset", name, *ch)); return "".join(ch)
    def cbs(c):
        l, acc, rc = [], "", 0
        for q in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            if r < .62:
                nm = "out%s%d" % (c, q); t = outtext(nm, rng.random() < .12)
                l.append(nm + "()")
                if not rc: acc += t
            elif r < .78:
                a = [rng.choice(["a", "b b", "abc"]) for _ in range(rng.randint(1, 3))]
                l.append("out(%s)" % ",".join('"%s"' % x for x in a))
                if not rc: acc += nl(a)
            elif r < .85: l.append("pos()")
            elif r < .92: l.append("cb()")
            else:
                l.append("fail()"); rc = -1
        return ", ".join(l), acc, rc
    pt = "|f"
    mode = rng.choice(["implicit", "implicit", "explicit"])
    spec = 'treename="m";\n' + ('pipetree="|f";\n' if mode == "implicit" else "")
    plain = mode == "implicit"
    for c in ["run", "show", "list", "x"][:rng.randint(1, 4)]:
        t, acc, rc = cbs(c)
        k = rng.random()
        if k < .25: spec += "%s <v:string>, %s;%s\n" % (c, t, "" if plain else " { @|f, %s; }" % t)
        else: spec += "%s, %s;%s\n" % (c, t, "" if plain else " { @|f, %s; }" % t)
        cmds[c + (" val" if k < .25 else "")] = (acc, rc)
    other, fs2 = {}, []
    if mode == "implicit" and rng.random() < .4:      # commands with a filter tree of their own beside the default one
        fs2 = [f for f in sorted(FILTERS) if f not in fs and f != "pause" and not any(g.startswith(f) or f.startswith(g) for g in fs)]
        fs2 = rng.sample(fs2, min(len(fs2), rng.randint(1, 3)))
    if fs2:
        t, acc, rc = cbs("own"); t2, acc2, rc2 = cbs("deep")
        spec += "own, %s; {\n  @|g, %s;\n  %s}\n" % (t, t, "deep, %s;\n" % t2)
        cmds["own"] = (acc, rc); cmds["own deep"] = (acc2, rc2); other = {"own": fs2, "own deep": fs2}
    sub = rng.random() < .5
    if sub:
        t, acc, rc = cbs("s")
        spec += "sub @s;\n"; cmds["sub inner"] = (acc, rc)
    spec += 'treename="|f";\npipetree="";\n\\| {\n'
    for f in fs: spec += "  %s%s, %s;\n" % (f, " <arg:rest>" if f == "grep" else "", FILTERS[f][0])
    spec += "}\n"
    if fs2: spec += 'treename="|g";\n\\| {\n' + "".join("  %s%s, %s;\n" % (f, " <arg:rest>" if f == "grep" else "", FILTERS[f][0]) for f in fs2) + "}\n"
    if sub: spec += 'treename="s";\n%sinner, %s;%s\n' % (('pipetree="|f";\n', t, "") if plain else ("", t, " { @|f, %s; }" % t))
    L += L1 + [op("load", spec, "m"), op("active", "m")]
    def piped(out, rc, f, a):
        """-> text shown, rc or None"""
        if f == "absent": return None, -1
        fn, m, code = FILTERS[f]
        if f == "grep":
            sel = [l for l in lines(out) if a in l]
            return nl(sel), rc if sel else -1
        if f == "ret": return ("ret", out), rc
        return m(out, a), None if code is None else -1 if code else rc
    def fpart(f):
        a = rng.choice(["abc", "line", "a", "nothing", "9"]) if f == "grep" else None
        return "| %s%s" % (f, " " + a if a else ""), a
    al = {}
    if mode == "implicit" and rng.random() < .35:
        for q in range(rng.randint(1, 2)):
            c = rng.choice(sorted(cmds)); out, rc = cmds[c]
            if rng.random() < .5:
                f = rng.choice(other.get(c, fs)); t, a = fpart(f)
                s, r = piped(out, rc, f, a)
                L.append(op("alias", "m", "al%d" % q, "an alias", "%s %s" % (c, t)))
                if not isinstance(s, str): continue
                al["al%d" % q] = (s, r, f == "absent")
            else:
                L.append(op("alias", "m", "al%d" % q, "an alias", c)); al["al%d" % q] = (out, rc, False)
    allc = dict((c, v + (False,)) for c, v in cmds.items()); allc.update(al)
    plan = []
    sig = rng.random() < .2
    if sig: L.append(op("sigs", rng.choice([40, 70, 100])))
    L.append(op("stats"))
    for _ in range(rng.randint(2, 9)):
        c = rng.choice(sorted(allc)); out, rc, gone = allc[c]
        l = c; exp, r, f = out, rc, None; bad = False
        if rng.random() < .72 or (not plain and not c): 
            bad = fs2 and c in cmds and rng.random() < .15
            f = rng.choice(other.get(c, fs) if not bad else fs if c in other else fs2); t, a = fpart(f); l = "%s %s" % (c, t)
            exp, r = piped(out, rc, f, a) if not bad else (None, REFUSED)
            if rc is None and r == 0: r = None
        pend = not bad and rng.random() < .1 and "pending %d" % rng.randint(0, 99)
        if pend: L.append(op("pend", pend))
        plan.append((l, out, exp, r, f, pend or ""))
        L.append(op("eval", l)); L.append(op("stats"))
    if sig: L.append(op("sigs", 0))
    # the handle can be used as before
    L.append(op("exit", 0))
    return Case(L, alarm=40, plan=plan, spec=spec)
def short(t): return t if t is None or len(t) < 300 else "%s...(%d bytes)...%s" % (t[:120], len(t), t[-120:])
def check(ctx, case, ev):
    for e in ev:
        if e.get("op") == "load" and e["rc"] != 0: return ctx.fail("load", "%s\n%s" % (e, case.spec))
        if e.get("op") == "alias" and e["rc"] != 0: return ctx.fail("alias", "%s\n%s" % (e, case.spec))
        if e.get("op") == "sigs": ctx.see("signals handled", e["n"])
    st = [e for e in ev if e.get("op") == "stats"]; evs = [e for e in ev if e.get("op") == "eval"]
    for k, ((l, out, exp, r, f, pend), e) in enumerate(zip(case.plan, evs)):
        h = " ; ".join(p[0] for p in case.plan[:k + 1]) + "\n" + case.spec
        if r == REFUSED:
            if e["res"] == 1 or e["out"]: return ctx.fail("filter of another tree", "%r: %s\n%s" % (l, e, h))
            ctx.see("filters of another tree refused")
            continue
        if e["res"] != 1: return ctx.fail("match", "%r: %s\n%s" % (l, e, h))
        got = e["out"]
        if pend:
            # what the application printed itself is there once
            if got.count(pend) != 1: return ctx.fail("unfiltered text", "%r: %r printed beside shows as %r\n%s" % (l, pend, short(got), h))
            got = got.replace(pend, "", 1)
        if f == "absent":
            if got != "" : return ctx.fail("unfiltered", "%r shows %r\n%s" % (l, short(got), h))
            if e["er"] >= 0: return ctx.fail("return value", "%r gives %d\n%s" % (l, e["er"], h))
        elif isinstance(exp, tuple) and exp[0] == "ret":
            if re.sub(r"\]\[", "", got)[1:-1].replace("][", "") != exp[1] and got.replace("][", "") not in ("", "[" + exp[1] + "]"): return ctx.fail("filtered output", "%r shows %r, expected %r\n%s" % (l, short(got), short(exp[1]), h))
            if exp[1] and not got: return ctx.fail("filtered output", "%r shows nothing, expected %r\n%s" % (l, short(exp[1]), h))
        else:
            x = exp[1] if isinstance(exp, tuple) else exp
            if got != x: 
                j = next((j for j, (p, q) in enumerate(zip(got, x)) if p != q), min(len(got), len(x)))
                return ctx.fail("filtered output" if f else "plain output", "%r shows %d bytes %r, expected %d bytes %r (first difference at %d)\n%s" % (l, len(got), short(got), len(x), short(x), j, h))
        if f != "absent" and r is not None and (e["er"] < 0) != (r < 0): return ctx.fail("return value", "%r gives %d, expected %d\n%s" % (l, e["er"], r, h))
        a, b = st[0], st[k + 1]
        if b["child"]: return ctx.fail("child left", "after %r %s\n%s" % (l, b, h))
        if b["fds"] != a["fds"]: return ctx.fail("descriptors", "after %r %d, before %d\n%s" % (l, b["fds"], a["fds"], h))
        ctx.see("filter " + f if f else "plain commands"); ctx.see("bytes printed by commands", len(out)); ctx.see("bytes shown", len(e["out"]))
        if len(out) > 200000: ctx.see("outputs larger than a socket holds")
        ctx.nontrivial(out[:200], len(out), f, k)
    if len(evs) != len(case.plan): return ctx.fail("events", "%d of %d" % (len(evs), len(case.plan)))
    ctx.sample(dict(spec=case.spec, lines=[p[0] for p in case.plan]))
