"""C32: aliases."""
from vp import op, Case
import re
import gram as G, meta as M, rich as R
RULE = ("random grammars with every construct; histories of defining aliases (for accepted, refused, ambiguous and incomplete lines, for lines with quotes, escapes and long words, for other aliases, for themselves), redefining them, defining them under names taken or illegal or in unknown trees, "
        "using them in full, abbreviated and with extra words, switching trees and options and loading further commands in between; each use is compared with entering the text itself; a set of other lines is probed before and after; non-trivial = distinct (grammar, text) with callbacks compared")
ASSUME = ["the text is compared with the text entered in the same tree and state", "alias names begin with a letter no other command begins with when other lines are compared", "chains of aliases are shorter than 32"]
N = dict(quick=5000, thorough=200000)
BATCH = 40
TECH = "differential monitor: callbacks, values, arguments and verdicts of an alias against those of its text on the real evaluator; probe lines before and after; help listing; model of which definitions are refused + ASan/UBSan"
BADNAMES = ["", " ", "two words", "a;b", "x{", "(y", "b)", "[q", "z]", "<v>", "@r", "a,b", "a#b", "a=b", "a|b", "a\\b", "z\n", "\tz"]
HELPS = ["two\nlines of help", "zhelp1", "do it", 'say "it"', "a;b {c}", "back\\slash", "x)", None, ""]
def gen(rng, i, tier):
    cbn = rng.choice([["cb"], ["cb", "cb", "fail"], ["cb", "pos"], ["cb", "mut", "cb2"]])
    d = R.make(rng, 14, kinds="eeeeeehp", multi=True, cbname=cbn)
    if not d: return None
    L = [op("new", 0)]; opts = {}
    for o, v in (("caseignore", 1), ("exclude_keys", 1), ("expand_first", 1), ("preference_mode", rng.randint(1, 3)), ("userhandle", 1)):
        if rng.random() < .15: L.append(op("opt", o, v)); opts[o] = v
    R.supply(L, d); R.load(L, d)
    trees = [t for t, _ in d["texts"]]
    pr = {t: [p for p in ps if not re.match(r"\s*$", p[1]) and not re.search(r"(^|\s)\"?z", p[1], re.I) and not (p[0] in "ht" and len(trees) > 1) and '"' not in p[1][:1]] for t, ps in d["probes"]}
    def probe():
        for t in trees:
            L.append(op("active", t)); M.emit(L, pr[t])
    L.append(op("mark", "P")); probe(); L.append(op("mark", "-"))
    act = rng.choice(trees); L.append(op("active", act))
    alias = {t: {} for t in trees}
    plan = []                                # what each mark means
    def mk(*what): L.append(op("mark", str(len(plan)))); plan.append(what)
    def text():
        t = rng.choice(trees) if rng.random() < .1 else act
        ls = [l for k, l in dict((t, ps) for t, ps in d["probes"])[t]]
        k = rng.random()
        if k < .75 and ls: return rng.choice(ls)
        if k < .85 and alias[act]: return rng.choice(sorted(alias[act]))
        if k < .9: return rng.choice(["", " ", "nosuch", "nosuch thing", '"', "\\", '"a b" c', "x\\", "# no", "z", "%s%n"])
        if ls: return rng.choice([" ", "  "]) + rng.choice(ls) + rng.choice(["", " ", " extra", ' "q r"', " " + "y" * 2000])
        return "x"
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        if k < .35 or not alias[act]:
            t = None if rng.random() < .4 else rng.choice(trees)
            nm = rng.choice(["zal", "zalias", "zb", "zq-1", "zq-1" if "caseignore" in opts else "Zal", 'z"q', "z>", "z$y"]); tx = text()
            if tx and tx.split() and tx.split()[0] in alias[t or act]:      # no circles here
                if nm == tx.split()[0] or rng.random() < .7: tx = "nosuch x"
                else:
                    seen = set(); x = tx.split()[0]
                    while x in alias[t or act] and x not in seen: seen.add(x); x = (alias[t or act][x][0].split() or [""])[0]
                    if nm in seen or x in seen or x == nm: tx = "nosuch y"
            h = rng.choice(HELPS)
            mk("def", t or act, nm, h, tx, 0)
            L.append(op("alias", *[x if x is not None else None for x in (t, nm, h, tx)]))
            alias[t or act][nm] = (tx, h)
        elif k < .45:
            c = rng.random()
            if c < .5:
                w = rng.choice(BADNAMES); mk("def", act, w, None, "x", -1); L.append(op("alias", rng.choice([None, act]), w, None, "x"))
            elif c < .7: mk("def", "nosuch", "zn", None, "x", -1); L.append(op("alias", "nosuch", "zn", "h", "x"))
            else: mk("def", act, rng.choice(BADNAMES), "h", "x", -1); L.append(op("alias", None, plan[-1][2], "h", "x"))
        elif k < .8:
            nm = rng.choice(sorted(alias[act])); tx = alias[act][nm][0]
            mk("use", act, nm, tx); L.append(op("eval", tx)); L.append(op("eval", nm if rng.random() < .8 else " %s  " % nm))
        elif k < .84:
            nm = rng.choice(sorted(alias[act]))
            mk("extra", nm); L.append(op("eval", nm + " extra"))
        elif k < .88:
            nm = rng.choice(sorted(alias[act]))
            mk("list", act, dict(alias[act])); L.append(op("help", ""))
        elif k < .92:
            act = rng.choice(trees); L.append(op("active", act))
        elif k < .96:
            mk("self", "zself"); L.append(op("alias", None, "zself", "h", "zself")); L.append(op("eval", "zself"))
            alias[act].pop("zself", None)
        else:
            o = rng.choice(["exclude_keys", "expand_first"]); v = rng.randint(0, 1); L.append(op("opt", o, v))
            L += [op("mark", "-"), op("eval", "x"), op("opt", o, opts.get(o, 0))]
    for t in trees:
        L.append(op("active", t))
        for nm in sorted(alias[t]):
            mk("use", t, nm, alias[t][nm][0]); L.append(op("eval", alias[t][nm][0])); L.append(op("eval", nm))
        if alias[t]:
            mk("list", t, dict(alias[t])); L.append(op("help", ""))
            for nm in sorted(alias[t]):
                mk("find", nm); L.append(op("findone", nm, t))
        taken = sorted(set(re.findall(r"(?m)^([a-z0-9][\w./-]*)(?=[ ,;(]|$)", dict(d["texts"])[t])))
        for w in rng.sample(taken, min(2, len(taken))):
            mk("taken", t, w); L.append(op("findone", w, t)); L.append(op("alias", t, w, "zzz", "x"))
    L.append(op("mark", "Q")); probe(); L.append(op("mark", "-"))
    L.append(op("printtrees"))
    L.append(op("exit", 0))
    return Case(L, plan=plan, d=d)
def check(ctx, case, ev):
    segs = {}; order = []; cur = None
    for e in ev:
        if e.get("op") == "mark": cur = e["t"]; segs[cur] = [] if cur == "-" else segs.get(cur, []); continue
        if cur is not None: segs.setdefault(cur, []).append(e)
    def cbs(l): return [(e["cb"], e.get("argv"), e["cvv"]) for e in l if "cb" in e]
    for k, w in enumerate(case.plan):
        s = segs.get(str(k), [])
        if w[0] == "def":
            rc = [e["rc"] for e in s if e.get("op") == "alias"][0]
            if rc != w[5]: return ctx.fail("define", "defining alias %r (help %r) for %r in %s returned %d, expected %d" % (w[2], w[3], w[4], w[1], rc, w[5]))
            ctx.see("defined" if rc == 0 else "definition refused")
        elif w[0] == "use":
            ix = [j for j, e in enumerate(s) if e.get("op") == "eval"]
            a, b = s[:ix[0]], s[ix[0] + 1:ix[1]]
            ea, eb = s[ix[0]], s[ix[1]]
            if "preference:" in R.show(case.d) and not (eb["res"] == 1 and eb["co"] == w[2]):
                ctx.see("skipped: a variable may be preferred"); continue
            if eb["rc"] < 0 or eb["res"] != 1 or eb["co"] != w[2]: return ctx.fail("not matched", "alias %r is not matched: %s" % (w[2], eb))
            ca, cb = cbs(a), cbs(b)
            ok = ea["rc"] >= 0 and ea["res"] == 1
            want = ("ok" if ea["er"] >= 0 else "error") if ok else "error"
            got = "ok" if eb["er"] >= 0 else "error"
            if not ok: ca = []
            if ca != cb: return ctx.fail("callbacks", "entering %r runs %s, its alias %r runs %s" % (w[3], ca, w[2], cb))
            if want != got: return ctx.fail("result", "entering %r gives %s (%s), its alias %r gives %s" % (w[3], want, ea.get("reason"), w[2], got))
            ctx.see("aliases used, text %s" % ("accepted" if ok else "refused"))
            if ok and ca: ctx.nontrivial(case.idx, w[3])
        elif w[0] == "taken":
            co = [e["co"] for e in s if e.get("op") == "findone"][0]; rc = [e["rc"] for e in s if e.get("op") == "alias"][0]
            if co == w[2]:
                ctx.see("names taken")
                if rc >= 0: return ctx.fail("taken", "an alias was defined in the name of the command %r" % w[2])
            elif rc >= 0: return ctx.see("skipped: not a command at the top")
        elif w[0] == "extra":
            e = s[-1] if s else {}
            e = [e for e in s if e.get("op") == "eval"][0]
            if e["res"] == 1 and e["co"] == w[1]: return ctx.fail("extra", "alias %r with another word is accepted" % w[1])
        elif w[0] == "list":
            out = [e["out"] for e in s if e.get("op") == "help"][0]
            rows = out.split("\n")
            for nm, (tx, h) in w[2].items():
                m = [r for r in rows if re.match("  " + re.escape(nm) + r"( |$)", r)]
                if len(m) != 1: return ctx.fail("listing", "alias %r is listed %d times: %r" % (nm, len(m), out))
                if h and h.strip() and h.split("\n")[0].strip() not in m[0]: return ctx.fail("listing help", "alias %r listed as %r, its help is %r" % (nm, m[0], h))
                if h is None and m[0].strip() != nm: return ctx.fail("listing help", "alias %r without help is listed as %r" % (nm, m[0]))
            ctx.see("listings")
        elif w[0] == "find":
            e = [e for e in s if e.get("op") == "findone"][0]
            if e["co"] != w[1]: return ctx.fail("find", "alias %r is not found by name: %r" % (w[1], e["co"]))
        elif w[0] == "self":
            e = [e for e in s if e.get("op") == "eval"][0]
            if "preference:" in R.show(case.d) and e.get("co") != "zself": continue
            if e["res"] != 1 or e["er"] >= 0: return ctx.fail("self", "an alias of itself: %s" % e)
            ctx.see("aliases of themselves")
    p, q = M.answers(segs.get("P", [])), M.answers(segs.get("Q", []))
    if len(p) != len(q): return ctx.fail("probes", "%d and %d answers" % (len(p), len(q)))
    for k, (x, y) in enumerate(zip(p, q)):
        if x != y: return ctx.fail("disturbed " + M.what(x), "probe %d: before the aliases %s\nafter %s\n%s" % (k, x, y, R.show(case.d)))
        ctx.see("other lines compared")
    ctx.sample(dict(spec=R.show(case.d), plan=[str(w) for w in case.plan][:8]))
