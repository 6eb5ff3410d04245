"""C17: splitting, trimming and escaping of lines."""
from vp import op, Case
from words import tokenize, cut_comment, unescape
RULE = ("random strings over letters, blanks, quotes, backslashes, '?', '#' and high bytes; each is split, trimmed with several comment "
        "characters, escaped and split back, and entered as a command with re-spaced variants; non-trivial = distinct string whose split has "
        "at least two words or a quote or an escape")
ASSUME = ["escaping is judged for strings without double quotes and newlines, which the quoting syntax cannot express"]
N = dict(quick=4000, thorough=100000)
BATCH = 100
TECH = "reference-model monitor over operation log + ASan/UBSan"
SPEC = 'a("h") <x:string>, cb1(); a <x:string> <y:string>, cb2(); a <x:string> b <r:rest>, cb3();\n'
def rnd(rng, alpha, n):
    return "".join(rng.choice(alpha) for _ in range(n))
def respace(rng, s):
    """another spacing of the same words"""
    out, i, n, quote, esc, start = rng.choice(["", " ", "\t "]), 0, len(s), False, False, True
    while i < n:
        ch = s[i]
        if quote:
            out += ch
            if ch == '"': quote = False; start = True
        elif esc: out += ch; esc = False; start = False
        elif ch in " \t":
            while i + 1 < n and s[i + 1] in " \t": i += 1
            out += rng.choice([" ", "  ", "\t", " \t ", "   "]); start = True
        else:
            out += ch
            if ch == '"' and start: quote = True
            elif ch == "\\": esc = True
            start = False
        i += 1
    return out if (quote or esc) else out + rng.choice(["", " ", "\t", "  "])
def gen(rng, i, tier):
    L, exp = [], []
    alpha = rng.choice(['ab \t"\\', 'ab  "', 'ab\\ ', 'abc "\\#?!', 'a "', ' \t', 'ab "\xe5\xc3#'])
    for _ in range(6):
        s = rnd(rng, alpha, rng.choice([0, 1, 2, 3, 5, 8, 12, 30, rng.randint(0, 80)]))
        L.append(op("csplit", s)); exp.append(("split", s))
        c = rng.choice(["#", "!", "a", "\\", '"', "\xe5", ""])
        L.append(op("ctrim", s, ord(c) if c else 0)); exp.append(("trim", s, c))
        e = "".join(ch for ch in s if ch != '"')
        L.append(op("cescape", e)); exp.append(("esc", e))
        t = s.replace("\t", rng.choice(["\n", "\n", "\t", " \n"]))
        L.append(op("ctxt", t)); exp.append(("txt", t))
    # verdict independent of spacing
    L.append(op("new", 0)); exp.append(("x",))
    L.append(op("load", SPEC, None)); exp.append(("x",))
    L.append(op("opt", "comment", ord("#"))); exp.append(("x",))
    for _ in range(3):
        s = "a " + rnd(rng, 'ab "\\ ', rng.randint(0, 9))
        if rng.random() < 0.3: s = "a " + rnd(rng, 'ab ', 3) + " b " + rnd(rng, 'ab "\\ ', 6)
        if rng.random() < 0.2: s = s + " #" + rnd(rng, "ab #", 4)
        v = respace(rng, s)
        for q in (s, v):
            L.append(op("eval", q)); exp.append(("eval", q))
        exp.append(("same", s, v))
    return Case(L, exp=exp)
def check(ctx, case, ev):
    it = iter(ev)
    ress = []
    for x in case.exp:
        if x[0] == "same":
            (r1, c1), (r2, c2) = ress[-2], ress[-1]
            cc1, cc2 = cut_comment(x[1], "#"), cut_comment(x[2], "#")
            if tokenize(cc1 + " ")[0] != tokenize(cc2 + " ")[0]:
                continue                # the two texts are not spacings of one another
            ctx.see("spacing pairs compared")
            if (r1["res"], r1["rc"]) != (r2["res"], r2["rc"]) or [k["cb"] for k in c1] != [k["cb"] for k in c2]:
                ctx.fail("spacing-verdict", "%r -> %s, %r -> %s" % (x[1], r1, x[2], r2))
            for a, b in zip(c1, c2):
                if [w[3] for w in a["cvv"][1:] if w[1] != "rest"] != [w[3] for w in b["cvv"][1:] if w[1] != "rest"]:
                    ctx.fail("spacing-values", "%r -> %s, %r -> %s" % (x[1], a, x[2], b))
                if a["cb"] == "cb2" or a["cb"] == "cb1":
                    want = [unescape(t) for t in tokenize(cut_comment(x[1], "#").strip(" \t") if not cut_comment(x[1], "#").rstrip(" \t").endswith("\\") else cut_comment(x[1], "#"))[0]]
                    got = [w[3] for w in a["cvv"][1:]]
                    if not any(w.startswith('"') for w in tokenize(x[1])[0]) and want[-1] != "" and got[1:] != want[1:]:
                        ctx.fail("words-bound", "%r bound %s words %s" % (x[1], got, want))
            continue
        if x[0] == "eval":
            cbs = []
            e = next(it)
            while e.get("op") != "eval":
                if "cb" in e: cbs.append(e)
                e = next(it)
            ress.append((e, cbs))
            continue
        e = next(it)
        if x[0] == "split":
            t, r = tokenize(x[1])
            ctx.see("splits compared")
            if len(t) > 1 or '"' in x[1] or "\\" in x[1]: ctx.nontrivial(x[1])
            gt, gr = [w[3] for w in e["t"]], [w[3] for w in e["r"]]
            if e["rc"] != 0 or gt[0] != x[1] or gr[0] != x[1] or not e["same"]:
                ctx.fail("split-zero", "%r: %s" % (x[1], e))
            elif gt[1:] != t:
                ctx.fail("split-words", "%r: words %s, expected %s" % (x[1], gt[1:], t))
            elif gr[1:] != r:
                ctx.fail("split-rest", "%r: rest %s, expected %s" % (x[1], gr[1:], r))
            elif e["levels"] != len(t) - 1:
                ctx.fail("split-levels", "%r: %s" % (x[1], e))
            ctx.sample(dict(line=x[1], words=t))
        elif x[0] == "trim":
            ctx.see("trims compared")
            c = x[2] if x[2] and ord(x[2]) < 128 else ""
            if c and c in ' \t"\\': continue
            body = cut_comment(x[1], c)
            w0, w1 = tokenize(body)[0], tokenize(e["s"])[0]
            while w0 and w0[-1] == "": w0 = w0[:-1]
            while w1 and w1[-1] == "": w1 = w1[:-1]
            if w0 and w0[-1].startswith('"'): w0[-1] = w0[-1].rstrip(" \t")   # unterminated quote
            if w1 and w1[-1].startswith('"'): w1[-1] = w1[-1].rstrip(" \t")
            if w0 != w1:
                ctx.fail("trim-words", "%r trimmed to %r (comment %r): words %s became %s" % (x[1], e["s"], x[2], w0, w1))
            elif e["s"][:1] in (" ", "\t") and e["s"]:
                ctx.fail("trim-blanks", "%r trimmed to %r" % (x[1], e["s"]))
            elif e["s"] and '"' not in e["s"] and "\\" not in e["s"] and (e["s"][-1] in " \t" or "  " in e["s"] or "\t" in e["s"]):
                ctx.fail("trim-blanks", "%r trimmed to %r" % (x[1], e["s"]))
        elif x[0] == "esc":
            ctx.see("escapes compared")
            s = e["s"]
            toks = tokenize(s)[0]
            if len(toks) != 1 or unescape(toks[0]) != x[1]:
                ctx.fail("escape-roundtrip", "%r escaped to %r splits to %s" % (x[1], s, toks))
            need = any(ch in "?\\ \t" for ch in x[1])
            if e["need"] != int(need):
                ctx.fail("escape-need", "%r: %s" % (x[1], e))
        elif x[0] == "txt":
            want, cur = [], None
            ls = x[1].split("\n")
            for k, l in enumerate(ls):
                v = l.lstrip(" \t")
                if k == len(ls) - 1 and v == "": continue
                want.append(v)
            got = [w[3] for w in e["t"]]
            ctx.see("text blocks compared")
            if e["rc"] != 0 or got != want:
                ctx.fail("text-lines", "%r: %s expected %s" % (x[1], got, want))
