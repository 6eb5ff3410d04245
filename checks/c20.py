"""C20: history."""
from vp import op, Case
import editor as E, words as W
from c18 import word, text
RULE = ("random sessions over a history of 1-8 (or 100) lines: lines entered through the reading function (blank, repeated, commented, quoted, long ones (up to 5000 characters) included), stepping back and forward beyond both ends, editing recalled lines, "
        "incremental search in both directions with refinement and unwinding, resizing, saving and loading into another handle, several handles; non-trivial = distinct (entered lines, recall keys) whose recalled line was compared")
ASSUME = ["a recalled line is checked as the line the reading function returns next", "lines contain no embedded newline", "stepping past either end shows an empty line"]
N = dict(quick=5000, thorough=150000)
BATCH = 50
TECH = "reference history monitor over recorded line, search and save events + ASan/UBSan"
PUNCT = list("!#$%&'()*+,-./:;<=>@[]^_`{|}~0") + ["!!", "!1", "!$", "^a^b", ";a", "%s", "%n", "$HOME", "~/x", "-", "--"]
VOC = ["show version", "show", "set a 1", "set b 22", "a", "b", "quit", "ping 10.0.0.1", "x y z", "shutdown", "  lead", "q \"a b\" c", "say # not", "s\\ t"]
def entered(rng):
    r = rng.random()
    if r < .55: return rng.choice(VOC)
    if r < .6: return ""
    if r < .66: return rng.choice([" ", "\t".replace("\t", "  "), "# only comment", "   "])
    if r < .7: return text(rng, rng.choice([15, 40, 120, 120, 500, 1500, 5000] if r > .69 else [15, 40, 120]))
    if r < .75: return rng.choice(VOC) + rng.choice([" ", "  ", " # c"])
    if r < .82: return rng.choice(PUNCT) + rng.choice(["", rng.choice(VOC), rng.choice(PUNCT)])   # (another tool might take these for something else)
    return text(rng, rng.randint(1, 4))
ODD = "\x01\x07\x1a\x1b\x7f\x80\xff\xc3\xa5\xe2\x82\xac\t\r abX"
def oddline(rng):
    r = rng.random()
    if r < .35: return rng.choice(VOC)
    if r < .45: return "".join(rng.choice(" \t") for _ in range(rng.randint(0, 3)))
    if r < .6: return rng.choice(["\r", "", "\t", "\xef\xbb\xbf"]) + rng.choice(VOC) + rng.choice(["\r", "", "\x1a", "\t"])
    return "".join(rng.choice(ODD) for _ in range(rng.choice([1, 3, 6, 30])))
def typed(l): return "".join("\\" + c if c in "\\?" else c for c in l)
def recall(rng, voc):
    k = ""
    for _ in range(rng.choice([1, 1, 2, 2, 4])):
        r = rng.random()
        if r < .35: k += rng.choice(["\x10", "\x1b[A"]) * rng.choice([1, 1, 2, 3, 5, 10])
        elif r < .6: k += rng.choice(["\x0e", "\x1b[B"]) * rng.choice([1, 1, 2, 3, 5, 10])
        elif r < .85:
            src = rng.choice(voc) if voc and rng.random() < .75 else word(rng, 3)
            a = rng.randrange(len(src)) if src else 0
            s = src[a:a + rng.choice([1, 2, 3, 6])].replace("\\", "").replace("?", "") or "s"
            k += rng.choice("\x12\x12\x13") + s
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                k += rng.choice(["\x12", "\x12", "\x13", "\x7f", "\x08", rng.choice("abs e")])
            k += rng.choice(["\x1b\x1b", "\x05", "\x01", "", "\x10", "\x0e", "\x06"])
        else: k += rng.choice(["X", "\x05Y", "\x01Z", "\x17", "\x15", "\x7f"])
    return k
def gen(rng, i, tier):
    L, ops = [], []
    nh = rng.choice([1, 1, 1, 2])
    for h in range(nh): L += [op("new", h), op("opt", "prompt", 0, "> "), op("opt", "comment", ord("#"))]
    L.append(op("cblog", 0))
    for h in range(nh):
        if rng.random() < .85:
            n = rng.choice([1, 2, 3, 4, 5, 8]); L += [op("use", h), op("histinit", n)]; ops.append(("init", h, n))
        if rng.random() < .3: L += [op("use", h), op("opt", "histfn", 1)]; ops.append(("fn", h))
    voc = list(VOC)
    for _ in range(rng.randint(2, 14)):
        h = rng.randrange(nh)
        r = rng.random()
        L.append(op("use", h))
        if r < .8:
            k = ""
            for _ in range(rng.choice([1, 2, 4])):
                if rng.random() < .55:
                    l = entered(rng); voc.append(l); k += typed(l)
                else: k += recall(rng, [v for v in voc if v.strip()])
                k += "\n"
            L.append(op("keys", k, 60, 1)); ops.append(("keys", h, k))
        elif r < .85:
            n = rng.choice([1, 2, 3, 5, 8]); L.append(op("histinit", n)); ops.append(("init", h, n))
        elif r < .95:
            L.append(op("histsave")); ops.append(("save", h))
            if rng.random() < .6:
                g = rng.randrange(nh); L += [op("use", g), None]; ops.append(("load", g))
        elif r < .97:
            ops.append(("loadraw", h, "".join(oddline(rng) + "\n" for _ in range(rng.randint(1, 6))))); L.append(op("histload", ops[-1][2]))
        else:
            l = oddline(rng); L.append(op("histadd", l)); ops.append(("add", h, l))
    # the text of a load is what the reference says a save gives (equal to the real one, or the save fails first)
    res = model(ops)
    it = iter(x for x in res if x[0] == "loadtext")
    L = [op("histload", next(it)[1]) if x is None else x for x in L]
    return Case(L, ops=ops)
def trim(s):
    s = W.cut_comment(s, "#") if hasattr(W, "cut_comment") else s
    return s
def model(ops):
    hs, out, text_ = {}, [], ""
    for o in ops:
        h = hs.setdefault(o[1], dict(hist=E.Hist(100), ed=None, fn=False))
        if h["ed"] is None: h["ed"] = E.Ed(hist=h["hist"])
        if o[0] == "init": h["hist"].init(o[2])
        elif o[0] == "fn": h["fn"] = True
        elif o[0] == "add": h["hist"].add(o[2])
        elif o[0] == "save":
            text_ = "".join(l + "\n" for l in h["hist"].lines); out.append(("save", text_))
        elif o[0] == "loadraw":
            for l in o[2].split("\n")[:-1]: h["hist"].add(l)
        elif o[0] == "load":
            out.append(("loadtext", text_))
            for l in text_.split("\n")[:-1]: h["hist"].add(l)
        else:
            want, i = [], 0
            while True:
                s, i = h["ed"].line(o[2], i)
                if s is None: break
                s = W.trim(s)
                if s == "": continue
                h["hist"].add(s); want.append(s)
            out.append(("lines", want, o[1] if h["fn"] else None, o[2]))
    return out
def check(ctx, case, ev):
    res = [r for r in model(case.ops) if r[0] != "loadtext"]
    it = iter(res); hist = []; past = []
    for e in ev:
        if "hist" in e: hist.append((e["hist"], e["h"]))
        if e.get("op") == "histsave":
            r = next(it)
            ctx.see("saved lines", r[1].count("\n"))
            if r[0] != "save" or e["text"] != r[1]: ctx.fail("save", "saved %r, expected %r" % (e["text"], r[1])); return
        if e.get("op") == "keys":
            r = next(it)
            who = "after %r\nkeys %r\nlines    %r\nexpected %r" % (past[-12:], r[3], e["lines"], r[1])
            if r[0] != "lines" or e["lines"] != r[1]: ctx.fail("recall", who); return
            if hist != ([(l, str(r[2])) for l in r[1]] if r[2] is not None else []): ctx.fail("callback", who + "\ncallback %s" % hist); return
            hist = []; past += r[1]
            ctx.see("lines", len(r[1])); ctx.see("recall keys", sum(c in "\x10\x0e" for c in r[3]) + r[3].count("\x1b[")); ctx.see("searches", r[3].count("\x12") + r[3].count("\x13"))
            if any(c in r[3] for c in "\x10\x0e\x12\x13\x1b"): ctx.nontrivial(tuple(past), r[3])
    if next(it, None) is not None: ctx.fail("events", "missing"); return
    ctx.sample(dict(ops=case.ops[:3]))
