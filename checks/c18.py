"""C18: the line returned is what the keystrokes describe."""
from vp import op, Case
import editor as E
RULE = ("random keystroke sequences over all editing keys on lines of 0 to several thousand characters, with buffers starting at 2 bytes upward, both display modes, widths 21-200, "
        "one or two handles, overwrite mode, multi-byte mode and exit characters; non-trivial = distinct key sequence with at least three kinds of editing key whose returned line was compared")
ASSUME = ["in multi-byte mode characters are inserted whole; cursor movement and deletion are per byte as documented ('experimental')",
          "blanks separate words for word movement; a NUL byte cannot be typed"]
N = dict(quick=6000, thorough=150000)
BATCH = 50
TECH = "reference editor monitor over recorded keystroke/line events + ASan/UBSan"
X = "\x18"
def word(rng, n=8):
    return "".join(rng.choice("abcdefgXYZ019_-.;:/") for _ in range(rng.randint(1, n)))
def text(rng, n):
    return " ".join(word(rng) for _ in range(n))
def utf(rng):
    return chr(rng.choice([0xe9, 0x3b1, 0x20ac, 0x4e2d, 0x1f600, 0x10348, rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xd7ff)])).encode().decode("latin-1")
KEYS = [("\x01", 6), ("\x02", 14), ("\x05", 5), ("\x06", 10), ("\x04", 6), ("\x08", 8), ("\x7f", 8), ("\x0b", 4), ("\x0c", 1), ("\x0f", 3), ("\x14", 8),
        ("\x15", 3), ("\x17", 7), ("\x19", 8), ("\x1bf", 6), ("\x1bb", 7), ("\x1bF", 2), ("\x1bB", 2), ("\x1b[C", 6), ("\x1b[D", 8), ("\x1bOC", 2), ("\x1bOD", 2),
        ("\x1b[H", 4), ("\x1b[F", 4), ("\x1bOH", 1), ("\x1bOF", 1), ("\x1b[3~", 5), ("\x1b[3x", 1), ("\x1bx", 1), ("\x1b[Z", 1), ("\x1a", 1), ("\x03", 1), ("\x07", 1), ("\x1c", 1), ("\x80", 1), ("\xa9", 1)]
KK, KW = [k for k, w in KEYS], [w for k, w in KEYS]
def keys(rng, n, o):
    """n keystroke tokens for one line; the last ends it"""
    out = []
    typ = rng.choice([.25, .5, .75])
    for _ in range(n):
        r = rng.random()
        if r < typ:
            q = rng.random()
            if q < .6: out.append(word(rng))
            elif q < .85: out.append(" " * rng.choice([1, 1, 1, 2, 5]))
            elif q < .9: out.append("\\" + rng.choice("\\?\"a \x01\x04\x1b"))
            elif q < .93: out.append("\\\n")
            elif q < .96 or not o["utf8"]: out.append(rng.choice("\"'#$|{}()!?" if o["help"] else "\"'#$|{}()!"))
            else: out.append(utf(rng))
        elif r < typ + .05: out.append(utf(rng))
        else:
            k = rng.choices(KK, KW)[0]
            out.append(k * (rng.choice([1, 1, 1, 2, 3, 10]) if k not in "\x0f" else 1))
    return out
def gen(rng, i, tier):
    o = dict(utf8=rng.random() < .25, help=rng.random() < .3, exits=rng.random() < .15)
    L = []
    two = rng.random() < .15
    for h in range(2 if two else 1):
        L.append(op("new", h))
        if o["help"]: L.append(op("load", "treename=\"t\"; a(\"h\"), cb(); bb(\"h2\"), cb();", "t"))
        L.append(op("opt", "prompt", 0, rng.choice(["> ", "cli> ", "", "a longer prompt here> "])))
    w = rng.choice([21, 30, 40, 80, 80, 120, 200])
    sc = int(rng.random() < .6)
    for x in range(2 if two else 1):
        L += [op("use", x), op("opt", "width", w), op("opt", "scrolling", sc), op("opt", "utf8", int(o["utf8"]))]
    if o["exits"]: L.append(op("exitchar", 0x18))
    sess = []
    long_ = rng.random() < .12
    nl = rng.randint(1, 5)
    seq = []
    for _ in range(nl):
        toks = []
        if long_ and rng.random() < .7: toks.append(text(rng, rng.choice([20, 60, 200, 800])))
        toks += keys(rng, rng.choice([3, 10, 25, 60]), o)
        if rng.random() < .1: toks += ["\x05", "\x15", "\x19", "\x19"] * rng.randint(1, 6)
        if o["exits"] and rng.random() < .3: toks.append("\x18")
        toks.append(rng.choice("\n\n\n\r"))
        h = rng.randrange(2) if two else 0
        seq.append((h, toks))
    # one 'keys' per run of lines on the same handle
    runs = []
    for h, toks in seq:
        if runs and runs[-1][0] == h and rng.random() < .6: runs[-1][1].append("".join(toks))
        else: runs.append((h, ["".join(toks)]))
    for h, ls in runs:
        k = "".join(ls)
        L.append(op("use", h)); L.append(op("keys", k, 60, 0))
        sess.append((h, k))
    if model(sess, o)[1]:     # the mode is one per program: leave it off
        sess.append((0, "\x0f\n")); L += [op("use", 0), op("keys", "\x0f\n", 60, 0)]
    return Case(L, o=o, sess=sess, two=two)
def model(sess, o):
    """-> [(lines, unread)] per session, and whether overwrite mode is left on"""
    eds, over, out = {}, False, []
    for h, k in sess:
        ed = eds.setdefault(h, E.Ed(utf8=o["utf8"], exitchars=X if o["exits"] else ""))
        ed.over = over
        want, i = [], 0
        while True:
            s, i = ed.line(k, i)
            if s is None: break
            want.append(s)
        over = ed.over
        out.append((want, len(k) - i))
    return out, over
def check(ctx, case, ev):
    evk = [e for e in ev if e.get("op") == "keys"]
    if len(evk) != len(case.sess): ctx.fail("events", "%d of %d sessions" % (len(evk), len(case.sess))); return
    res, _ = model(case.sess, case.o)
    for (h, k), (want, left), e in zip(case.sess, res, evk):
        who = "keys %r\nexpected %r\ngot      %r" % (k, want, e["lines"])
        ctx.see("lines", len(want))
        ctx.see("keystrokes", len(k))
        if any(len(w) > 255 for w in want): ctx.see("lines over 255 characters")
        if len(set(c for c in k if ord(c) < 32)) >= 3: ctx.nontrivial(k)
        if e["lines"] != want:
            ctx.fail("line", who); return
        if not e["eof"]: ctx.fail("eof", who); return
        if e["left"] != left: ctx.fail("left", "unread input %d, expected %d\n%s" % (e["left"], left, who)); return
        ctx.sample(dict(keys=k[:60], line=want[:1]))
