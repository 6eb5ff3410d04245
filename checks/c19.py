"""C19: the picture on the terminal after every keystroke."""
from vp import op, Case
import editor as E, term as T
from c18 import word, text
RULE = ("random keystroke sequences over all editing, history, search, help, clear and completion keys, widths 21-200, prompts of 0-19 characters, lines up to several screens, both display modes, messages of the program followed by a redraw at any key; the screen "
        "a terminal shows is compared before every read of a key; non-trivial = distinct (mode, width, prompt, line, cursor) screens compared where the line is longer than the screen or the cursor inside it")
ASSUME = ["single-byte printable characters", "the terminal wraps at its last column only when the next character arrives (as the editor assumes)", "the prompt leaves at least nine columns"]
N = dict(quick=2400, thorough=60000)
BATCH = 40
TECH = "terminal emulator + reference editor as online monitor of the written bytes"
KEYS = [("\x01", 6), ("\x02", 14), ("\x05", 6), ("\x06", 10), ("\x04", 7), ("\x08", 8), ("\x7f", 8), ("\x0b", 4), ("\x0c", 1), ("\x0f", 3), ("\x14", 8),
        ("\x15", 3), ("\x17", 6), ("\x19", 7), ("\x1bf", 6), ("\x1bb", 7), ("\x1b[C", 6), ("\x1b[D", 8), ("\x1b[H", 4), ("\x1b[F", 4), ("\x1b[3~", 5), ("\x1bx", 1), ("\x03", 1),
        ("\x10", 4), ("\x0e", 3), ("\x1b[A", 3), ("\x1b[B", 2), ("?", 1), ("\t", 1)]
KK, KW = [k for k, w in KEYS], [w for k, w in KEYS]
def keys(rng, w):
    out = []
    typ = rng.choice([.25, .5, .75])
    if rng.random() < .6: out.append(text(rng, rng.choice([3, w // 10, w // 5, w // 2])))
    if rng.random() < .2: out.append("x" * rng.choice([w - 1, w, w + 1, 2 * w, 3 * w]))
    for _ in range(rng.choice([5, 15, 40])):
        r = rng.random()
        if r < typ: out.append(rng.choice([word(rng), " ", "  ", word(rng, 2)]))
        elif r < typ + .02:
            out.append("\x12" + word(rng, 2) + rng.choice(["", "\x12", "\x7f", "\x13", "\x12\x12"]) + rng.choice(["\x1b\x1b", "\x01", "\x05", "\x06"]))
        elif r < typ + .05:   # a killed text put over others
            out.append(text(rng, rng.choice([3, 8, w // 4])) + rng.choice(["\x17", "\x15", "\x1bb\x0b", "\x01\x0b"]) + text(rng, rng.choice([1, 8, w // 3])) + rng.choice(["\x01", "\x02" * rng.randint(1, 12), "\x1bb", "\x1b[D" * 3]) + "\x0f\x19" + rng.choice(["", "\x02", "\x19"]) + "\x0f")
        else:
            k = rng.choices(KK, KW)[0]
            out.append(k * (rng.choice([1, 1, 1, 2, 3, 10]) if k not in "\x0f?\t\x0c" else 1))
    return "".join(out)
def model(c):
    ed = E.Ed(); ed.hist.size = 100; c.want = []
    ed.tab = lambda b, p: (b, p)
    for l in c.hist: ed.hist.add(l)
    i = 0
    states = []
    def watch(i, e):
        states.append((e.buf, e.pos, None if e.search is None else e.search[0], e.fresh, i))
    while True:
        states.append(None)
        s, i = ed.line(c.k, i, watch)
        if s is None: break
        c.want.append(s)
    return states, ed.over
def gen(rng, i, tier):
    w = rng.choice([21, 22, 25, 30, 40, 61, 80, 100, 200])
    sc = int(rng.random() < .5)
    prompt = rng.choice(["> ", "cli> ", "", "a longer prompt> ", "x", "a very long prompt with many words, longer than eighty characters: it still leaves room> "])
    if w - len(prompt) < 9: prompt = "% "
    L = [op("new", 0), op("load", "treename=\"t\"; zzz(\"h\"), hide, cb();", "t"), op("opt", "prompt", 0, prompt), op("opt", "width", w), op("opt", "scrolling", sc), op("opt", "utf8", 0)]
    hist = [text(rng, rng.choice([1, 3, w // 4, w // 2])) for _ in range(rng.choice([0, 2, 6]))]
    for l in hist: L.append(op("histadd", l))
    k = "".join(keys(rng, w) + rng.choice("\n\n\r") for _ in range(rng.randint(1, 3)))
    c = Case(L, w=w, sc=sc, prompt=prompt, hist=hist, k=k)
    if rng.random() < .2: L.append(op("redraw", rng.choice([1, 2, 5, 13])))
    L.append(op("keys", c.k, 100, 0, 1))
    if L[-2].startswith("redraw"): L.append(op("redraw", 0))
    if model(c)[1]: L.append(op("keys", "\x0f\n", 100, 0))    # the mode is one per program: leave it off
    return c
def check(ctx, case, ev):
    e = [x for x in ev if x.get("op") == "keys"][0]
    st, _ = model(case)
    marks, out = e["marks"], e["out"]
    if e["lines"] != case.want: ctx.fail("lines", "keys %r: lines %r, expected %r" % (case.k, e["lines"], case.want)); return
    if len(marks) != sum(s is not None for s in st):
        ctx.fail("reads", "the editor read %d keys, expected %d: %r" % (len(marks), sum(s is not None for s in st), case.k)); return
    t = T.Term(case.w)
    done, m, base, prev = 0, 0, None, None
    redrawn = set(e.get("redrawn", []))
    for s in st:
        if s is None: base, prev = None, None; continue
        try: t.put(out[done:marks[m]])
        except T.BadSeq as x:
            ctx.fail("sequence", "unknown sequence %s in %r" % (x, out[done:marks[m]])); return
        done = marks[m]; m += 1
        buf, pos, se, fresh, i = s
        if m - 1 in redrawn:      # a message and the line again on a row of its own
            ctx.see("screens after a message of the program")
            if not case.sc and len(case.prompt) + max(len(buf), len(prev[0]) if prev else 0) >= case.w: return   # (over the rows of the line itself)
            base = None
        p = case.prompt if se is None else se + "? "
        pl = len(p)
        bad = None
        if case.sc:
            row = t.row(t.r); b = t.r
            shift = pos - (t.c - pl); gw = case.w - pl
            if t.c < pl or shift < 0: bad = "cursor"
            elif row[:pl] != p: bad = "prompt"
            else:
                want = list((buf[shift:] + " " * gw)[:gw])
                if shift: want[0] = "$"
                if len(buf) > shift + gw - 1: want[gw - 2] = "$"; want[gw - 1] = " "
                if list(row[pl:]) != want: bad = "window"
                elif shift and pos == shift: bad = "hidden-cursor"
        else:
            tot = p + buf
            off = (pl + pos) // case.w
            b = t.r - off
            if t.pend: bad = "pending"
            elif t.c != (pl + pos) % case.w: bad = "cursor"
            elif "".join(t.row(b + k) for k in range(len(tot) // case.w + 1)).rstrip() != tot.rstrip(): bad = "text"
        rows = 1 if case.sc else (pl + len(buf)) // case.w + 1
        if not bad and any(t.row(r).strip() for r in range(b + rows, len(t.rows))): bad = "leftover-below"
        if not bad and base is not None and b != base and fresh == prev[3]: bad = "moved"
        ctx.see("screens")
        if not case.sc and rows > 1: ctx.see("screens of several rows")
        if case.sc and not bad and shift: ctx.see("scrolled windows")
        if se is not None: ctx.see("search screens")
        if len(buf) + pl >= case.w or 0 < pos < len(buf): ctx.nontrivial(case.sc, case.w, p, buf, pos)
        if bad:
            ctx.fail(("scroll:" if case.sc else "wrap:") + bad, "width %d prompt %r line %r cursor %d base row %s\nkeys so far %r\nbytes for the last key %r\nscreen:\n%s" %
                     (case.w, p, buf, pos, base, case.k[:i][-80:], out[marks[m - 2] if m > 1 else 0:done], t.pic((base or 0) - 1)))
            return
        base, prev = b, s
    ctx.sample(dict(width=case.w, mode="scroll" if case.sc else "wrap", keys=case.k[:60], screens=m))
