"""C34: the terminal is given back as it was found, and its size is followed."""
from vp import op, Case
RULE = ("sessions on a pseudo terminal (rows 0-60, columns 0-250, 9 kinds of initial settings: flow control, echo, signal characters, canonical mode, minimum counts, ...): up to 30 lines read through each of the four interfaces (a line, a line "
        "of the handle, a line evaluated, the whole loop), keys typed only once the terminal waits for them, ended by end of file, the interrupt character or the terminal hanging up; in the middle of a line: changes of size, signals caught by the application, "
        "signal characters, paged output of a registered descriptor; paged output of callbacks and of the application, answers of every kind; echo turned off and on; non-trivial = distinct (settings, size, keys) of sessions")
ASSUME = ["a terminal without known rows does not page", "a width from 1 to 20 columns is taken as 21, none as 80 (documented constants)", "settings are compared field by field with those at the start, at the moments the application has control"]
N = dict(quick=500, thorough=12000)
BATCH = 20
RETRY = 2
TECH = "monitor of the terminal's settings and size on a pseudo terminal at every moment the application has control, and of echo and line buffering at every key typed + ASan/UBSan"
W1 = "abcdefghij0123456789-._"
SPEC = 'a, cb("x"); b <v:string>, cb(); q, outr("1","2","3","4","5","6","7"); p <n:int32> <m:int32>, cb("y"); e <v:string exf()>, cb();'
def tw(c): return 80 if c == 0 else max(c, 21)
def answers(rng, n, rows):
    """answers for the prompts of n short lines"""
    if rows <= 1 or n < rows - 1: return ""
    k = rng.random()
    if k < .4: return "q"
    if k < .7: return " " * (n // (rows - 1))
    if k < .85: return "\n" * (1 + n - (rows - 1))
    return rng.choice(" \n?x") * 0 + ("?" if n >= 2 * (rows - 1) else " ") + "q" * (n >= 2 * (rows - 1))
def session(rng, tier, v, R, C):
    mode, L, keys, lines, sig, shown = rng.choice([0, 1, 2, 2, 3, 3]), [], "", [], [0, 0], 0
    nl = rng.choice([0, 1, 1, 2, 5, 12 if tier == "quick" else 30])
    if rng.random() < .25:
        n = rng.choice([1, 4, 9, 20]); L.append(op("ttyfd", n)); keys += answers(rng, n, R); shown = n
    end = rng.choice(["", "", "\x03", "hup", "\x04", "e?"])
    if not end and (mode == 3 or nl == 0): end = "\x04"
    for q in range(nl + 1):
        last = q == nl
        if last and not end: break
        w = rng.choice(["a", "b " + "".join(rng.choice(W1) for _ in range(rng.choice([1, 8, 60, 230]))), "p 1 2", "", "zz", "b", "  a", "a ", "q"])
        if w == "q" and mode < 2: w = "a"
        if q == nl - 1 and not end and not w: w = "a"
        if last: w = {"\x04": "", "\x03": rng.choice(["", "a", "b ab"]), "hup": rng.choice(["", "a", "b ab"]), "e?": "e "}[end]
        def happen():
            nonlocal keys, R, C
            r = rng.random()
            if r < .05 and (not shown or "\n" in keys): # not while the descriptor's lines come
                R, C = rng.choice([0, 5, 24, 60]), rng.choice([0, 20, 21, 30, 80, 200])
                keys += "\xffW%c%c" % (R, C)
            elif r < .08: keys += "\xffU"
        if rng.random() < .15:
            c = rng.choice("\x1c\x18" if v & 4 else "\x1c")
            for x in [rng.choice(W1) for _ in range(rng.randint(0, 6))]: keys += x; happen()
            keys += c; sig[c == "\x1c"] += 1
        for c in w: keys += c; happen()
        if w and rng.random() < .2: keys += "x\x7f"; happen()
        if last:
            keys += {"hup": "\xffH", "e?": "?"}.get(end, end); break
        keys += "\n"
        if w or mode == 0: lines.append((w.strip(), R, C)) # the others pass over empty lines
        if w == "q": keys += answers(rng, 7, R)
    if not end and not lines: return [], None, R, C, ""
    L.append(op("ttyread", keys, len(lines) + (end != ""), mode))
    return L, ("read", mode, lines, end, sig, R, C, shown), R, C, keys
def gen(rng, i, tier):
    R = rows = rng.choice([0, 0, 3, 5, 24, 60]); C = cols = rng.choice([0, 1, 20, 21, 22, 40, 80, 81, 132, 250])
    v = rng.choice([0, 0, 1, 2, 4, 4, 8, 16, 32, 64, 128, 256, rng.randrange(512)])
    if v & 34 == 34: v ^= 2 # keys are typed when the editor has switched echo and line buffering off: they may not both be off before
    L = [op("tty", rows, cols, v), op("new", 1), op("use", 1), op("exitchar", 3), op("expset", "exf", -1, 0), op("load", SPEC, "T"), op("ttysize", rows, cols)]
    steps, what = [("size", rows, cols)], []
    for _ in range(rng.choice([1, 1, 2, 4])):
        k = rng.random()
        if k < .15:
            R, C = rng.choice([0, 2, 5, 24, 60]), rng.choice([0, 1, 20, 21, 30, 80, 200])
            L.append(op("ttysize", R, C)); steps.append(("size", R, C))
        elif k < .2:        # echo switched by the application: nothing else changes
            w = [0, 1] if rng.random() < .5 else [1, 0]
            if w[-1] != (not v & 2): w.append(1 - w[-1])
            L += [op("ttyecho", x) for x in w]; steps.append(("echo", w))
        elif k < .35:
            ch = ["".join("line %d\n" % x for x in range(rng.choice([0, 1, 4, 40]))) for _ in range(rng.choice([0, 1, 5, 30]))]
            a = "".join(rng.choice(" \n?") for _ in range(rng.choice([0, 1, 3]))) + "q"
            L.append(op("ttyout", a, *ch)); steps.append(("out", a, R, sum(x.count("\n") for x in ch)))
        else:
            l, s, R, C, keys = session(rng, tier, v, R, C)
            if s is None: break
            L += l; steps.append(s); what.append(keys)
            if s[3] == "hup": break
    L.append(op("ttyend"))
    return Case(L, alarm=25, steps=steps, v=v, what=(rows, cols, v, what))
def check(ctx, case, ev):
    if any(e.get("nopty") for e in ev): return ctx.see("no pseudo terminal here")
    it = iter([e for e in ev if e.get("op") not in ("new", "use", "load", "expset", "exitchar", "ttyfd")])
    e = next(it)
    if e["same"] != 1: return ctx.fail("start", str(e))
    def same(e, where):
        ctx.see("settings compared " + where)
        if e != 1: ctx.fail("settings", "%s: the settings are not those found (%s)\n%s" % (where, {0: "no terminal", 2: "input flags", 3: "output flags", 4: "control flags", 5: "local flags", 6: "local flags, still without line buffering", 7: "control characters"}.get(e, e), case.what)); return True
    def size(e, R, C):
        ctx.see("sizes compared")
        if (e["rows"], e["width"]) != (R, tw(C)): ctx.fail("size", "terminal of %d rows and %d columns: %s rows, width %s\n%s" % (R, C, e["rows"], e["width"], case.what)); return True
    def done(e, where):
        if same(e["same"], where): return True
        if e["notraw"] or e["slow"]: ctx.fail("keys", "%d of the keys typed while the terminal echoes or buffers lines, %d not taken for 1.5 s\n%s %s" % (e["notraw"], e["slow"], case.what, e)); return True
        ctx.see("keys typed without echo", e["raw"])
    for s in case.steps:
        if s[0] == "size":
            e = next(it)
            if same(e["same"], "after a change of size") or size(e, s[1], s[2]): return
        elif s[0] == "echo":
            for x in s[1]:
                e = next(it)
                if bool(e["echo"]) != bool(x): return ctx.fail("echo", "%s switched to %d\n%s" % (e, x, case.what))
                if bool(x) == (not case.v & 2) and same(e["same"], "after echo is switched back"): return
        elif s[0] == "out":
            e = next(it)
            if done(e, "after paged output"): return
            n = e["shown"].count("--More--"); ctx.see("page prompts", n)
            if (s[2] > 1 and s[3] >= s[2] - 1) != (n > 0): return ctx.fail("prompt", "%s %s" % (s, e))
        else:
            _, mode, lines, end, sig, R, C, shown = s
            got, cbs, fd = [], [], 0
            while True:
                e = next(it, None)
                if e is None: return ctx.fail("events", "no answer of ttyread %s" % (case.what,))
                if "ttycb" in e: fd += e["n"]
                elif "exp" in e: ctx.see("failing help")
                elif "cb" in e:
                    cbs.append(e)
                    if same(e["tty"], "in a callback"): return
                elif "ttyline" in e:
                    if same(e["same"], "after a line"): return
                    got.append(e)
                elif e.get("op") == "ttyread": break
                else: return ctx.fail("events", str(e))
            if done(e, "after " + {"": "the lines", "\x03": "the interrupt character", "\x04": "end of file", "hup": "hang-up", "e?": "an error"}[end]): return
            if end != "hup" and size(e, R, C): return
            ctx.see("sessions: mode %d, end %s" % (mode, {"\x03": "^C", "\x04": "^D"}.get(end, end or "none")))
            if e["left"]: return ctx.fail("keys left", "%s %s" % (e, case.what))
            if fd != shown: return ctx.fail("descriptor", "%d of %d\n%s" % (fd, shown, case.what))
            if (e["sigquit"], e["sigint"]) != (e["sigquitsame"], e["sigintsame"]): return ctx.fail("settings", "in a signal handler: %s\n%s" % (e, case.what))
            ctx.see("signals", sum(sig))
            if mode < 3:
                want = [x for x, _, _ in lines]
                g = [(x["ttyline"] or "").strip() for x in got[:len(lines)]]
                if g != want or len(got) != len(lines) + (end != ""): return ctx.fail("lines", "typed %s got %s\n%s" % (want, [(x["ttyline"], x["rc"], x["eof"]) for x in got], case.what))
                for x, (w, R1, C1) in zip(got, lines):
                    if x["rc"] or x["eof"] or size(x, R1, C1): return x["rc"] and ctx.fail("line", "%s %s" % (x, case.what))
                    if mode == 2 and w and (x["res"] == 1) != (w[0] in "aqp" or w[:2] == "b "): return ctx.fail("verdict", "%s %s" % (x, case.what))
                if end == "e?":
                    if got[-1]["rc"] >= 0: return ctx.fail("error lost", "%s %s" % (got[-1], case.what))
                elif end and not got[-1]["eof"]: return ctx.fail("end", "%s %s" % (got[-1], case.what))
            if mode >= 2:
                want = [w for w, _, _ in lines if w and (w == "a" or w[0] == "p" or w[:2] == "b ")]
                g = [x["cvv"][0][3].strip() for x in cbs if x["cb"] == "cb"]
                if g != want: return ctx.fail("callbacks", "typed %s got %s\n%s" % (want, g, case.what))
            ctx.see("lines read", len(lines))
            ctx.nontrivial(case.what[:3], case.what[3])
    e = next(it)
    if same(e["same"], "at the end"): return
    ctx.sample(dict(rows=case.what[0], columns=case.what[1], settings=case.what[2], keys=case.what[3][:2]))
