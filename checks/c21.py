"""C21: paged output."""
from vp import op, Case
import re
RULE = ("sessions of 1-40 printed chunks (empty, parts of lines, many lines, lines of, below and above the terminal width and multiples of it, NUL bytes, tabs, bytes above 127) through both output functions, x rows 0-60, widths 21-200, paging on and off, "
        "resets between commands, terminal size changes within a session, x answers (return, space, q, interrupt, ?, others, none left); commands printing through output filters; command lines typed ahead of the page prompt; non-trivial = distinct (rows, width, answer, chunk) with a page prompt")
ASSUME = ["a command begins at the start of a line", "rows are counted for printable ASCII text and while the terminal keeps its size", "applications start a page with cli_output_reset, as documented"]
N = dict(quick=6000, thorough=250000)
BATCH = 40
TECH = "output-stream monitor: an independent terminal-row model and a parser of page prompts over the bytes written, against the bytes printed and the answers given + ASan/UBSan"
BK = "\b" * 8
WIPE = BK + " " * 8 + BK
HELPMSG = BK + "Press CR for one more line, SPACE for next page, q to quit\n"
def chunk(rng, W, ctl):
    k = rng.random()
    a = "abcdefghij klmnop 0123456789-._"
    def txt(n): return "".join(rng.choice(a) for _ in range(n))
    if ctl and k < .3: return rng.choice(["a\tb\n", "\xc3\xa5\xc3\xa4\n", "x\r\ny", "\x1b[1mb\x1b[0m\n", "\t" * 12 + "\n"])
    if k < .35: return "".join(txt(rng.randint(0, 30)) + "\n" for _ in range(rng.choice([1, 1, 2, 5, 30, 120])))
    if k < .6:
        n = max(rng.choice([W, W, 2 * W, 3 * W, 7 * W]) + rng.choice([-2, -1, 0, 0, 1, 2]), 0)
        return txt(n) + rng.choice(["", "\n", "\n\n"])
    if k < .75: return txt(rng.randint(0, 3 * W))
    if k < .85: return "\n" * rng.choice([1, 2, 5, 30])
    if k < .9: return ""
    return "".join(txt(rng.choice([0, 3, W - 1, W, W + 1])) + "\n" for _ in range(rng.randint(1, 20)))
def ans(rng):
    k = rng.random()
    n = rng.choice([0, 1, 3, 20, 200])
    al = " " if k < .3 else "\n" if k < .5 else " \n" if k < .7 else " \n?xq\x03\x04Q\x01\x1b" if k < .9 else "?\n"
    return "".join(rng.choice(al) for _ in range(n))
def gen(rng, i, tier):
    kind = rng.choice(["s", "s", "s", "s", "s", "f", "l"])
    rows = rng.choice([0, 1, 2, 3, 4, 5, 10, 24, 60]); W = rng.choice([21, 22, 30, 40, 79, 80, 132, 200]); paging = int(rng.random() < .9)
    L = [op("new", 0)]
    if kind == "s":
        ctl = rng.random() < .15
        rs = rng.random() < .2
        seq = []
        for _ in range(rng.choice([1, 2, 5, 12, 40])):
            k = rng.random()
            if k < .1: seq.append(None)
            elif rs and k < .2: seq.append("w%d" % rng.choice([21, 22, 30, 80, 200]))
            elif rs and k < .25: seq.append("r%d" % rng.choice([2, 5, 20]))
            elif k < .4:
                c = chunk(rng, W, ctl)
                if rng.random() < .2: c += "\0" + chunk(rng, W, ctl)
                seq.append("b" + c)
            else: seq.append("p" + chunk(rng, W, ctl))
        a = ans(rng)
        L += [op("paging", rows, W, paging), op("out", a, *seq), op("out", "", None, "pnext command\n")]
        if rng.random() < .2: L.append(op("outf", *[s[1:] for s in seq if s and s[0] == "p"]))
        L.append(op("exit", 0))
        return Case(L, kind=kind, rows=rows, W=W, paging=paging, seq=seq, ans=a, ctl=ctl, sized=not rs)
    if kind == "f":
        n = rng.choice([0, 1, 5, 40, 300]); w = rng.choice([10, W - 2, W - 1, W, 3 * W])
        w = min(w, 400)
        up = rng.random() < .5
        spec = 'treename="m"; pipetree="|f"; run, out1(); treename="|f"; pipetree=""; \\| { cat, pipefn("cat"); upper, pipefn("upper"); lead, pipesh("echo first; cat"); }'
        L += [op("outrep", "out1", n, w), op("load", spec, "m"), op("active", "m"), op("paging", rows, W, paging)]
        text = ""
        for j in range(n):
            b = "line %d " % j
            text += b + "".join(chr(97 + (j + q) % 26) for q in range(len(b), w)) + "\n"
        plan = []
        for _ in range(rng.randint(1, 3)):
            f = rng.choice(["cat", "upper", "lead", ""]); a = ans(rng)
            L.append(op("evalkeys", "run" + (" | " + f if f else ""), a))
            plan.append((f, a, text.upper() if f == "upper" else "first\n" + text if f == "lead" else text))
        L.append(op("exit", 0))
        return Case(L, kind=kind, rows=rows, W=W, paging=paging, plan=plan, ctl=False, sized=True)
    rows = rng.choice([2, 3, 5, 10]); W = 80
    n = rng.choice([0, 1, 4, 20, 60])
    np = n // (rows - 1)
    typed = "".join("%s\n" % c + (" " * np if c == "show" else "") for c in [rng.choice(["show", "cmd", "other"]) for _ in range(rng.randint(1, 6))])
    if len(typed) > 60000: return None
    L += [op("outrep", "outr1", n, 30), op("load", 'prompt="> "; treename="m"; show, outr1(); cmd, cb("c"); other, cb("o");', "m"), op("active", "m"), op("paging", rows, W, 1), op("loop", typed), op("exit", 0)]
    return Case(L, kind=kind, rows=rows, W=W, paging=1, typed=re.findall(r"[a-z]+", typed), n=n, np=np)
def split(out):
    """-> [(text, prompt?, help?)]"""
    res = []; p = 0
    while True:
        q = out.find("--More--", p)
        if q < 0: res.append((out[p:], False, False)); return res
        t = out[p:q]; p = q + 8
        h = out.startswith(HELPMSG, p)
        if h: p += len(HELPMSG)
        if not out.startswith(WIPE, p): return None
        p += len(WIPE)
        res.append((t, True, h))
def judge(ctx, case, out, answers, left, text, resets, quits_possible=True):
    """text: list of segments printed (None: reset). True when fine"""
    pages = split(out)
    desc = "rows %d width %d paging %d answers %r printed %r: " % (case.rows, case.W, case.paging, answers, [t if t is None or len(t) < 200 else t[:200] + "..." for t in text])
    on = case.paging and (case.rows or not case.sized)
    if pages is None: ctx.fail("prompt", desc + "broken page prompt in %r" % out[-400:]); return False
    np = sum(p for _, p, _ in pages)
    if not on:
        if np: ctx.fail("prompt", desc + "page prompt without paging"); return False
    if left != max(len(answers) - np, 0): ctx.fail("answers", desc + "%d prompts, %d of %d answers left" % (np, left, len(answers))); return False
    # walk: what was printed against what is shown
    pos = 0; it = iter(pages); cur, isp, ish = next(it)
    col = 0; used = 0; fit = 0; limit = case.rows - 1; judge_low = True; quit = False; k = 0
    pend = ""
    def prompt():
        nonlocal col, cur, isp, ish, used, fit, limit, judge_low, quit, k
        a = answers[k] if k < len(answers) else None
        k += 1
        if ish != (a == "?"): ctx.fail("prompt help", desc + "answer %r, help %s" % (a, ish)); return False
        if case.sized and not case.ctl and case.rows > 1:
            if used > limit: ctx.fail("page", desc + "%d rows used between prompts %d and %d, a page has %d\n%r" % (used, k - 1, k, limit, cur[-300:])); return False
            if judge_low and used + fit + (col == case.W) < limit: ctx.fail("early prompt", desc + "prompt %d after %d of %d rows\n%r" % (k, used, limit, cur[-300:])); return False
        if col == case.W: col = 0            # the prompt itself wrapped
        limit = 1 if a in ("\n", "?") else case.rows - 1
        judge_low = a != "?" and (judge_low or a != "\n")     # a line that was helped counts on
        quit = a in ("q", "\x03")
        used = fit = 0
        ctx.see("page prompts"); ctx.see("answers %r" % a)
        ctx.nontrivial(case.rows, case.W, a, k, len(out))
        cur, isp, ish = next(it)
        return True
    for seg in text:
        if seg is None:
            # a new page, and after q output again
            if cur == "" and isp and not quit:
                if not prompt(): return False
            quit = False; used = fit = 0; col = 0; limit = case.rows - 1; judge_low = True
            continue
        for ch in seg:
            if cur == "" and isp:
                if not prompt(): return False
            if quit: break
            if not cur: ctx.fail("lost", desc + "%r is not shown (output ends %r)" % (seg[-200:], out[-200:])); return False
            if cur[0] != ch: ctx.fail("content", desc + "printed %r, shown %r\n%r" % (ch, cur[:60], out[-600:])); return False
            cur = cur[1:] if len(cur) < 4000 else cur[1:]
            if ch == "\n":
                used += 1; fit += col == case.W; col = 0
            else:
                if col == case.W: used += 1; col = 0
                col += 1
        if cur == "" and isp and not quit:
            if not prompt(): return False
    if cur or isp: ctx.fail("extra", desc + "shown beyond what was printed: %r" % cur[:300]); return False
    if on and case.sized and not case.ctl and case.rows > 1 and used > limit: ctx.fail("page", desc + "%d rows without prompt at the end, a page has %d" % (used, limit)); return False
    return quit
def check(ctx, case, ev):
    if case.kind == "s":
        o = [e for e in ev if e.get("op") == "out"]
        text = [None if s is None else s[1:] for s in case.seq if s is None or s[0] not in "wr"]
        q = judge(ctx, case, o[0]["out"], case.ans, o[0]["left"], text, 0)
        if any(e[0] < 0 for e in o[0]["st"]): return ctx.fail("return value", "%s" % o[0]["st"])
        if q is True and o[0]["st"][-1][2] >= 0: return ctx.fail("status", "quit, status %d" % o[0]["st"][-1][2])
        if o[1]["out"].replace("--More--" + WIPE, "") != "next command\n": return ctx.fail("next command", "after %r answers %r: %r" % (case.seq, case.ans, o[1]["out"]))
        for e in ev:
            if e.get("op") == "outf" and e["out"] != "".join(s[1:] for s in case.seq if s and s[0] == "p"): return ctx.fail("other stream", "%r" % e["out"])
        ctx.see("sessions"); ctx.see("chunks", len(text)); ctx.see("bytes", len(o[0]["out"]))
    elif case.kind == "f":
        o = [e for e in ev if e.get("op") == "evalkeys"]
        for (f, a, text), e in zip(case.plan, o):
            if e["er"] < 0 or e["res"] != 1: return ctx.fail("eval", str(e)[:400])
            judge(ctx, case, e["out"], a, e["left"], [text], 0)
            ctx.see("filtered sessions" if f else "command sessions")
    else:
        e = [e for e in ev if e.get("op") == "loop"][0]
        cb = [{"outr1": "show"}.get(x["cb"]) or {"c": "cmd", "o": "other"}[x["argv"][0][3]] for x in ev if "cb" in x]
        if cb != case.typed: return ctx.fail("typed ahead", "typed %s, executed %s (%d rows, %d lines)\n%s" % (case.typed, cb, case.rows, case.n, e["out"][-300:]))
        if e["out"].count("--More--") != case.np * case.typed.count("show"): return ctx.fail("typed ahead prompts", "%d prompts, expected %d" % (e["out"].count("--More--"), case.np * case.typed.count("show")))
        ctx.see("command lines typed ahead", len(cb))
    ctx.sample(dict(rows=case.rows, width=case.W))
