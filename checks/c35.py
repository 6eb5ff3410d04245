"""C35: every line entered at the prompt is handled once, in order, as if matched and evaluated by itself."""
from vp import op, Case
import gram as G, meta as M, rich as R, words as W
RULE = ("random specifications with every construct and callbacks that succeed, fail, return values, change their arguments, print, or ask the program to exit; up to 60 lines (accepted, refused, ambiguous, blank, comments) are typed "
        "at the prompt of the read-and-evaluate call and of the whole loop, under the comment-character, value-vector and wrapper options; alternatives that fail; each line is also matched and evaluated by itself; "
        "non-trivial = distinct (specification, line, interface) compared")
ASSUME = ["what a line by itself does is decided by C03 and C04", "a last line without newline is not generated"]
N = dict(quick=3000, thorough=60000)
BATCH = 30
TECH = "differential monitor (a line by itself / entered at the prompt / in the loop) over recorded verdicts, reasons, callbacks, outcomes, printed text and messages, order and exactly-once over the callback events + ASan/UBSan"
def gen(rng, i, tier):
    d = R.make(rng, rng.choice([6, 14, 25]), kinds="e", multi=rng.random() < .3, cbname=rng.choice([None, ["cb"], ["cb", "fail"], ["cb", "fail", "pos", "outz"], ["cb", "stop", "outz", "fail"], ["cb"] * 12 + ["stop"]]))
    if d is None: return None
    L = [op("new", 0)]
    R.load(L, d); R.supply(L, d)
    t, pr = rng.choice(d["probes"])
    L.append(op("active", t))
    com = rng.choice(["", "", "#", "!"])
    if com: L.append(op("opt", "comment", ord(com)))
    for o in ("wrap", "exclude_keys", "expand_first", "userhandle"):
        if rng.random() < .15: L.append(op("opt", o, 1))
    if d["fns"] and rng.random() < .2: L.append(op("expset", rng.choice(sorted(d["fns"])), -1, 1, "x"))
    ls = []
    for k, l in pr:
        if rng.random() < .15: l = rng.choice(["", " ", "  \t".replace("\t", " "), "#", "# a word", "! x", " # y", "!", "#" + l])
        if rng.random() < .15: l += rng.choice([" ", " # end", " !", "  "])
        if rng.random() < .1: l = " " + l
        if all(32 <= ord(c) < 127 and c not in "?\\" for c in l): ls.append(l)
        if rng.random() < .1 and ls: ls.append(rng.choice(ls))
    if not ls: return None
    keys = "".join(l + rng.choice("\n\n\r") for l in ls)
    seq = [[op("readeval", keys)], [op("loop", keys)], [op("eval", l) for l in ls]]
    order = [0, 1, 2]; rng.shuffle(order)
    L.append(op("activeget"))
    for q in order: L += seq[q] + [op("activeget")]
    return Case(L, d=d, ls=ls, order=order, com=com, head=L[:2])
KEY = ("rc", "res", "reason", "er")
def calls(e):
    if "cb" in e: return ("cb", e["cb"], e["cvv"], e["argv"])
    if "wrap" in e: return ("wrap", e["wrap"], e["name"])
    return None
def check(ctx, case, ev):
    who = R.show(case.d)
    if any(e["rc"] != 0 for e in ev if e.get("op") == "load"): ctx.fail("load", who); return
    k = [j for j, e in enumerate(ev) if e.get("op") == "activeget"]
    if len(k) != 4: ctx.fail("marks", "%d\n%s" % (len(k), who)); return
    part = {q: ev[k[j] + 1:k[j + 1]] for j, q in enumerate(case.order)}
    # a line by itself
    alone, cbs = [], []
    for e in part[2]:
        c = calls(e)
        if c: cbs.append(c)
        if e.get("op") == "eval": alone.append((e, cbs)); cbs = []
    if len(alone) != len(case.ls): ctx.fail("lines", "%d of %d\n%s" % (len(alone), len(case.ls), who)); return
    # what must happen at the prompt
    want, stopped, used = [], None, len(case.ls)
    for j, l in enumerate(case.ls):
        tl = W.trim(l, case.com)
        if not tl: ctx.see("lines passed over"); continue
        e, cb = alone[j]
        want.append((tl, e, cb))
        if e["rc"] < 0: stopped, used = "error", j + 1; break
        if any(c[0] == "cb" and c[1].startswith("stop") for c in cb): stopped, used = "exit", j + 1; break
    left = sum(len(l) + 1 for l in case.ls[used:])
    ctx.see("ended by " + (stopped or "end of input"))
    # the read-and-evaluate call
    got, cbs, fin = [], [], None
    for e in part[0]:
        c = calls(e)
        if c: cbs.append(c)
        if e.get("op") == "read1": got.append((e, cbs)); cbs = []
        if e.get("op") == "readeval": fin = e
    desc = "lines %r comment %r\n%s" % (case.ls, case.com, who)
    eof = got and got[-1][0]["res"] == -2 and got[-1][0]["rc"] == 0
    if eof:
        if got[-1][1]: ctx.fail("eof-callback", "callbacks at the end of input %s\n%s" % (got[-1][1], desc))
        got.pop()
    if bool(eof) != (stopped is None): ctx.fail("end", "ended by %s, end of input reported: %s\n%s" % (stopped, bool(eof), desc)); return
    if len(got) != len(want): ctx.fail("count", "%d lines handled, expected %d: %s\n%s" % (len(got), len(want), [g[0].get("line") for g in got], desc)); return
    for (g, gc), (tl, e, cb) in zip(got, want):
        ctx.nontrivial(who, tl, "readeval"); ctx.see("verdict %s" % {0: "refused", 1: "accepted"}.get(e["res"], "ambiguous") if e["rc"] == 0 else "error")
        if gc != cb: ctx.fail("callbacks", "%r: at the prompt %s\nby itself %s\n%s" % (tl, gc, cb, desc)); return
        if g["rc"] != e["rc"]: ctx.fail("rc", "%r: %s\n%s\n%s" % (tl, g, e, desc)); return
        if e["rc"] < 0: continue
        if g["line"] != tl: ctx.fail("line", "%r: %s\n%s" % (tl, g, desc)); return
        if g["res"] != e["res"] or (g["reason"] or "") != (e.get("reason") or ""): ctx.fail("verdict", "%r: %s\n%s\n%s" % (tl, g, e, desc)); return
        if e["res"] == 1:
            if g["er"] != e["er"]: ctx.fail("outcome", "%r: %s\n%s\n%s" % (tl, g, e, desc)); return
            if not g["out"].endswith(e["out"]): ctx.fail("output", "%r: %s\n%s\n%s" % (tl, g, e, desc)); return
            if e["er"]: ctx.see("callbacks failed")
    if fin["left"] != left: ctx.fail("left", "%d characters left unread, expected %d\n%s" % (fin["left"], left, desc)); return
    # the loop
    lp = [e for e in part[1] if e.get("op") == "loop"][0]
    cbs = [c for c in map(calls, part[1]) if c]
    if cbs != [c for _, _, cb in want for c in cb]: ctx.fail("loop-callbacks", "in the loop %s\n%s" % (cbs, desc)); return
    msgs = []
    for tl, e, cb in want:
        if e["rc"] < 0: break
        if e["res"] == 0: msgs.append('CLI syntax error in: "%s": %s' % (tl, e["reason"]))
        elif e["res"] != 1: msgs.append("Ambiguous command")
        elif e["er"] < 0: msgs.append("CLI callback error")
    shown = [x.strip("\r") for x in lp["out"].split("\n")]
    shown = [x for x in shown if x.startswith("CLI ") or x == "Ambiguous command"]
    ctx.see("messages of the loop", len(msgs)); ctx.nontrivial(who, tuple(case.ls), "loop")
    if shown != msgs: ctx.fail("messages", "shown %s\nexpected %s\n%s" % (shown, msgs, desc)); return
    pos = 0
    for tl, e, cb in want:
        if e["rc"] == 0 and e["res"] == 1 and e["out"]:
            q = lp["out"].find(e["out"], pos)
            if q < 0: ctx.fail("loop-output", "%r: %r not in %r\n%s" % (tl, e["out"], lp["out"], desc)); return
            pos = q + len(e["out"]); ctx.see("printed text found")
    if lp["rc"] != (-1 if stopped == "error" else 0): ctx.fail("loop-return", "%s\n%s" % (lp, desc)); return
    if lp["left"] != left: ctx.fail("loop-left", "%d characters left unread, expected %d\n%s" % (lp["left"], left, desc)); return
    if stopped != "error" and not lp["exiting"]: ctx.fail("exiting", "%s\n%s" % (lp, desc)); return
    ctx.sample(dict(lines=case.ls[:4], messages=msgs[:3], ended=stopped or "eof"))
