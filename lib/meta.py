"""Probing two grammars with the same lines and comparing everything observable."""
import gram as G
from vp import op
def tabbable(l): return all(32 <= ord(c) < 127 and c not in "?\\~" for c in l) and len(l) < 300
def part(rng, l):
    k = rng.randrange(5)
    if k == 0: return l[:rng.randint(0, len(l))]
    if k <= 2: return l + " "
    if k == 3 and " " in l: return l[:l.rindex(" ") + 1]
    return l
def probes(rng, g, n, env=None, junk=True, extra=(), kinds="eeeeeehhtp"):
    """lines to evaluate (e), parse (p), ask help on (h) or complete (t)"""
    out = []
    for l in list(G.lines(rng, g, n, env, junk)) + list(extra):
        k = rng.choice(kinds)
        if k in "ht":
            l = part(rng, l)
            if k == "t" and not tabbable(l): k = "h"
        elif rng.random() < .1: l = " ".join(w[:rng.randint(1, len(w))] if w else w for w in l.split(" "))
        out.append((k, l))
    return out
def emit(L, pr):
    for k, l in pr:
        if k == "e": L.append(op("eval", l))
        elif k == "p": L.append(op("parse", l))
        elif k == "h": L.append(op("help", l))
        else: L.append(op("keys", l + "\t~\n", 1))
KIND = dict(eval="e", parse="p", help="h", keys="t")
def answers(ev):
    """events -> list of (kind, answer) ; answers of equal grammars are equal"""
    out, cbs, exps = [], [], []
    for e in ev:
        if "cb" in e: cbs.append((e["cb"], e.get("argv"), e["cvv"])); continue
        if "exp" in e: exps.append(repr((e["exp"], e.get("argv")))); continue
        o = e.get("op")
        if o not in KIND: continue
        if o in ("eval", "parse"): a = dict(rc=e["rc"], res=e["res"], reason=e.get("reason") or "", co=e.get("co"), coty=e.get("coty"), cvv=e.get("cvv"), cbs=cbs, err=e.get("err", ""))
        elif o == "help": a = dict(rc=e["rc"], out=e["out"])
        else: a = dict(rc=e["rc"], lines=e["lines"], out=e["out"])
        if exps: a["exps"] = sorted(set(exps))
        out.append((KIND[o], a)); cbs, exps = [], []
    return out
def what(a):
    if "res" in a[1]: return "line %s" % {0: "refused", 1: "accepted"}.get(a[1]["res"], "ambiguous")
    return "help" if a[0] == "h" else "TAB"
