"""C31: several handles; options read back."""
from vp import op, Case
import copy
import gram as G, meta as M, rich as R
RULE = ("two or three handles, each with its own random life (creation, loading grammars, setting and reading back options, evaluating, help, completion and editing with its history, switching trees, merging, refused specifications, release and re-creation), run interleaved "
        "in random order and again one after the other, each handle alone; everything each handle reports must be the same in both runs, and a model of the options of each handle follows every setting; non-trivial = distinct (life, segment) compared")
ASSUME = ["the options that are documented as global to the program (terminal size, line scrolling, UTF-8 mode, help text layout, sort order, exit characters, overwrite mode) are set before the lives begin", "a handle is not used from within the callbacks of another"]
N = dict(quick=2500, thorough=80000)
BATCH = 20
TECH = "differential monitor (interleaved against alone) of verdicts, callbacks, values, listings, edited lines, histories and printed grammars per handle; model of the options + ASan/UBSan"
OPTS = dict(caseignore=[0, 1], preference_mode=[0, 1, 2, 3], exclude_keys=[0, 1], expand_first=[0, 1], tabmode=range(8), comment=[ord("#"), ord("!"), ord("%"), 0], delimiter=[ord(" "), ord("/"), ord(".")], regex_xsd=[0, 1], logsyntax=[0],
            wrap=[0, 1], histfn=[0, 1], resolve=[0, 1], userhandle=[0, 1], exiting=[0, 1])
STR = dict(prompt=["", "> ", "cli% ", None, "a longer prompt for this handle# ", "x" * 40], treekw=["treename", "tree", "name-of-tree"])
KEYS = ["\x10", "\x10\x10", "\x0e", "\x10\x10\x0e", "\x02", "\x01", "\x05", "\x17", "\x15", "\x19", "\x0b", "\x7f", "\x12sh", "\x14", "\x04", "\x06"]
def life(rng):
    """list of segments (each a list of ops) without the choice of the handle"""
    segs = []
    for _ in range(rng.choice([1, 1, 2])):
        d = None
        while not d: d = R.make(rng, 8)
        first = [("new",)]
        segs.append(first)
        segs += [[("load", s, t)] for t, s in d["texts"]]
        flat = [(t, p) for t, pr in d["probes"] for p in pr]
        for _ in range(rng.randint(6, 16)):
            k = rng.random()
            if k < .25:
                n = rng.choice(sorted(OPTS) + sorted(STR))
                v = rng.choice(list(OPTS[n])) if n in OPTS else rng.choice(STR[n])
                segs.append([("opt", n, v), ("optget",)])
            elif k < .6:
                t, _ = rng.choice(flat)
                x = [("active", t)]; L = []
                M.emit(L, rng.sample([p for u, p in flat if u == t], min(3, len([p for u, p in flat if u == t]))))
                segs.append(x + [("raw", l) for l in L])
            elif k < .7:
                t, p = rng.choice(flat)
                ks = "".join(rng.choice([rng.choice(KEYS), "".join(c for c in p[1] if 32 <= ord(c) < 127 and c not in "?\\")[:20], "a", " "]) for _ in range(rng.randint(1, 6)))
                segs.append([("keys", ks + "\n", 1, 1)])
            elif k < .75: segs.append([("histadd", "line %d" % rng.randint(0, 9))])
            elif k < .78: segs.append([("histinit", rng.choice([2, 5, 100]))])
            elif k < .82: segs.append([("load", rng.choice(['treename="N";\nzz1; zz2 <x:int32>;\n', 'bad {\n', 'tree="M";\nq, cb("y");\n', "pp, cbp(\"1\");\n"]), "L%d" % rng.randint(0, 2)), ("trees",)])
            elif k < .86: segs.append([("active", rng.choice([d["texts"][-1][0], "nosuch", "N", "L0"])), ("activeget",), ("eval", "zz1")])
            elif k < .9 and len(d["texts"]) > 1: segs.append([("merge", "T", d["texts"][-1][0]), ("mon",)])
            elif k < .93: segs.append([("print", "T", 0)])
            elif k < .96: segs.append([("sort", "T"), ("trees",)])
            else: segs.append([("optget",)])
        segs.append([("optget",), ("mon",)])
        segs.append([("exit",)])
    return segs
def emit(L, slot, tag, seg):
    if seg[0][0] != "new": L.append(op("use", slot))
    L.append(op("mark", tag))
    for o in seg:
        if o[0] in ("new", "exit"): L.append(op(o[0], slot))
        elif o[0] == "raw": L.append(o[1])
        elif o[0] == "opt":
            if o[1] in STR: L.append(op("opt", o[1], 0, *([o[2]] if o[2] is not None else [])))
            else: L.append(op("opt", o[1], o[2]))
        else: L.append(op(*o))
    L.append(op("mark", "-"))
GV = dict(width=[0, 10, 20, 21, 22, 40, 79, 80, 132, 1000, 65534], paging=[0, 1], scrolling=[0, 1], utf8=[0, 1], helptrunc=[0, 1], helplines=[0, 1, 2, 5], lexicalorder=[0, 1], ignorecase=[0, 1])
HV = dict(OPTS, comment=list(OPTS["comment"]) + [255, 128], delimiter=list(OPTS["delimiter"]) + [255])
HS = dict(STR, fnstr=[None, "", "cb", "another_function", "f" * 200])
TN = ["T", "U", "T2", "tree", "", "a b"]
def gen_opts(rng):
    """handles whose options are set in random order, every option read back on every handle after every setting"""
    L, st = [], []
    n = rng.randint(1, 3)
    for k in range(n): L.append(op("new", k)); L.append(op("optget")); st.append(("get", k))
    cur = n - 1
    T = {k: [] for k in range(n)}
    for _ in range(rng.randint(5, 40)):
        k = rng.randrange(n)
        if k != cur: L.append(op("use", k)); cur = k
        if rng.random() < .3:      # the trees of the handle: prompt, pipe, active
            r = rng.random()
            if r < .4 or not T[k]:
                t = rng.choice([x for x in TN if x not in T[k]] or [None])
                if t is None: continue
                pp = rng.choice(["", 'pipetree="|pt"; '])
                L.append(op("load", pp + "c, cb();\n", t)); T[k].append(t); st.append(("ph", k, t, None, "|pt" if pp else None))
            elif r < .85:
                t = rng.choice(T[k] + ["nosuch"]); w = rng.randrange(2); v = rng.choice([None, "", "> ", "|p", "tree prompt# ", "x" * 60])
                L.append(op("phset", t, w, *([v] if v is not None else []))); st.append(("ph", k, t, w, v))
            else:
                t = rng.choice(T[k] + ["nosuch", ""])
                L.append(op("active", t)); st.append(("ph", k, t, "a", None))
            for x in range(n):
                L += [op("use", x), op("phget")]
            L.append(op("use", k)); continue
        d = rng.choice([GV, HV, HV, HS])
        o = rng.choice(sorted(d)); v = rng.choice(list(d[o]))
        L.append(op("opt", o, 0, *([v] if v is not None else [])) if d is HS else op("opt", o, v)); st.append(("set", k, o, v))
        L.append(op("optget")); st.append(("get", k))
        if n > 1 and rng.random() < .5:
            k = rng.choice([x for x in range(n) if x != cur])
            L.append(op("use", k)); cur = k; L.append(op("optget")); st.append(("get", k))
    for k in range(n): L.append(op("exit", k))
    L += [op("new", 0), op("opt", "utf8", 0), op("opt", "width", 80), op("exit", 0)]
    return Case(L, opts=st)
def check_opts(ctx, case, ev):
    it = iter([e for e in ev if e.get("op") in ("opt", "optget", "phset", "phget", "load", "active")])
    H, G = {}, None
    P, A = {}, {}
    for x in case.opts:
        e = next(it)
        if x[0] == "ph":
            _, k, t, w, v = x
            tr = P.setdefault(k, {})
            if e["op"] == "load":
                if not tr: A[k] = t
                tr[t] = [None, v]
            elif w == "a": A[k] = t if t in tr else None
            elif t in tr: tr[t][w] = v
            if e["rc"] != (0 if w is None or w == "a" or t in tr else -2): ctx.fail("tree-option", "%s" % e)
            for k2 in sorted(H):
                g = next(it); tr = P.get(k2, {})
                want = [[t] + o for t, o in tr.items()]
                got = [[g["n%d" % j], g["p%d" % j], g["o%d" % j]] for j in range(sum(q[0] == "n" for q in g))]
                ctx.see("tree tables compared")
                if got != want or g["act"] != A.get(k2): ctx.fail("tree-table", "handle %d: trees %s active %r, expected %s active %r\nhistory %s" % (k2, got, g["act"], want, A.get(k2), case.opts[:case.opts.index(x) + 1][-12:])); return
            continue
        if x[0] == "set":
            _, k, o, v = x
            if o in GV:
                if o == "width": v = 80 if v == 0 else max(v, 21)
                G[o] = v
            else: H[k][o] = v
            ctx.see("options set")
            continue
        k = x[1]
        e = {a: b for a, b in e.items() if a not in ("op", "h")}
        if k not in H:
            H[k] = {a: b for a, b in e.items() if a not in GLOB}
            if G is None: G = {a: b for a, b in e.items() if a in GLOB}
        want = dict(H[k], **G)
        ctx.see("option tables compared"); ctx.nontrivial("opts", repr(sorted(want.items(), key=str)))
        for a in want:
            if e.get(a) != want[a] and a != "rows": ctx.fail("option-table", "%s reads %r, last set (or initial) %r\nhistory %s" % (a, e.get(a), want[a], case.opts[:case.opts.index(x) + 1][-12:])); return
def gen(rng, i, tier):
    if i % 4 == 3: return gen_opts(rng)
    lives = []
    for _ in range(rng.choice([2, 2, 3])):
        l = life(rng)
        lives.append(l)
    L = [op("expset", "ex%d" % j, 0, 3, "eth0", "eth1", "lo") for j in range(12)]
    L.append(op("new", 7))
    for n, v in (("scrolling", rng.randint(0, 1)), ("helptrunc", rng.randint(0, 1)), ("helplines", rng.choice([0, 1])), ("lexicalorder", rng.randint(0, 1)), ("ignorecase", 0), ("utf8", 0)): L.append(op("opt", n, v))
    q = [(n, j) for n, l in enumerate(lives) for j in range(len(l))]
    idx = [0] * len(lives); order = []
    while True:
        c = [n for n in range(len(lives)) if idx[n] < len(lives[n])]
        if not c: break
        n = rng.choice(c); order.append((n, idx[n])); idx[n] += 1
    for n, j in order: emit(L, n, "%d.%d" % (n, j), lives[n][j])
    for n, l in enumerate(lives):
        for j, s in enumerate(l): emit(L, n, "%d.%d" % (n, j), s)
    L += [op("exit", 7)]
    return Case(L, lives=lives, order=order)
GLOB = ("width", "rows", "paging", "scrolling", "utf8", "helptrunc", "helplines", "lexicalorder", "ignorecase")
def check(ctx, case, ev):
    if getattr(case, "opts", None): return check_opts(ctx, case, ev)
    segs = []
    cur = None
    for e in ev:
        if e.get("op") == "mark":
            if e["t"] == "-": segs.append(cur); cur = None
            else: cur = (e["t"], [])
        elif cur is not None:
            e = dict(e); e.pop("h", None); cur[1].append(e)
    half = len(case.order)
    if len(segs) != 2 * half: ctx.fail("events", "%d segments of %d" % (len(segs), 2 * half)); return
    inter = {t: e for t, e in segs[:half]}; alone = {t: e for t, e in segs[half:]}
    for n, j in case.order:
        t = "%d.%d" % (n, j)
        ctx.see("segments compared"); ctx.nontrivial(repr(case.lives[n][j]), repr(case.lives[n][:j])[-300:])
        for e in inter[t]:
            if e.get("op") in ("keys", "eval", "parse", "help", "load", "exit"): ctx.see("observations: " + e["op"])
        if inter[t] != alone[t]:
            ctx.fail("isolation", "handle %d, %s\ninterleaved %s\nalone       %s\nbefore it: %s" % (n, case.lives[n][j], inter[t], alone[t], case.order[:case.order.index((n, j)) + 1][-6:]))
            return
        ctx.sample(dict(segment=repr(case.lives[n][j])[:150]))
    for run in (inter, alone):
        for n, l in enumerate(case.lives):
            m = None
            for j, s in enumerate(l):
                if s[0][0] == "new": m = None
                for o in s:
                    if o[0] == "opt":
                        if m is None: m = {}
                        m[o[1]] = o[2]
                    if o[0] == "optget":
                        e = [x for x in run["%d.%d" % (n, j)] if x.get("op") == "optget"][0]
                        if e["check"] != 0: ctx.fail("check", "%s" % e)
                        if m is not None:
                            for k, v in m.items():
                                ctx.see("options read back")
                                if e[k] != v: ctx.fail("readback", "%s set to %r reads %r" % (k, v, e[k])); return
