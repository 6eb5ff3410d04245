"""Grammar generator, specification printer and reference interpreter (independent of the C code)."""
import copy, re, random
import types_ as T
from words import tokenize, unescape

class Gray(Exception):
    """the rules leave this case open: not judged"""

class N:
    """one grammar node"""
    def __init__(s, kind, word, typ=None, **kw):
        s.kind, s.word, s.typ = kind, word, typ        # word: keyword or variable name
        s.n = 2; s.rng = []; s.regex = []; s.choice = None; s.expand = None; s.pref = 0; s.show = None; s.translate = None
        s.help = None; s.ch = []; s.term = False; s.cbs = []; s.hide = False; s.sets = False; s.labels = []
        s.inner = None; s.orig = None                                   # pseudo keyword: the variable it stands for
        s.ref = None                                    # name of referenced tree
        s.__dict__.update(kw)
    def key(s):
        if s.kind == "cmd": return ("cmd", s.word)
        if s.kind == "ref": return ("ref", s.ref)
        if s.expand: return ("var", s.typ, "x", s.expand[0], tuple(s.expand[1]))
        if s.choice: return ("var", s.typ, "c", tuple(s.choice))
        return ("var", s.typ, s.n if s.typ == "decimal64" else 0, tuple(s.rng), tuple(s.regex))
    def __repr__(s): return "%s%s%s" % (s.word, ":" + s.typ if s.typ else "", s.ch or "")

PREF = dict(rest=1, bool=12, interface=10, ipv4addr=70, ipv4prefix=70, ipv6addr=71, ipv6prefix=71, macaddr=72, url=20, uuid=73, time=74, decimal64=62)
IPREF = dict(int8=(52, 60), int16=(50, 58), int32=(48, 56), int64=(46, 54), uint8=(51, 59), uint16=(49, 57), uint32=(47, 55), uint64=(45, 53))
def pref(n, exact):
    if n.pref: return n.pref
    if n.kind == "cmd": return 100 if exact else 3
    if n.typ in IPREF: return IPREF[n.typ][1 if n.rng else 0]
    if n.typ == "string": return 8 if n.expand else 7 if n.regex else 5
    return PREF[n.typ]

# ------------------------------------------------------------------ value limits
def fits(n, tok):
    """does the word fit the variable; -> (bool, canonical value) ; raises Gray"""
    j = T.judge(n.typ, n.n, tok)
    if j is None: raise Gray("value")
    if not j[0]: return False, None
    v = j[2]
    if n.typ in ("string", "rest"):
        for pat, inv in n.regex:
            if bool(re.fullmatch(pat, v, re.S)) == bool(inv): return False, None
        if n.rng:
            ln = len(v.encode("latin-1"))
            if not any(lo <= ln <= hi for lo, hi in n.rng): return False, None
    elif n.rng and not any(lo <= v <= hi for lo, hi in n.rng): return False, None
    return True, j[1]

# ------------------------------------------------------------------ specification text
def q(s): return '"%s"' % s
def vartext(n):
    o = "<%s:%s" % (n.word, n.typ)
    if n.typ == "decimal64": o += " fraction-digits:%d" % n.n
    for lo, hi in n.rng:
        if n.typ == "decimal64": lo, hi = (None if lo is None else T.dec_print(lo, n.n)), T.dec_print(hi, n.n)
        k = "length" if n.typ in ("string", "rest") else "range"
        mn = T.INTS.get(n.typ, (None,))[0]
        if k == "length": o += " length[%s:%s]" % (lo, hi) if lo or getattr(n, "full", 1) else " length[%s]" % hi
        elif lo == mn and not getattr(n, "full", 1): o += " range[%s]" % hi
        else: o += " range[%s:%s]" % (lo, hi)
    for p, inv in n.regex: o += ' regexp:%s"%s"' % ("!" if inv else "", p)
    if n.show: o += ' show:"%s"' % n.show
    if n.expand: o += " %s(%s)" % (n.expand[0], ",".join(q(a) if isinstance(a, str) else "(%s)%s" % (a[0], q(a[1])) if a[0] else a[1] for a in n.expand[1]))
    if n.translate: o += " translate:%s()" % n.translate
    if n.pref: o += " preference:%d" % n.pref
    if n.choice: o += " choice:%s" % "|".join(n.choice)
    return o + ">"
def head(n):
    if n.kind == "ref": t = "@" + n.ref
    else: t = n.word if n.kind == "cmd" else vartext(n)
    return t + ('("%s")' % n.help if n.help is not None else "")
def lab(x): return x[1:] if x[0] == "=" else "@" + x      # a label is any option word; "=" marks those without @
def opts(n, rng=None):
    o = "".join(", @%s" % l for l in [])
    l = ["%s(%s)" % (f, ",".join(q(a) if isinstance(a, str) else "(%s)%s" % (a[0], q(a[1])) if a[0] else a[1] for a in args)) for f, args in n.cbs]
    if n.hide: l.insert(rng.randint(0, len(l)) if rng else 0, "hide")
    for x in n.labels: l.append(lab(x))
    if rng and rng.random() < .3: return "".join(rng.choice([", ", ",", " , ", ",\n ", ", # comment; {\n", " # \"\n,", ",\r\n\t"]) + x for x in l)
    return "".join(", " + x for x in l)
def render(n, rng, ind=0):
    """statement text for one node and its subtree"""
    sp = rng.choice([" ", " ", "\n" + "  " * ind, "\t", " # comment; }\n", "\r\n"]) if rng else " "
    if not n.ch: return head(n) + opts(n, rng) + ";"
    one = len(n.ch) == 1 and not n.sets and not n.ch[0].term or (len(n.ch) == 1 and not n.sets and not n.ch[0].ch)
    if not n.term and not n.hide and not n.labels and one and (not rng or rng.random() < .7):
        return head(n) + " " + render(n.ch[0], rng, ind)
    body = "\n".join("  " * (ind + 1) + render(c, rng, ind + 1) for c in n.ch)
    o = opts(n, rng) + ";" if n.term else (", hide" if n.hide else "") + "".join(", " + lab(l) for l in n.labels)
    return "%s%s%s%s{\n%s\n%s}" % (head(n), o, sp, "@" if n.sets else "", body, "  " * ind)
def grouped(rng, nodes, p, cnt=None):
    """some keywords become groups of alternatives -> (grammar to print, grammar it stands for)"""
    cnt = cnt or [0]
    ps, ms = [], []
    for n in nodes:
        cs, cm = grouped(rng, n.ch, p, cnt)
        s, m = copy.copy(n), copy.copy(n); s.ch, m.ch = cs, cm
        ps.append(s); ms.append(m)
        if n.kind == "cmd" and n.help is None and n.word.isalnum() and rng.random() < p:
            ws = []
            for _ in range(rng.randint(1, 2)): cnt[0] += 1; ws.append("zg%dx" % cnt[0])
            for w in ws:
                t = copy.deepcopy(m); t.word = w; ms.append(t)
            o = [n.word] + ws; rng.shuffle(o)
            s.word = "(%s)" % " | ".join(o)
    return ps, ms
def spec(nodes, rng=None):
    return ("\n" if not rng or rng.random() < .7 else rng.choice(["", "\n\n", " # comment }\n", "\n#\n"])).join(render(n, rng) for n in nodes) + "\n"

# ------------------------------------------------------------------ reference interpreter
class V:
    """verdict"""
    def __init__(s, what, why=None, node=None, binds=None):
        s.what, s.why, s.node, s.binds = what, why, node, binds or []
    def __repr__(s): return "%s(%s) %s" % (s.what, s.why, s.binds)

def alts(nodes, env, binds, top=False):
    """alternatives at a point: choices and run-time alternatives become keywords"""
    out = []
    for n in nodes:
        if n.kind == "ref":
            for c in env["trees"][n.ref]:
                if n.labels_out & set(c.labels): continue
                out.append(c)
        elif n.choice:
            for w in n.choice: out.append(N("cmd", w, orig=n, ch=n.ch, term=n.term, cbs=n.cbs, help=n.help, hide=n.hide, sets=n.sets, pref=n.pref))
        elif n.expand:
            if top: continue
            for w, h in env["expand"](n, binds):
                m = N("cmd", w, orig=n, ch=n.ch, term=n.term, cbs=n.cbs, help=h, hide=n.hide, sets=n.sets, pref=n.pref)
                if w[0] == '"': m.inner = w[1:-1]
                out.append(m)
        else: out.append(n)
    return out
def tmatch(n, tok, rest, env, listing=False):
    """-> (matches, exact, canonical value)"""
    if n.kind == "cmd":
        if tok == "": raise Gray("empty word")
        w = n.word if listing or n.inner is None else n.inner
        a, b = (w.lower(), tok.lower()) if env.get("caseignore") else (w, tok)
        return a.startswith(b), len(a) == len(b), tok
    ok, v = fits(n, rest if n.typ == "rest" else tok)
    return ok, False, v
def best(cands, tok, rest, last, env):
    m, top = [], 0
    for n in cands:
        ok, ex, v = tmatch(n, tok, rest, env)
        if not ok: continue
        p = pref(n, ex)
        if p > top: m, top = [(n, v)], p
        elif p == top: m.append((n, v))
    if len(m) > 1 and all(n.kind == "var" for n, _ in m):
        pm = env.get("prefmode", 0)
        if pm == 3 or (pm == 1 and last) or (pm == 2 and not last):
            if env.get("choose") is None: raise Gray("order among ties")
            m = [env["choose"](m)]
    return m
def translated(n, v):
    """the value after the translation function of the variable (those of the harness)"""
    if n.translate == "tr": return "".join(c.upper() if "a" <= c <= "z" else c for c in v)
    if n.translate == "tr_app": return v + "+"
    if n.translate == "tr_inc": return str((int(v) + 1 + 2**31) % 2**32 - 2**31)
    return v
def translate(rng, nodes, p):
    """give variables a translation function"""
    for n in walk(nodes):
        if n.kind == "var" and n.typ in ("string", "int32") and rng.random() < p: n.translate = "tr_inc" if n.typ == "int32" else rng.choice(["tr", "tr_app", "tr_app"])
def bind(n, v, tok):
    if n.kind == "var": return (n.word, n.typ, 0, translated(n, v))
    if n.orig is not None:
        o = n.orig
        j = T.judge(o.typ, o.n, n.word if n.inner is None else n.inner)
        if j is None or not j[0]: raise Gray("alternative not of the variable's type")
        return (o.word, o.typ, 0, translated(o, j[1]))
    return (n.word, "string", 1, n.word)
def reason_class(cands, tok, rest, env):
    return "var" if any(n.kind == "var" for n in cands) else "unknown"
def interp(nodes, line, env):
    """judge a (trimmed) line"""
    toks, rests = tokenize(line)
    binds, cur, i, top = [], nodes, 0, True
    while True:
        cands = alts(cur, env, binds, top)
        tok, rest, last = toks[i], rests[i], i == len(toks) - 1
        m = best(cands, tok, rest, last, env)
        if not m: return V("NOMATCH", reason_class(cands, tok, rest, env))
        if len(m) > 1:
            if env.get("caseignore") and all(x.kind == "cmd" for x, _ in m) and len({x.word.lower() for x, _ in m}) == 1: raise Gray("keywords differing only in case")
            if not last: return V("NOMATCH", "ambiguous")
            return V("MULTIPLE", None)
        n, v = m[0]
        binds.append(bind(n, v, tok))
        isrest = n.kind == "var" and n.typ == "rest"
        if last or isrest:
            if n.term: return V("MATCH", None, n, binds)
            return V("NOMATCH", "incomplete")
        if not n.ch: return V("NOMATCH", "unknown")
        if n.sets: raise Gray("sets")
        cur = n.ch; i += 1; top = False

# ------------------------------------------------------------------ generation
WORDS = ["a", "ab", "abc", "abcd", "b", "ba", "bar", "s", "set", "show", "shut", "sh", "in", "int", "inter", "interface", "no", "not", "x", "xy", "x1", "x10", "x2",
         "run", "Run", "RUN", "clear", "cl", "e", "err", "q-u", "under_s", "v4", "true", "on", "f.o", "a/b", "42", "7", "long-keyword-with-many-letters"]
VN = ["v", "w", "name", "addr", "k", "z9", "Id", "num", "a", "b"]
SAFE = "abcdefgxyzABC0123456789_-."
def gvar(rng, types=None, rest=True, lim=True, choice=True):
    t = rng.choice(types or ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "decimal64", "bool", "string", "string", "string",
                             "ipv4addr", "ipv4prefix", "ipv6addr", "ipv6prefix", "macaddr", "url", "uuid", "time", "interface"] + (["rest"] if rest else []))
    n = N("var", rng.choice(VN) + rng.choice(["", "", "1", "2"]), t)
    n.n = rng.randint(1, 18) if t == "decimal64" else 2
    if lim and rng.random() < .35:
        if t in T.INTS: n.rng = granges(rng, *T.INTS[t])
        elif t == "decimal64": n.rng = granges(rng, -10**6, 10**6)
        elif t == "string":
            k = rng.choice([0, 0, 1, 1, 2, 2, 3])
            if k in (0, 3): n.rng = granges(rng, 0, 12)
            if k == 3: n.regex = [rng.choice(REGEX)]
            elif k == 1: n.regex = [rng.choice(REGEX) for _ in range(rng.choice([1, 1, 2]))]
            elif choice: n.choice = rng.sample(["red", "green", "grey", "r", "blue", "bl-ue", "on", "up", "10", "1", "100", "2.5", "2.55", "a-choice-of-more-than-thirty-two-characters-in-all", "a-choice-of-more-than-thirty-two-characters-at-the-end"], rng.randint(1, 4))
    return n
REGEX = [("[a-c]+", 0), ("x[0-9]*", 0), ("[0-9]+", 1), ("(ab|cd)*", 0), ("a", 0), ("[a-c]+", 1), ("a.*", 1), ("a", 1), ("[^0-9]*", 0), ("a.*", 0), (".*z", 1), ("[A-Z][a-z]{1,3}", 0)]
def granges(rng, lo, hi):
    r = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(4)
        if k == 0: a = b = rng.choice([lo, hi, rng.randint(lo, hi)])
        elif k == 1: a, b = rng.choice([(lo, rng.randint(lo, hi)), (rng.randint(lo, hi), hi), (lo, hi)])
        else: a, b = sorted((max(lo, min(hi, rng.randint(-50, 300))), max(lo, min(hi, rng.randint(-50, 300)))))
        r.append((a, b))
    return r
def inside(rng, n):
    """a word that fits the variable (best effort)"""
    for _ in range(30):
        if n.choice: return rng.choice(n.choice)
        if n.regex: s = rng.choice(["abc", "x12", "ab", "abcd", "a", "cab", "Abc", "Xy", "az", "hello", "x", "aaaa", "Ab", "12"])
        elif n.rng and n.typ != "string":
            lo, hi = rng.choice(n.rng)
            v = rng.choice([lo, hi, rng.randint(lo, hi)])
            s = T.dec_print(v, n.n) if n.typ == "decimal64" else T.fmt_int(rng, v)
        elif n.rng:
            lo, hi = rng.choice(n.rng)
            ln = rng.choice([lo, hi, rng.randint(lo, hi)])
            s = "".join(rng.choice(SAFE) for _ in range(ln))
            if ln == 0: s = '""'; return s
        elif n.typ in ("string", "interface", "rest"):
            s = "".join(rng.choice(SAFE) for _ in range(rng.randint(1, 8)))
            if n.typ == "rest" and rng.random() < .6: s += " " + "".join(rng.choice(SAFE) for _ in range(rng.randint(1, 8)))
        else:
            s = T.good(rng, n.typ, n.n)
        try:
            if fits(n, s)[0] and s and not any(c in ' \t"\\' for c in s) or n.typ == "rest": return s
        except Gray: pass
        if n.typ == "time": return '"%s"' % s.replace('"', "") if " " in s else s
    return T.good(rng, n.typ, n.n).replace(" ", "T").replace('"', "") or "0"
def wordfor(rng, n):
    """text typed for a node: (usually) matching"""
    if n.kind == "var": 
        if n.choice:
            w = rng.choice(n.choice)
            return w if rng.random() < .6 else w[:rng.randint(1, len(w))]
        k = rng.random()
        if n.typ == "string" and not n.rng and not n.regex and not n.expand and rng.random() < .15:
            return '"%s"' % "".join(rng.choice(['a', 'b c', '\\"', ' ', ';', '{', '\\\\', '?', '  ', '#', "'", 'é', '$x', '@', '|']) for _ in range(rng.randint(1, 5)))
        if k < .75: return inside(rng, n)
        s = T.text(rng, n.typ, n.n)
        s = "".join(c for c in s if c not in ' \t"\\#?')
        return s or "0"
    w = n.word
    if n.kind == "cmd" and rng.random() < .4: w = w[:rng.randint(1, len(w))]
    return w
ARGS = ["x", "arg two", "3", "a,b", "long argument text; {x}", ("string", "typed"), ("int32", "-42"), ("uint8", "255"), ("bool", "true"), ("ipv4addr", "10.0.0.1")]
class Prof:
    """what a generated grammar may contain"""
    def __init__(s, **kw):
        s.depth = 4; s.width = 4; s.vars = .35; s.types = None; s.rest = True; s.lim = True; s.choice = True; s.help = .7; s.cbs = True; s.hide = 0; s.words = WORDS
        s.term = .35; s.prefp = 0; s.multi = 0.2; s.cbname = ["cb"]; s.args = True; s.samevar = False; s.samename = True
        s.__dict__.update(kw)
class Gen:
    def __init__(s, rng, prof):
        s.rng, s.p, s.ncb = rng, prof, 0
    def cbs(s):
        rng = s.rng
        out = []
        for _ in range(rng.choice([2, 2, 2, 3, 4]) if rng.random() < s.p.multi else 1):
            s.ncb += 1
            out.append(("%s%d" % (rng.choice(s.p.cbname), s.ncb), [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4, 6]))] if s.p.args else []))
        return out
    def level(s, depth):
        rng, p = s.rng, s.p
        out, keys = [], set()
        for _ in range(rng.randint(1, p.width if depth < p.depth else max(1, p.width // 2))):
            if rng.random() < p.vars: n = gvar(rng, p.types, p.rest, p.lim, p.choice)
            else: n = N("cmd", rng.choice(p.words))
            if n.key() in keys: continue
            if n.choice and any(("cmd", w) in keys for w in n.choice): continue
            if n.kind == "var" and not p.samename and any(o.word == n.word for o in out): continue
            keys.add(n.key())
            for w in n.choice or []: keys.add(("cmd", w))
            if n.pref == 0 and n.kind == "var" and rng.random() < p.prefp: n.pref = rng.randint(1, 110)
            if rng.random() < p.help: n.help = rng.choice(["help %s" % n.word, "Text about things", "h", "some longer explanation of the item, with punctuation", ""])
            if rng.random() < p.hide: n.hide = True
            leaf = depth >= p.depth or rng.random() < .3 or (n.kind == "var" and n.typ == "rest")
            if not leaf: n.ch = s.level(depth + 1)
            n.term = leaf or rng.random() < p.term
            if n.term and p.cbs: n.cbs = s.cbs()
            out.append(n)
        return out
    def grammar(s): return s.level(1)
def lines(rng, nodes, n, env=None, junk=True):
    """command lines walking the grammar, some complete, some damaged"""
    out = []
    for _ in range(n):
        cur, ws = nodes, []
        while True:
            if not cur: break
            k = rng.choice(cur)
            if k.kind == "ref":
                cur = env["trees"][k.ref]; continue
            ws.append(wordfor(rng, k))
            if k.typ == "rest": break
            if k.term and (not k.ch or rng.random() < .5): break
            cur = k.ch
        if junk and rng.random() < .25:
            j = rng.randrange(5)
            if j == 0: ws.append(rng.choice(["extra", "a", "1", "x", "ab"]))
            elif j == 1 and len(ws) > 1: ws.pop()
            elif j == 2: ws[rng.randrange(len(ws))] = rng.choice(["a", "zz", "ab", "1", "-1", "abcde", "i", "s", "sh", "on", "1.1.1.1"])
            elif j == 3 and len(ws) > 1: del ws[rng.randrange(len(ws))]
            else:
                w = rng.randrange(len(ws)); ws[w] += rng.choice(["a", "1", "x"])
        out.append(" ".join(ws))
    return out
def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n.ch)
def interp_all(nodes, line, env):
    """every verdict a tie-breaking rule may give (set-valued; ties between variables under the preference modes)"""
    out, seen = [], []
    def go(picks):
        k = [0]; branch = [None]
        def order(n): return 0
        e = dict(env)
        def choose(cands):
            i = k[0]; k[0] += 1
            if i < len(picks): return cands[picks[i]]
            branch[0] = len(cands); raise _Branch()
        e["choose"] = choose
        try: out.append(interp(nodes, line, e))
        except _Branch:
            for j in range(branch[0]): go(picks + [j])
    go([])
    return out
class _Branch(Exception): pass
# ------------------------------------------------------------------ help and completion
def shown(nodes):
    """the grammar without hidden nodes (and what lies under them)"""
    import copy
    out = []
    for n in nodes:
        if n.hide: continue
        m = copy.copy(n); m.ch = shown(n.ch); out.append(m)
    return out
def visible(nodes, line, env):
    """alternatives for the last word of a line (nodes: grammar without hidden nodes) -> (candidates, their filtered list, earlier bindings)"""
    toks, rests = tokenize(line)
    binds, cur, top = [], nodes, True
    for i, (tok, rest) in enumerate(zip(toks, rests)):
        cands = alts(cur, env, binds, top)
        if i == len(toks) - 1:
            if tok == "":
                if rest or (line and line[-1] not in " \t"): raise Gray("empty word")
                return cands, tok, binds
            if any(n.inner is not None for n in cands) and rest[:1] == '"' and tok[:1] != '"': raise Gray("listing after a closed quote")
            return [n for n in cands if tmatch(n, tok, rest, env, True)[0]], tok, binds
        m = best(cands, tok, rest, False, env)
        if env.get("caseignore") and len(m) > 1 and all(x.kind == "cmd" for x, _ in m): 
            if len({x.word.lower() for x, _ in m}) < len(m): raise Gray("keywords differing only in case")
        if len(m) != 1: return [], tok, binds
        n, v = m[0]
        if n.kind == "var" and n.typ == "rest": return [n], tok, binds
        binds.append(bind(n, v, tok))
        if n.sets: raise Gray("sets")
        cur = n.ch; top = False
    return [], "", binds
def display(n):
    return n.word if n.kind == "cmd" else "<%s>" % (n.show or n.word)
def copy_node(n):
    import copy
    return copy.copy(n)
