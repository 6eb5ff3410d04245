"""C26: malformed specifications."""
from vp import op, Case
import re
import gram as G, meta as M, rich as R
RULE = ("a random grammar is loaded and probed, then illegal specifications are loaded on the same handle (statements illegal by construction planted at a known line of a legal text; legal texts truncated anywhere, with characters or tokens deleted, doubled, swapped or "
        "replaced, and random bytes; as new trees, under the name of the loaded tree, from a string and from a file, and added to the loaded tree), the first grammar is probed again, a further legal one is loaded and probed beside a handle which saw only that one, and loading "
        "the same illegal text over and over is watched for growth of the heap and of the number of grammar objects; non-trivial = distinct refused texts")
ASSUME = ["text added to an already loaded tree uses commands of its own, whose names are no abbreviation conflicts: what it adds before the error stays", "variable names without line breaks"]
N = dict(quick=6000, thorough=150000)
BATCH = 25
TECH = "monitor of return codes, error texts and line numbers, differential probes before and after, heap and object counters + ASan/UBSan"
LOCAL = """a b; }
a; ;
;
, b;
a];
(a;
[a;
a|;
(a|);
();
[];
@;
@|;
a {b};
a { { b; } }
"x" = ;
treename=x;
treename=;
a="x" b;
a("x")("y");
a, ;
a,, b;
a, cb(;
a, cb("x";
a, cb("x" "y");
a, cb("x",);
a, cb(,"x");
a, (x);
a, cb((nosuch)"x");
a, cb((int32)"abc");
a, cb((uint8)"256");
a, cb((ipv4addr)"1.2.3");
a, cb((bool)"maybe");
<x:nosuch>;
<x>;
<>;
<:int32>;
<x:>;
<x::int32>;
<x:int32:y>;
<x:int32 foo:3>;
<x:int32 foo>;
<x:int32 range[5>;
<x:int32 range[a:b]>;
<x:int32 range[1:2:3]>;
<x:int32 range[]>;
<x:int32 range 5>;
<x:int8 range[128]>;
<x:int8 range[-129:1]>;
<x:uint8 range[-1:2]>;
<x:uint16 range[0:65536]>;
<x:int32 range[1:99999999999]>;
<x:uint64 range[18446744073709551616]>;
<x:int64 range[-9223372036854775809:0]>;
<x:int32 range[1.5]>;
<x:decimal64 fraction-digits:300>;
<x:decimal64 fraction-digits:-1>;
<x:decimal64 fraction-digits:x>;
<x:string length[-1]>;
<x:string length[1:-1]>;
<x:string length[a]>;
<x:int32 preference:65536>;
<x:int32 preference:-1>;
<x:int32 preference:high>;
<x:string choice:a||b>;
<x:string choice:a|b show:x>;
<x:string choice:a|>;
<x:string show:>;
<x:string keyword:>;
<x:string translate:f>;
<x:string translate:f("x")>;
<x:string regexp:abc>;
<x:string f((nosuch)"a")>;
<x:string f((int32)"a")>;
<x:string f("a">;
<x:string f(>;
<x:string <y>>;
<x:ipv4addr range[1:2]>;
<x:bool range[1:2]>;
<x:string regexp:!>;
a @{ b; };
a, cb() b;
a < b;""".split("\n")
END = ['a {', 'a { b; c { d; }', 'a("h', 'a("h")', 'a', 'a,', 'a, cb', 'a, cb(', 'a, cb("x', 'a, cb("x")', 'a, cb("x", (int32', 'a @{ b;', '(a', '(a|b', '[a', 'a [b', '<', '<x', '<x:', '<x:int32', '<x:int32 range[1', '<x:int32 range[1:2] range[3:4',
       '<x:string regexp:"a', '<x:string regexp:"a" f("q"', '<x:string f((int32)"1', '<x:string show:"abc', '<x:string choice:a|', '<x:string choice:a', '@', '@|', 'treename', 'treename=', 'treename="x', 'x="1', 'x="1"', 'a, hide {', 'a, l1, l2 { (b', 'a, x="1", cb("2"', 'a \\', '<x:string translate:f(', 'a, # comment', '"x']
LATE = ["zqx4; }", "zqx4, cb(", "<zv:nosuch>;", "zqx2 { zqx5; zqx6", "zqx4(\"h", "zqx4 | ;", "zqx1 {zqx3 <zv:int8 range[300]>;}", "zqx2 [zqx7; ", "zqx2 (zqx8|zqx9), cb(\"x\", ;"]
END = [e for e in END if e not in ("treename",)]
def mutate(rng, t):
    """arbitrary damage"""
    k = rng.randrange(7)
    b = list(t)
    if k == 0: return t[:rng.randint(0, len(t))]
    if k == 1:
        for _ in range(rng.choice([1, 1, 2, 5])):
            if b: del b[rng.randrange(len(b))]
        return "".join(b)
    if k == 2:
        for _ in range(rng.choice([1, 1, 2, 5])): b.insert(rng.randint(0, len(b)), rng.choice(list('{}()[]<>|;,:"\\@#=!\n\t ') + ['("', '")', "@{", "\r", "\x01", "\xff", "a", "0", "-"]))
        return "".join(b)
    tok = re.findall(r"\w+|\s+|.", t)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not tok: break
        j = rng.randrange(len(tok))
        if k == 3: del tok[j]
        elif k == 4: tok.insert(j, tok[rng.randrange(len(tok))])
        elif k == 5:
            l = rng.randrange(len(tok)); tok[j], tok[l] = tok[l], tok[j]
        else: tok[j] = "".join(chr(rng.randint(1, 255)) for _ in range(rng.randint(1, 6)))
    return "".join(tok)
def bad(rng, legal):
    """(text, first line, last line) of an illegal text; lines None: not known to be illegal"""
    stm = [s + "\n" for s in legal]
    k = rng.random()
    if k < .45:
        j = rng.randint(0, len(stm)); x = rng.choice(LOCAL)
        pre = "".join(stm[:j]); l = 1 + pre.count("\n")
        post = "".join(stm[j:])
        return pre + x + "\n" + post, l, l + 1
    if k < .65:
        pre = "".join(stm); l = 1 + pre.count("\n"); x = rng.choice(END) + rng.choice(["", "\n", "\n\n"])
        return pre + x, l, l + x.count("\n")
    t = mutate(rng, "".join(stm)) if k < .97 else "".join(chr(rng.randint(1, 255)) for _ in range(rng.randint(1, 40)))
    return t, None, None
def gen(rng, i, tier):
    A = R.make(rng, 8)
    if not A: return None
    B = R.make(rng, 6, multi=False, exprs=0)
    if not B: return None
    bads = []
    for _ in range(rng.randint(1, 4)):
        p = G.Prof(depth=rng.randint(1, 3), width=rng.choice([2, 3]), vars=.4, help=.5, multi=.3, hide=.1, prefp=.1, rest=True)
        g = G.Gen(rng, p).grammar()
        bads.append(bad(rng, [G.render(n, rng if rng.random() < .3 else None) for n in g]))
    L = [op("new", 0)]
    R.load(L, A); R.supply(L, A); R.probe(L, A)
    into = rng.random() < .3
    how = []
    for n, (t, a, b) in enumerate(bads):
        k = rng.choice(["load", "load", "loadfile"]); name = rng.choice(["bad%d" % n, "bad", "T", A["texts"][-1][0]])
        how.append(k); L.append(op(k, t.replace("\0", " "), name))
    R.probe(L, A)
    late = []
    if into:
        x = rng.choice(LATE)
        L += [op("loadinto", 'zqx1("h"), cb("1"); zqx2 { zqx3, cb("2"); <zv:int32>; }\n' + x, "T"), op("active", "T")]
        late = [(k, l) for k, l in dict((a, b) for a, b in A["probes"])["T"] if k == "e" and l.split() and not "zqx".startswith(l.split()[0][:3]) and not l.startswith("!")]
        M.emit(L, late)
    tb = B["texts"][0][1]
    for h in (0, 1):
        if h: L.append(op("new", 1))
        L.append(op("load", tb, "Bnew")); R.supply(L, B)
        L += [op("active", "Bnew"), op("print", "Bnew", 0)]; M.emit(L, B["probes"][0][1])
    L += [op("exit", 1), op("exit", 0)]
    t, a, b = rng.choice(bads)
    for k in range(4):
        L += [op("new", 2), op("load", t, "B")]
        if into: L += [op("load", "a;\n", "I"), op("loadinto", t, "I")]
        L += [op("exit", 2), op("stats")]
    return Case(L, A=A, B=B, bads=bads, how=how, late=late, into=into)
def check(ctx, case, ev):
    k = len(case.bads); na = len(R.flat(case.A)); nb = len(case.B["probes"][0][1]); nt = len(case.A["texts"])
    lds = [e for e in ev if e.get("op") in ("load", "loadfile")]
    if any(e["rc"] for e in lds[:nt]): ctx.fail("good", "%s\n%s" % (lds[:nt], R.show(case.A))); return
    for e, (t, a, b), how in zip(lds[nt:nt + k], case.bads, case.how):
        if e["rc"] == 0:
            if a is not None: ctx.fail("accepted", "illegal text accepted:\n%s" % t)
            ctx.see("damaged texts that are legal"); continue
        ctx.see("texts refused: %s" % ("planted" if a is not None else "damaged")); ctx.nontrivial(t)
        m = re.search(r"(?:^|\n)(spec|file):(\d+): ", e["err"])
        if not m: ctx.fail("no-line", "no line number: %r\n%s" % (e["err"], t)); continue
        n = int(m.group(2))
        if a is not None and not a <= n <= b: ctx.fail("line", "line %d, the error is on %d-%d: %r\n%s" % (n, a, b, e["err"], t))
        if n < 1 or n > t.count("\n") + 1: ctx.fail("line", "line %d of %d: %r\n%s" % (n, t.count("\n") + 1, e["err"], t))
        ctx.sample(dict(text=t[-120:], error=e["err"][:120]))
    ans = M.answers(ev)
    if len(ans) != 2 * na + len(case.late) + 2 * nb: ctx.fail("lines", "%d" % len(ans)); return
    who = "\nafter %s\n%s" % ([b[0] for b in case.bads], R.show(case.A))
    pa = R.flat(case.A)
    for (kind, l), a, b in zip(pa, ans[:na], ans[na:2 * na]):
        ctx.see("lines compared after refused texts")
        if a != b: ctx.fail("disturbed", "%s %r\nbefore %s\nafter %s%s" % (kind, l, a, b, who))
    off = 0
    for t, pr in case.A["probes"]:
        if t == "T" and case.late:
            rest = list(zip(pr, ans[off:off + len(pr)])); j = 0
            for (kl, b) in zip(case.late, ans[2 * na:2 * na + len(case.late)]):
                while rest[j][0] != kl: j += 1
                a = rest[j][1]; j += 1
                if a[1]["res"] != 1: continue
                ctx.see("lines compared after refused additions")
                if a != b: ctx.fail("added", "%r\nbefore %s\nafter %s%s" % (kl, a, b, who))
        off += len(pr)
    gb = [e for e in lds[nt + k:nt + k + 2]]
    if any(e["rc"] for e in gb): ctx.fail("next", "%s\n%s%s" % (gb, R.show(case.B), who)); return
    pb = [e["text"] for e in ev if e.get("op") == "print"]
    o = 2 * na + len(case.late)
    if pb[0] != pb[1]: ctx.fail("next-print", "%s\n%s%s" % (pb[0], pb[1], who))
    for (kind, l), a, b in zip(case.B["probes"][0][1], ans[o:o + nb], ans[o + nb:]):
        ctx.see("lines compared on later grammars")
        if a != b: ctx.fail("later", "%s %r\nhere %s\nalone %s%s" % (kind, l, a, b, who))
    st = [e for e in ev if e.get("op") == "stats"]
    if st[2]["heap"] != st[3]["heap"] or st[2]["nr"] != st[3]["nr"] or st[2]["fds"] != st[3]["fds"]:
        ctx.fail("leak", "each load leaves %d bytes, %d objects: %r" % (st[3]["heap"] - st[2]["heap"], st[3]["nr"] - st[2]["nr"], [b[0] for b in case.bads]))
