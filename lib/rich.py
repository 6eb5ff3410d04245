"""Random specifications using every construct of the language."""
from vp import op
import copy
import gram as G, meta as M, expr as X
HELP = ["h", "two\nlines", "first line\n   indented second", "semi; colon {braces} [brackets] (x) <y>", "it's 50% of a|b", "comma, and @at", "", "# hash", "a 'quoted' word", "é", "trailing ", "byte \xff and \xfe"]
ARGS = ["x", "two words", "a;b", "{x}", "%s/%d", "it's", "a|b", "<v>", "(x)", "[x]", "#", "back\\\\slash in", 'say \\"hi\\"', ("int32", "-42"), ("bool", "true"), ("string", "t"), ("uint64", "18446744073709551615"), ("ipv4addr", "10.0.0.1"), ("", "plain")]
RX = [("[a-c]+", 0), ("x[0-9]*", 0), ("[0-9]+", 1), ("(ab|cd)*", 0), ("[^0-9]*", 0), (".*z", 1), ("[A-Z][a-z]{1,3}", 0), ("a\\.b", 0), ("\\(x\\)", 0), ("a;b|c", 0), ("[>]*a", 0), ("\\d+", 0)]
KW = ["f\\.o", "a\\|b", "x\\;y", "q\\ r", "b\\(c", "b\\)c", "b\\[c", "b\\]c", "l\\<m", "l\\>m", "l\\{m", "l\\}m", "\\@at", "c\\,d", "h\\#", "dollar$", "a\\=b", "a:b", "per%", "st*r", "x+y", "tick'", "ex!"]
def kwtyped(w): return w.replace("\\", "")
def decorate(rng, n, args):
    """special contents"""
    if n.kind == "ref": return
    if rng.random() < .3: n.help = rng.choice(HELP)
    if n.help and "\\" in n.help: n.help = None
    if n.kind == "var" and n.typ != "rest":
        if n.typ == "string" and not n.rng and not n.choice and not n.expand and rng.random() < .3: n.regex = [rng.choice(RX) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .1: n.show = rng.choice(["the name", "NAME", "x-y"])
        if rng.random() < .1: n.pref = rng.randint(1, 200)
        if n.typ == "string" and not n.choice and not n.expand and rng.random() < .05: n.translate = "tr"
    if args: n.cbs = [(f, [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 2]))] if rng.random() < .4 else a) for f, a in n.cbs]
    n.cbs = [(f, a if ("", "plain") not in a else [("", "plain")]) for f, a in n.cbs]
def make(rng, nprobe=20, kinds="eeeeeehhtp", exprs=.35, multi=True, cbname=None, overlap=False):
    """specifications using every construct: dict(texts [(tree, text)], probes [(tree, probes)], fns {expansion function: node}) or None"""
    voc = list(G.WORDS); rng.shuffle(voc)
    fns, probes, texts = {}, [], []
    args = rng.random() < .5
    def expands(nodes, depth=0):
        for n in nodes:
            if depth and n.kind == "var" and not n.choice and n.typ == "string" and rng.random() < .2:
                n.rng, n.regex = [], []
                f = "ex%d" % len(fns)
                n.expand = (f, [("", "unquoted")] if rng.random() < .2 else [rng.choice(["x", "y z", ("int32", "-7")]) for _ in range(rng.choice([0, 1, 2]))])
                fns[f] = n
            expands(n.ch, depth + 1)
    if rng.random() < exprs:
        gg = G.Gen(rng, G.Prof(cbs=True, cbname=cbname or ["cb"]))
        cnt = [0]
        def leaf():
            cnt[0] += 1
            if rng.random() < .3: n = G.gvar(rng, None, False); n.word = "v%d" % cnt[0]
            else: n = G.N("cmd", rng.choice(G.WORDS))
            decorate(rng, n, args)
            return n
        try:
            sts = [X.gen(rng, leaf, gg.cbs) for _ in range(rng.randint(1, 4))]
            g = X.tree(X.variants(sts))
        except X.Big: return None
        texts.append(("T", X.text(sts))); probes.append(("T", M.probes(rng, g, nprobe, kinds=kinds)))
    else:
        names = ["T", "U", "W2"][:rng.choice([1, 1, 1, 2, 3]) if multi else 1]
        for t in names:
            p = G.Prof(depth=rng.randint(1, 4), width=rng.choice([2, 3, 5]), vars=rng.choice([.2, .5]), help=.5, multi=.3, hide=rng.choice([0, .1, .2]), prefp=.1, rest=True)
            if cbname: p.cbname = cbname
            if rng.random() < .2: p.words = G.WORDS + [k for k in KW]
            if len(names) > 1 and not overlap:      # own vocabulary: commands of a referenced tree differ from those beside the reference
                p.words = voc[:20] if t == "T" else voc[20:]; p.choice = False; p.types = [["string", "int32", "ipv4addr"], ["uint8", "bool"], ["macaddr", "uuid"]][names.index(t)]
            g = G.Gen(rng, p).grammar()
            expands(g)
            for n in list(G.walk(g)):
                decorate(rng, n, args)
                if n.term and rng.random() < .1: n.labels = [rng.choice(["la", "=lb", "=local"])]
                if n.ch and rng.random() < .1 and n.typ != "rest" and (n.term or not n.hide and not n.labels): n.sets = True
                if t == "T" and len(names) > 1 and n.ch and not n.sets and n.typ != "rest" and rng.random() < .15:
                    r = G.N("ref", names[-1]); r.ref = names[-1]; r.term = True
                    if rng.random() < .4: r.cbs = [("rcb", [rng.choice(ARGS[:8]) for _ in range(rng.choice([0, 1]))])]
                    if rng.random() < .4: r.labels = rng.choice([["remove:la"], ["remove:@la", "remove:lb"], ["remove:lb"]])
                    n.ch.append(r)
            texts.append((t, G.spec(g, rng if rng.random() < .4 else None)))
            env = dict(trees={x: [] for x in names}, expand=lambda n, b: [])
            h = copy.deepcopy(g)
            def clean(nodes):
                nodes[:] = [n for n in nodes if n.kind != "ref"]
                for n in nodes:
                    if n.expand: n.choice = ["eth0", "eth1", "lo"]
                    n.word = kwtyped(n.word); clean(n.ch)
            clean(h)
            probes.append((t, M.probes(rng, h, nprobe, kinds=kinds)))
    return dict(texts=texts, probes=probes, fns=fns)
def load(L, d, shuffled=None):
    for t, s in d["texts"]: L.append(op("load", s, t))
def supply(L, d):
    for f in d["fns"]: L.append(op("expset", f, 0, 3, "eth0", "eth1", "lo"))
def probe(L, d):
    for t, pr in d["probes"]:
        L.append(op("active", t)); M.emit(L, pr)
def flat(d): return [x for t, pr in d["probes"] for x in pr]
def show(d): return "\n".join("-- %s:\n%s" % x for x in d["texts"])
