"""C02: everything is released, nothing grows."""
from vp import op, Case
import importlib, random
import rich, meta as M
RULE = ("(a) the histories that the other checks generate (loading good and bad specifications, matching, help, completion, evaluation, merging, editing keystrokes, filters, history files, values, vectors, buffers, descriptors, regular expressions), each run three times in one process and closed: "
        "heap bytes and descriptors after the second and third run are equal, and no grammar object and no child remains; (b) one handle on which a segment of operations is repeated five times: heap, objects and descriptors after the repetitions are equal; (c) malformed specifications loaded repeatedly into one handle; "
        "non-trivial = distinct (source of the history, length, objects created)")
ASSUME = ["memory that the C and XML libraries keep for the process is not counted against the handle: it does not grow from the second repetition on", "the command history is bounded by its size: segments of repeated operations run with a history of two lines"]
N = dict(quick=2500, thorough=80000)
BATCH = 10
TECH = "conservation monitor (heap bytes from the sanitizer allocator, the library's object counter, descriptor table, children) over repeated histories + ASan/UBSan"
MODS = ["c%02d" % k for k in range(3, 34)]
SLOW = {"c22": .25, "c21": .6, "c19": .5}
mods = {}
def mod(n):
    if n not in mods: mods[n] = importlib.import_module(n)
    return mods[n]
SNIP = ['a', 'b', '<x:int32>', '<x:string length[2:4]>', '<x:int8 range[1:3]>', '<x:string regexp:"[a-c]+">', '<x:string choice:a|b>', '<x fn("q")>', '("help")', ', cb("x")', ', hide', ';', ';', '{', '}', '(', ')', '[', ']', '|', '@{', '@t', '@|p', 'treename="t";', 'prompt="x> ";', '"', '"str"', '\\', '<', '>', '#c\n', ', @add:l', ', @remove:l', ' ', '\n', '<!x:uint8>', 'range[', 'decimal64', '<d:decimal64 fraction-digits:3 range[1.1:2.2]>', ', "v"', '=', ':', '<x:nosuch>', '<x:string keyword:k>', 'pipetree="|p";', '<r:rest>', '\x01', '\xff']
def badspec(rng):
    n = rng.choice([1, 2, 4, 8, 20, 60])
    return "".join(rng.choice(SNIP) for _ in range(n))
def gen(rng, i, tier):
    k = rng.random()
    if k < .7:
        n = rng.choice(MODS)
        if rng.random() > SLOW.get(n, 1): return None
        c = mod(n).gen(rng, rng.randrange(100000), tier)
        if c is None or len(c.lines) > 3000: return None
        L = []
        for r in range(3): L += list(c.lines) + [op("resetall"), op("stats")]
        return Case(L, alarm=3 * c.alarm, kind="history", src=n, size=len(c.lines))
    if k < .9:
        d = rich.make(rng, nprobe=12, kinds="eepppphhttk")
        if d is None: return None
        L = [op("new", 0), op("histinit", 2)]
        rich.load(L, d)
        seg = []
        rich.supply(seg, d)
        rich.probe(seg, d)
        extra = []
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < .5: extra.append(op("keys", rng.choice(["\t", "a\t\t\n", "?\n", "\x10\x10\n", "\x12a\n", "x\x01y\x05z\n"]), 2, 0))
            elif r < .8: extra.append(op("print", d["texts"][0][0], 1))
            else: extra += [op("new", 3), op("load", d["texts"][0][1], "n"), op("exit", 3), op("use", 0)]
        for r in range(5): L += seg + extra + [op("stats")]
        L += [op("exit", 0), op("resetall"), op("stats")]
        return Case(L, alarm=120, kind="segment", src="rich", size=len(seg), texts=d["texts"])
    specs = [badspec(rng) for _ in range(rng.randint(1, 6))]
    L = []
    for r in range(3):
        L.append(op("new", 0))
        L.append(op("load", "a; b <x:int32>;\n", "t"))
        for s in specs: L += [op("load", s, "u"), op("loadinto", s, "t")]
        L += [op("active", "t"), op("parse", "b 3"), op("exit", 0), op("resetall"), op("stats")]
    return Case(L, kind="history", src="malformed specifications", size=len(specs), specs=specs)
def check(ctx, case, ev):
    st = [e for e in ev if e.get("op") == "stats"]
    # histories of other checks may contain measurements of their own: the last of each run counts
    if case.kind == "history":
        per = len(st) // 3
        if per * 3 != len(st) or not per: return ctx.fail("events", "%d" % len(st))
        a, b, c = st[per - 1], st[2 * per - 1], st[3 * per - 1]
        where = "history of %s (%d operations)%s" % (case.src, case.size, "\n" + repr(getattr(case, "specs", "")))
        if c["nr"]: return ctx.fail("objects left", "%s: %d grammar objects after everything is closed" % (where, c["nr"]))
        if c["heap"] != b["heap"]: return ctx.fail("heap grows", "%s: %d bytes per run (%d, %d, %d)" % (where, c["heap"] - b["heap"], a["heap"], b["heap"], c["heap"]))
        created = c["created"] - b["created"]
    else:
        if len(st) != 6: return ctx.fail("events", "%d" % len(st))
        where = "segment of %d operations\n%s" % (case.size, "\n".join("-- %s\n%s" % t for t in case.texts))
        b, c = st[3], st[4]
        for k in ("nr", "heap"):
            if st[2][k] < st[3][k] < st[4][k]: return ctx.fail(k + " grows in a handle", "%s: %s per repetition\n%s" % (k, [s[k] for s in st], where))
        if st[5]["nr"]: return ctx.fail("objects left", "%d grammar objects after everything is closed\n%s" % (st[5]["nr"], where))
        created = c["created"] - b["created"]
    for x, y in zip(st, st[1:]):
        if case.kind == "segment" and y["fds"] != x["fds"]: return ctx.fail("descriptors", "%s: %s" % (where, [s["fds"] for s in st]))
    if c["fds"] != b["fds"]: return ctx.fail("descriptors", "%s: %s" % (where, [s["fds"] for s in st]))
    if any(s["child"] for s in st): return ctx.fail("children", "%s: %s" % (where, [s["child"] for s in st]))
    ctx.see("histories of " + case.src); ctx.see("operations", case.size); ctx.see("grammar objects created and freed", created)
    ctx.nontrivial(case.src, case.size, created)
    ctx.sample(dict(source=case.src, operations=case.size, heap=[s["heap"] for s in st]))
