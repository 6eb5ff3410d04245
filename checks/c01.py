"""C01: no memory error or undefined behaviour, whatever the input."""
from vp import op, Case
import importlib, os, random, time, subprocess, tempfile, shutil, re
import rich, hostile as X, vp
RULE = ("the library is built with AddressSanitizer + UndefinedBehaviorSanitizer and with MemorySanitizer and is given: specifications put together from fragments of the specification language or mutated from valid ones; mutated command lines, values, keystrokes, help requests, regular expressions, history files, aliases and option values; "
        "and the histories of the other checks, as they are and with mutated strings; the cligen_file program gets mutated specifications, options and keystrokes; any sanitizer report, abnormal end or missing answer is a violation; "
        "non-trivial = distinct (kind of case, source, events observed)")
ASSUME = ["integer arguments are values that the interface documents; only strings are arbitrary", "callbacks that run shell commands are not reachable from mutated texts", "memory of libxml2 is outside the MemorySanitizer build"]
N = dict(quick=15000, thorough=300000)
BATCH = 20
SANS = ["asan", "asan", "msan"]
TECH = "ASan + UBSan + MSan builds of the library and of the cligen_file program under mutated and hostile input (crash/report oracle)"
MODS = ["c%02d" % k for k in range(2, 33)]
SLOW = {"c22": .1, "c21": .3, "c19": .3, "c02": .3, "c28": .5}
PIPES = {"c02", "c21", "c22", "c12", "c32"}
# operations and the string arguments of theirs that may be anything
MUT = dict(load=(0,), loadfile=(0,), loadinto=(0,), loadnoglob=(0,), parse=(0,), eval=(0,), help=(0,), keys=(0,), loop=(0,), vt=(2,), pint=(1,), vparse=(1,), vname=(1,), vstr=(1,), vstrn=(1,), vurl=(2,), cadd=(2, 3), caddstr=(1, 2), cset=(2,),
           cstart=(0,), cname=(1,), cfind=(1,), csplit=(0,), ctxt=(0,), ctrim=(0,), cescape=(0,), bstr=(1,), bprintf=(1,), bbuf=(1,), histadd=(0,), alias=(1, 2, 3), re=(0, 2, 3), rec=(0, 2, 3), outset=(1, 2), expset=(3, 4, 5), expsetesc=(3, 4, 5), findone=(1,), active=(0,), pend=(0,))
FRAG = dict(load=X.SNIP, loadfile=X.SNIP, loadinto=X.SNIP, loadnoglob=X.SNIP, parse=X.LINE, eval=X.LINE, help=X.LINE, keys=X.KEY, loop=X.KEY)
mods = {}
def mod(n):
    if n not in mods: mods[n] = importlib.import_module(n)
    return mods[n]
def mutline(rng, l, p):
    w = l.split(" ")
    if w[0] not in MUT: return l
    for k in MUT[w[0]]:
        if k + 1 < len(w) and w[k + 1][:1] == "=" and rng.random() < p:
            s = bytes.fromhex(w[k + 1][1:]).decode("latin-1")
            if "pipe" in s and "pipesh" in s: continue
            w[k + 1] = "=" + X.mutate(rng, s, FRAG.get(w[0], X.VAL)).encode("latin-1").hex()
    return " ".join(w)
OPTS = [("caseignore", [0, 1]), ("preference_mode", [0, 1, 2, 3]), ("exclude_keys", [0, 1]), ("expand_first", [0, 1]), ("tabmode", range(8)), ("comment", [35, 0, 33, 97, 255]), ("delimiter", [32, 47, 0, 255, 97]), ("lexicalorder", [0, 1]), ("ignorecase", [0, 1]),
        ("regex_xsd", [0, 0, 1]), ("width", [0, 1, 5, 21, 22, 30, 40, 80, 1000]), ("rows", [0, 1, 2, 5, 24, 100]), ("scrolling", [0, 1]), ("utf8", [0, 1]), ("helptrunc", [0, 1]), ("helplines", [0, 1, 2, 10]), ("logsyntax", [0, 1]), ("wrap", [0, 1])]
def options(rng, L, msan=False):
    for k, v in OPTS:
        if rng.random() < .2: L.append(op("opt", k, rng.choice(list(v))))
    if rng.random() < .25: L.append(op("opt", "prompt", 0, rng.choice(["", "> ", "p" * 30, "a\nb> ", "\xc3\xa5> ", "x" * 200, "\x1b[1m> ", "\n"])))
    if rng.random() < .2: L.append(op("histinit", rng.choice([0, 1, 2, 100])))
def traffic(rng, L, words, n):
    """requests on whatever is loaded"""
    for _ in range(n):
        r = rng.random()
        l = " ".join(rng.choice(words) for _ in range(rng.randint(0, 4))) if words and rng.random() < .6 else X.line(rng)
        if rng.random() < .3: l = X.mutate(rng, l, X.LINE)
        if r < .25: L.append(op("parse", l))
        elif r < .5: L.append(op("eval", l))
        elif r < .65: L.append(op("help", l))
        elif r < .9:
            k = X.keys(rng)
            if rng.random() < .5: k = l + rng.choice(["\t", "?", "\t\t", " \t", "?\t", "\x12", "\x10"]) + k
            L.append(op("keys", k, rng.choice([1, 3, 8]), rng.choice([0, 1])))
        elif r < .94: L.append(op("loop", X.keys(rng)))
        elif r < .96: L.append(op("histadd", X.mutate(rng, l)))
        elif r < .98: L.append(op("alias", "t", rng.choice(words or ["al"]), X.value(rng), l))
        else: options(rng, L)
def gen(rng, i, tier):
    msan = (i // BATCH) % len(SANS) == 2
    k = rng.random()
    if k < .45:
        n = rng.choice(MODS)
        if rng.random() > SLOW.get(n, 1): return None
        if msan and n in ("c13",): return None # libxml2 itself is not instrumented
        c = mod(n).gen(rng, rng.randrange(100000), tier)
        if c is None or len(c.lines) > 3000: return None
        L = list(c.lines); kind = "history"
        if n not in PIPES and rng.random() < (.5 if msan else .85):
            p = rng.choice([.03, .1, .3]); kind = "mutated history"
            L = [mutline(rng, l, p) for l in L]
        return Case(L, alarm=min(c.alarm, 20), kind=kind, src=n)
    if k < .58:
        L = []
        for _ in range(rng.choice([10, 40])):
            r = rng.random(); t = rng.choice(X.TYPES); v = X.value(rng)
            if r < .35: L.append(op("vt", t, rng.choice([0, 1, 2, 5, 17, 18]), v))
            elif r < .5: L += [op("vnew", 0, t), op("vdecn", 0, rng.choice([1, 2, 5, 18])) if t == "decimal64" else op("vname", 0, "n"), op("vparse", 0, v), op("vget", 0), op("vdup", 1, 0), op("vname", 0, X.value(rng)), op("vcp", 1, 0), op("vcmp", 0, 1), op("vparse", 1, X.value(rng)), op("vget", 1), op("vfree", 0), op("vfree", 1)]
            elif r < .6: L.append(op("pint", rng.choice(X.TYPES[:8] + ["bool", "dec1", "dec5", "dec18"]), v))
            elif r < .7: L.append(op("csplit", X.line(rng) if rng.random() < .5 else v))
            elif r < .75: L.append(op("ctxt", v))
            elif r < .8: L.append(op("ctrim", rng.choice([v, X.line(rng)]), rng.choice([32, 35, 92, 0, 10])))
            elif r < .85: L.append(op("cescape", rng.choice([v, X.line(rng)])))
            elif r < .9: L += [op("cnew", 0, rng.choice([0, 1, 3])), op("caddstr", 0, v, X.value(rng)), op("cfind", 0, v), op("cname", 0, X.value(rng)), op("cdump", 0), op("cfree", 0)]
            elif r < .95: L.append(op("rec", v, "x" if rng.random() < .3 and not msan else "p", X.value(rng), X.value(rng)))
            else: L += [op("bnew", 0), op("bprintf", 0, v), op("bstr", 0, X.value(rng)), op("bbuf", 0, v), op("bfree", 0)]
        return Case(L, alarm=20, kind="values", src="")
    L = [op("new", 0)]
    if k < .8:
        d = rich.make(rng, nprobe=6)
        if d is None: return None
        options(rng, L)
        rich.load(L, d)
        if rng.random() < .5: rich.supply(L, d)
        words = [w for t, s in d["texts"] for w in re.findall(r"[a-z]{2,}", s)][:60] + X.VAL[:8]
        traffic(rng, L, words, rng.choice([5, 15, 40]))
        src = "valid specification"
    else:
        if rng.random() < .3: L.append(op("load", "a; b <x:int32>;\n", "t"))
        options(rng, L)
        for _ in range(rng.choice([1, 1, 2, 4])):
            r = rng.random()
            if r < .5: s = X.spec(rng)
            else:
                d = rich.make(rng, nprobe=1)
                if d is None: return None
                s = X.mutate(rng, d["texts"][0][1], X.SNIP)
            nm = rng.choice(["t", "t", "u", "|p"])
            r = rng.random()
            L.append(op("load", s, nm) if r < .7 else op("loadfile", s, nm) if r < .8 else op("loadinto", s, "t") if r < .9 else op("loadnoglob", s))
        L += [op("map"), op("trees"), op("active", rng.choice(["t", "t", "u", "nosuch"]))]
        if rng.random() < .5: L += [op("print", "t", 0), op("print", "t", 1), op("dump", "t"), op("mon")]
        traffic(rng, L, ["a", "b", "ab", "x", "1", "k"], rng.choice([5, 15]))
        if rng.random() < .3: L += [op("dup", "t", "d"), op("merge", "t", "d"), op("sort", "t"), op("mon"), op("print", "t", 1)]
        src = "malformed specification"
    L.append(op("exit", 0))
    return Case(L, kind="interaction", src=src)
def check(ctx, case, ev):
    ctx.see("cases: %s%s" % (case.kind, " (malformed)" if case.src[:3] == "mal" else "")); ctx.see("events", len(ev))
    for e in ev:
        if e.get("op") == "load": ctx.see("specifications accepted" if e["rc"] >= 0 else "specifications refused")
        if e.get("op") in ("parse", "eval"): ctx.see("lines: result %s" % e.get("res"))
        if e.get("op") in ("keys", "loop"): ctx.see("keystroke sessions")
        if e.get("op") in ("vt", "vparse", "pint"): ctx.see("values: rc %s" % e.get("rc"))
    ctx.nontrivial(case.kind, case.src, len(ev), [e.get("rc", e.get("res")) for e in ev][:40])
    ctx.sample(dict(kind=case.kind, source=case.src, script=case.lines[:6]))
def program(arg):
    """one run of cligen_file (or cligen_hello) on hostile input"""
    bindir, seed, i = arg
    rng = random.Random("%s/C01/program/%d" % (seed, i))
    k = rng.random()
    if k < .4: s = X.spec(rng)
    else:
        d = None
        while d is None: d = rich.make(rng, nprobe=1)
        s = d["texts"][0][1]
        if k < .8: s = X.mutate(rng, s, X.SNIP)
    if "shell" in s or "exec" in s: return i, "", None, None, ""
    args = ["-f", "spec.cli"]
    for o in ("-1", "-p", "-d", "-e", "-E", "-c", "-u"):
        if rng.random() < .2: args.insert(0, o)
    if rng.random() < .3: args = ["-P", rng.choice("0123")] + args
    if rng.random() < .3: args = ["-t", rng.choice("01234567")] + args
    if rng.random() < .3: args = ["-s", rng.choice("01")] + args
    keys = X.keys(rng)
    prog = "cligen_file"
    if rng.random() < .1: prog, args = "cligen_hello", []
    elif rng.random() < .1: args = [a for a in args if a not in ("-f", "spec.cli")]; keys, s = s + keys, ""
    sc = tempfile.mkdtemp(prefix="vp", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    try:
        open(sc + "/spec.cli", "wb").write(s.encode("latin-1"))
        e = vp._env(sc)
        for v in ("ASAN_OPTIONS", "UBSAN_OPTIONS"): e[v] = re.sub(r"log_path=[^:]*:", "", e[v])
        if rng.random() < .3: e["COLUMNS"] = "40"
        try:
            p = subprocess.run([bindir + "/" + prog] + args, cwd=sc, env=e, input=keys.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
            rc, err, out = p.returncode, p.stderr.decode("latin-1"), len(p.stdout)
        except subprocess.TimeoutExpired: rc, err, out = "hang", "", 0
    finally: shutil.rmtree(sc, ignore_errors=True)
    bad = rc == "hang" or rc == 77 or (isinstance(rc, int) and rc < 0) or "runtime error:" in err or "ERROR: AddressSanitizer" in err
    return i, prog, rc, (err if bad else None), "%s %s\nspecification: %r\nkeystrokes: %r" % (prog, " ".join(args), s, keys)
def extra(ctx, bindir, tier, seed):
    n = int({"quick": 300, "thorough": 12000}[tier] * float(os.environ.get("VERIF_SCALE", "1"))) or 1
    viol = []
    hangs = 0
    for r in vp.pmap(program, [(bindir, seed, i) for i in range(n)], time.time() + {"quick": 200, "thorough": 400}[tier]):
        if r is None: ctx.see("runs of programs: stopped early"); break
        if r[0] == "err": raise RuntimeError(r[1])
        i, prog, rc, err, what = r
        if not prog: continue
        ctx.see("runs of " + prog); ctx.see("%s: exit %s" % (prog, rc))
        if err is not None:
            viol.append(("program:" + ("hang" if rc == "hang" else vp._signature(err, rc)), what + "\n" + err[:4000], i, []))
            hangs += rc == "hang"
            if hangs >= 4 or len(viol) >= vp.MAXV: break
    return viol
