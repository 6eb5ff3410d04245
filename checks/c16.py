"""C16: text buffer against a plain byte-string model."""
from vp import op, Case
RULE = ("random sequences of printf/string/char/block appends, truncations and resets on several buffers with random "
        "initial sizes and growth limits (biased to growth boundaries); non-trivial = a distinct (start,threshold,operation,"
        "crossed-capacity) combination observed; one append of more than 2 GiB per run")
ASSUME = ["a single append above 2 GiB is made once per run, of raw bytes (printf-like appends cannot: their length is an int)"]
N = dict(quick=1500, thorough=40000)
TECH = "reference-model monitor over operation log + ASan/UBSan"
def h32(b):
    h = 5381
    for c in b:
        h = (h * 33 + c) & 0xffffffff
    return h
def rep(seed, n):
    return bytes(97 + (seed + k) % 26 for k in range(n))
def memavail():
    for l in open("/proc/meminfo"):
        if l.startswith("MemAvailable"): return int(l.split()[1]) >> 20
    return 0
def gen(rng, i, tier):
    if i == 3 and memavail() >= 8:
        n = 2 ** 31 + rng.randint(70000, 200000)
        return Case([op("bnew", 0), op("bstr", 0, "abc"), op("bhuge", 0, n)], alarm=200, huge=n, cfg=("huge", 0), exp=[])
    L, exp = [], []
    start = rng.choice([0, 1, 1, 2, 3, 7, 16, 64, 1024, 8192, rng.randint(1, 300)])
    thr = rng.choice([0, 1, 2, 5, 16, 100, 65536, rng.randint(1, 400)])
    L.append(op("balloc", start, thr)); exp.append(("alloc", start, thr))
    nb = rng.randint(1, 3)
    content = {}
    for _ in range(rng.randint(5, 60)):
        b = rng.randrange(nb)
        if b not in content or rng.random() < 0.03:
            if rng.random() < 0.6:
                L.append(op("bnew", b))
            else:
                L.append(op("bnewa", b, rng.choice([0, 1, 2, 5, 17, 100])))
            content[b] = b""
            exp.append(("st", "new", b""))
            continue
        cur = content[b]
        k = rng.random()
        size = rng.choice([0, 1, 2, 3, 15, 16, 17, rng.randint(0, 60), rng.randint(0, 60), rng.randint(0, 5000) if rng.random() < .2 else 5])
        if k < 0.2:
            sd, mode = rng.randrange(26), rng.randrange(4)
            if mode == 3: size = min(size, 300)
            add = rep(sd, size); cur += add
            L.append(op("brep", b, sd, size, mode)); exp.append(("rc", 0)); exp.append(("st", "rep%d" % mode, cur))
        elif k < 0.3:
            s = bytes(rng.choice(b"abc%sdn\\ \"\x80\xff\t") for _ in range(min(size, 40)))
            L.append(op("bprintf", b, s.decode("latin-1"))); cur += s
            exp.append(("rc", 0)); exp.append(("st", "printf", cur))
        elif k < 0.4:
            n, s, w = rng.randint(-10**6, 10**6), "x" * rng.randint(0, 9), rng.randint(1, 200)
            cur += ("<%d:%s:%*d>" % (n, s, w, 7)).encode()
            L.append(op("bprintf2", b, n, s, w)); exp.append(("rc", 0)); exp.append(("st", "printf2", cur))
        elif k < 0.55:
            s = bytes(rng.choice(b"abc%sdn \xc3\xa5") for _ in range(min(size, 60)))
            L.append(op("bstr", b, s.decode("latin-1"))); cur += s; exp.append(("rc", 0)); exp.append(("st", "str", cur))
        elif k < 0.65:
            c = rng.randint(1, 255)
            L.append(op("bchar", b, c)); cur += bytes([c]); exp.append(("rc", 0)); exp.append(("st", "char", cur))
        elif k < 0.8:
            s = bytes(rng.randint(1, 255) for _ in range(min(size, 200)))
            L.append(op("bbuf", b, s.decode("latin-1"))); cur += s; exp.append(("rc", 0)); exp.append(("st", "buf", cur))
        elif k < 0.83:
            L.append(op("bstr", b, None)); exp.append(("rc", -1)); exp.append(("st", "strnull", cur))
        elif k < 0.93:
            n = rng.choice([0, len(cur), max(len(cur) - 1, 0), len(cur) + 1, rng.randint(0, len(cur) + 2)])
            L.append(op("btrunc", b, n))
            ok = n <= len(cur)
            if ok: cur = cur[:n]
            exp.append(("rc", 0 if ok else -1)); exp.append(("st", "trunc", cur))
        else:
            L.append(op("breset", b)); cur = b""; exp.append(("st", "reset", cur))
        content[b] = cur
    return Case(L, exp=exp, cfg=(start, thr))
def check(ctx, case, ev):
    if hasattr(case, "huge"):
        e = ev[-1]
        if e.get("op") != "bhuge": return ctx.fail("huge", "no answer to an append of %d bytes" % case.huge)
        if e.get("skip"): return
        ctx.see("appends above 2 GiB"); ctx.nontrivial("huge", case.huge)
        if e["rc"]: return ctx.see("appends above 2 GiB refused")
        if e["len"] != case.huge + 3 or e["cap"] <= e["len"] or (e["a"], e["m"], e["z"], e["t"]) != (65, 0, 90, 0): ctx.fail("huge", str(e))
        return
    if len(ev) != len(case.exp):
        return ctx.fail("events", "%d events, expected %d" % (len(ev), len(case.exp)))
    for e, x in zip(ev, case.exp):
        if x[0] == "alloc":
            if (e["start"], e["thr"]) != x[1:]:
                ctx.fail("alloc-get", str((e, x)))
        elif x[0] == "rc":
            if e["rc"] != x[1]:
                return ctx.fail("return-code", "%s expected %s" % (e, x))
        else:
            want = x[2]
            ctx.see("buffer states compared")
            if e["len"] != len(want):
                return ctx.fail("length", "after %s: length %d, model %d" % (x[1], e["len"], len(want)))
            if not e["term"] or e["sl"] != len(want):
                return ctx.fail("termination", "after %s: %s" % (x[1], e))
            if e["cap"] <= e["len"]:
                return ctx.fail("capacity", "after %s: capacity %d length %d" % (x[1], e["cap"], e["len"]))
            if "s" in e:
                if e["s"].encode("latin-1") != want:
                    return ctx.fail("content", "after %s: %r model %r" % (x[1], e["s"], want))
            elif e["h"] != h32(want) or e["tail"].encode("latin-1") != want[-50:]:
                return ctx.fail("content", "after %s: long content differs" % x[1])
            ctx.nontrivial(case.cfg, x[1], e["cap"])
    ctx.sample(dict(start=case.cfg[0], threshold=case.cfg[1], ops=len(case.lines)))
