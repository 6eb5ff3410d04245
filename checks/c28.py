"""C28: registered descriptors."""
from vp import op, Case
RULE = ("pipes registered, re-registered with another argument and unregistered in random order, before, between and during the editing of lines and from within the callbacks; bytes arriving on them in any order, before the editor waits or while it does, "
        "some written by another process after a signal has interrupted the wait; keys typed ahead or arriving while descriptors are served; non-trivial = distinct (registered set, byte served) situations")
ASSUME = ["a callback consumes one byte of its descriptor and returns 0", "no descriptor is closed while it is registered"]
N = dict(quick=12000, thorough=500000)
BATCH = 50
TECH = "trace monitor: registrations, arrivals, callbacks and key reads recorded in order against a set model (callback only while registered, with its latest argument and with input; no registered descriptor with input passed over; the editor never reads a key that is not there); edited lines against the keys sent + ASan/UBSan"
def gen(rng, i, tier):
    big = rng.random() < .15
    np_ = rng.randint(1, 30) if big else rng.randint(1, 7)
    L = [op("new", 0)]
    for k in range(np_): L.append(op("fdnew", k, rng.choice([3, 3, 3, 20, 200, 700, 1000, 1023, 1024, 1100, 1500])))
    tag = [0]
    def reg(k):
        tag[0] += 1
        return ("r", k, 0 if k == 0 and rng.random() < .3 else tag[0], "")
    def some(n, first):
        out = []
        for _ in range(n):
            k = rng.randrange(np_); x = rng.random()
            if x < (.75 if first else .25): out.append(reg(k))
            elif x < (.9 if first else .45): out.append(("u", k, 0, ""))
            elif x < .94: out.append(("U", rng.choice([-1, 0, 1, 2, 5, 49, 1023, 1024, 2000, 10**6]), 0, ""))
            else: out.append(("w", k, 0, "x" * rng.choice([1, 1, 1, 2, 5])))
        return out
    def key():
        return "".join(rng.choice("abcdefghij") for _ in range(rng.choice([1, 1, 2, 4])))
    def acts():
        out = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 6])):
            k = rng.randrange(np_); x = rng.random()
            if x < .55: out.append(("w", k, 0, "x" * rng.choice([1, 1, 1, 2, 3])))
            elif x < .7: out.append(reg(k))
            elif x < .83: out.append(("u", k, 0, ""))
            else: out.append(("k", 0, 0, key()))
        rng.shuffle(out)
        return out
    for a in some(rng.randint(1, 2 * np_ + 2), True): L.append(op("fdact", *a))
    if rng.random() < .4:                                  # all registered
        ks = list(range(np_)); rng.shuffle(ks)
        for k in ks: L.append(op("fdact", *reg(k)))
    lines = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ahead = key() if rng.random() < .6 else ""
        if rng.random() < .15: ahead += key() * 4
        g = 0
        for _ in range(rng.randint(0, 7)):
            for a in acts(): L.append(op("fdgroup", g, *a))
            g += 1
        if rng.random() < .12:
            r = rng.randrange(np_)
            L.append(op("fdgroup", g, *reg(r)))
            L.append(op("fdgroup", g, "s", r, rng.choice([0, 1, 2, 3, 3, 8, 9]), ""))
            g += 1
        if rng.random() < .3:
            for a in acts(): L.append(op("fdgroup", g, *a))
            g += 1
        L.append(op("fdgroup", g, "k", 0, 0, key() + "\n"))
        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
            src = rng.randrange(np_); k = src if rng.random() < .4 else rng.randrange(np_); x = rng.random()
            if x < .65: L.append(op("fdonce", src, "u", k, 0))
            elif x < .85: L.append(op("fdonce", src, *reg(k)[:3]))
            else: L.append(op("fdonce", src, "w", k, 0))
        L.append(op("fdline", ahead, rng.randint(0, 1), 1))
        lines.append(ahead)
        if rng.random() < .5:
            for a in some(rng.randint(1, 4), rng.random() < .5): L.append(op("fdact", *a))
    if rng.random() < .5:
        ks = list(range(np_)); rng.shuffle(ks)
        for k in ks: L.append(op("fdact", "u", k, 0, ""))
        L.append(op("fdgroup", 0, "k", 0, 0, key() + "\n")); L.append(op("fdline", "", 0, 1)); lines.append("")
    L.append(op("exit", 0))
    return Case(L, alarm=40, aheads=lines)
def check(ctx, case, ev):
    fds = []; regd = {}; pend = {}; wait = {}; keys = ""; nline = 0; inline = False
    last = None
    for e in ev:
        if e.get("op") == "fdnew": fds.append(e["fd"])
        elif e.get("op") == "fdline":
            if "begin" in e:
                keys = case.aheads[nline] + keys; inline = True
                continue
            inline = False; nline += 1
            want = keys.rstrip("\n"); keys = ""
            ctx.see("lines edited")
            if e["rc"] < 0 or (e["line"] or "").rstrip("\n") != want: return ctx.fail("line", "the keys sent were %r, the editor returned %r (rc %d)" % (want, e["line"], e["rc"]))
            left = [k for k in regd if pend.get(k)]
            if left: return ctx.fail("unserved", "descriptors %s were registered and had input but were never served" % left)
            wait = {}
        elif "fdact" in e:
            a = e["fdact"]
            if a == "reg":
                fd = fds[e["i"]]
                ctx.see("registered again" if e["i"] in regd else "registered")
                if e["rc"] < 0:
                    if fd < 1024: return ctx.fail("refused", "registering descriptor %d was refused" % fd)
                    ctx.see("descriptor too large refused")
                else: regd[e["i"]] = e["tag"]
                wait.pop(e["i"], None)
            elif a == "unreg":
                had = e["i"] in regd
                ctx.see("unregistered" if had else "not registered")
                if (e["rc"] == 0) != had: return ctx.fail("unreg rc", "unregistering a descriptor that was %sregistered returned %d" % ("" if had else "not ", e["rc"]))
                regd.pop(e["i"], None); wait.pop(e["i"], None)
            elif a == "unregraw":
                hit = [k for k in regd if fds[k] == e["i"]]
                if (e["rc"] == 0) != bool(hit): return ctx.fail("unreg rc", "unregistering descriptor number %d (%sregistered) returned %d" % (e["i"], "" if hit else "not ", e["rc"]))
                for k in hit: regd.pop(k)
            elif a == "write":
                if not e.get("later"): pend[e["i"]] = pend.get(e["i"], 0) + e["n"]; wait.setdefault(e["i"], 0)
                else: ctx.see("arrivals after a signal")
            elif a == "key":
                if not inline: keys += e["s"]
                else: keys += e["s"]
            elif a == "keyread":
                ctx.see("keys read")
                if e["avail"] == 0: return ctx.fail("blocking read", "the editor read the terminal although no key had arrived; registered descriptors with input: %s" % [k for k in regd if pend.get(k)])
                for k in regd:
                    if pend.get(k):
                        wait[k] = wait.get(k, 0) + 1
                        if wait[k] > 3: return ctx.fail("passed over", "descriptor %d was registered and had input while 3 keys were read, but was not served" % k)
            elif a == "served":
                k = e["i"]
                ctx.see("callbacks")
                if not e["ok"]: return ctx.fail("argument", "callback of descriptor %d got the argument of another (%d)" % (e["fd"], k))
                if k not in regd: return ctx.fail("unregistered", "descriptor %d got a callback although it was not registered" % k)
                if regd[k] != e["tag"]: return ctx.fail("argument", "descriptor %d got argument %d, registered with %d" % (k, e["tag"], regd[k]))
                if e["avail"] <= 0: return ctx.fail("no input", "descriptor %d got a callback although it had no input" % k)
                if e["b"] != "Z" and pend.get(k): pend[k] -= 1
                wait[k] = 0
                ctx.nontrivial(tuple(sorted(regd)), k, pend.get(k), len(keys))
    ctx.sample(dict(registered=len(regd), lines=nline, pipes=len(fds)))
