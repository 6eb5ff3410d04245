"""Independent definition of the value types: which texts are well formed, and how a value prints.
judge(type, n, text) -> (True, canonical text, sort key) | (False,) | None when the rule leaves it open."""
import re, socket, ipaddress, datetime, random
INTS = dict(int8=(-128, 127), int16=(-2**15, 2**15-1), int32=(-2**31, 2**31-1), int64=(-2**63, 2**63-1),
            uint8=(0, 255), uint16=(0, 2**16-1), uint32=(0, 2**32-1), uint64=(0, 2**64-1))
BOOL = dict(true=1, on=1, enable=1, false=0, off=0, disable=0)
TYPES = list(INTS) + ["decimal64", "bool", "string", "rest", "interface", "ipv4addr", "ipv4prefix", "ipv6addr",
                      "ipv6prefix", "macaddr", "url", "uuid", "time"]
I_RE = re.compile(r"([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)\Z")
D_RE = re.compile(r"([+-]?)([0-9]*)(?:\.([0-9]*))?\Z")
T_RE = re.compile(r"(\d{4})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?(Z?)\Z")
def intval(text):
    m = I_RE.match(text)
    if not m: return None
    b = m.group(2)
    v = int(b, 16) if b[:2] in ("0x", "0X") else int(b, 8) if b[0] == "0" else int(b)
    return -v if m.group(1) == "-" else v
def dec_print(v, n):
    s = str(abs(v)).rjust(n + 1, "0")
    return ("-" if v < 0 else "") + s[:-n] + "." + s[-n:]
def dec_parse(text, n):
    m = D_RE.match(text)
    if not m or not ((m.group(2) or "") + (m.group(3) or "")): return None
    f = m.group(3) or ""
    if len(f) > n: return None
    v = int((m.group(2) or "") + f.ljust(n, "0") or "0")
    return -v if m.group(1) == "-" else v
def pton(fam, s):
    try: return socket.inet_pton(fam, s.encode("latin-1").decode("latin-1"))
    except (OSError, ValueError, UnicodeError): return None
def judge(t, n, s):
    if t in INTS:
        if any(c in " \t\n\v\f\r" for c in s): return None
        if re.match(r"[+-]?0[bB][01]+\Z", s): return None     # newer C libraries read binary constants
        v = intval(s)
        lo, hi = INTS[t]
        if v is None or not lo <= v <= hi: return (False,)
        if t[0] == "u" and "-" in s: return (False,)
        return (True, str(v), v)
    if t == "decimal64":
        if any(c in " \t\n\v\f\r" for c in s): return None
        v = dec_parse(s, n)
        if v is None or not -2**63 <= v <= 2**63 - 1: return (False,)
        return (True, dec_print(v, n), v)
    if t == "bool":
        return (True, "true" if BOOL[s] else "false", BOOL[s]) if s in BOOL else (False,)
    if t in ("string", "rest"):
        o, esc = "", False
        for c in s:
            if esc: o += c; esc = False
            elif c == "\\": esc = True
            else: o += c
        if esc: return None
        return (True, o, o)
    if t == "interface":
        return (True, s, s)
    if t in ("ipv4addr", "ipv6addr", "ipv4prefix", "ipv6prefix"):
        fam = socket.AF_INET if t[3] == "4" else socket.AF_INET6
        a, m = s, None
        if t.endswith("prefix"):
            if "/" not in s: return (False,)
            a, ml = s.split("/", 1)
            if any(c in " \t\n\v\f\r" for c in ml) or re.match(r"[+-]?0[bB][01]+\Z", ml): return None
            m = intval(ml)
            if m is None or not 0 <= m <= (32 if fam == socket.AF_INET else 128): return (False,)
        b = pton(fam, a)
        if b is None: return (False,)
        c = socket.inet_ntop(fam, b)
        return (True, c if m is None else "%s/%d" % (c, m), (b, m))
    if t == "macaddr":
        if not re.match(r"[0-9a-fA-F]{2}(:[0-9a-fA-F]{2}){5}\Z", s):
            # single-digit groups are not described: leave them open
            return None if re.match(r"[0-9a-fA-F]{1,2}(:[0-9a-fA-F]{1,2}){5}\Z", s) else (False,)
        return (True, s.lower(), s.lower())
    if t == "uuid":
        if not re.match(r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}\Z", s): return (False,)
        return (True, s.lower(), s.lower())
    if t == "time":
        m = T_RE.match(s)
        if not m: 
            return None if re.match(r"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d{1,6})?[+-]", s) else (False,)
        y, mo, d, h, mi, se = [int(m.group(k)) for k in range(1, 7)]
        if not 1970 <= y <= 2104: return (False,)
        try: dt = datetime.datetime(y, mo, d, h, mi, se)
        except ValueError: return (False,)
        us = int((m.group(7) or "0").ljust(6, "0"))
        return (True, dt.strftime("%Y-%m-%dT%H:%M:%S") + ".%06dZ" % us, (dt, us))
    if t == "url":
        p = s.find(":")
        if p < 0 or s[p:p+3] != "://": return (False,)
        proto, r = s[:p], s[p+3:]
        user = pw = path = ""
        if "@" in r:
            u, r = r.split("@", 1)
            user, pw = u.split(":", 1) if ":" in u else (u, "")
        addr = r
        if "/" in r: addr, path = r.split("/", 1)
        c = proto + "://" + ((user + (":" + pw if pw else "") + "@") if user or pw else "") + addr + "/" + path
        return (True, c, (proto, addr, path, user, pw))
    return None

# ------------------------------------------------------------------ text generation
def mutate(rng, s, alpha="0123456789abcdefxX+-.:/@TZ \\\"#"):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(4)
        p = rng.randint(0, len(s))
        if k == 0: s.insert(p, rng.choice(alpha))
        elif k == 1 and s: del s[min(p, len(s)-1)]
        elif k == 2 and s: s[min(p, len(s)-1)] = rng.choice(alpha)
        elif s:
            q = min(p, len(s)-1)
            s = s[:q] + s[q:q+1] * 2 + s[q+1:]
    return "".join(s)
def edge_ints():
    e = []
    for lo, hi in INTS.values():
        for b in (lo, hi):
            e += [b-1, b, b+1]
    e += [0, 1, -1, 9, 10, 99, 100, 2**63, 2**64+1, -2**63-1, 10**19, 10**20, 2**64-1, 255, 256, -256, 4294967296, -4294967296, 65536+5]
    return sorted(set(e))
EI = edge_ints()
def fmt_int(rng, v):
    k = rng.randrange(8)
    s = abs(v)
    t = ("0x%x" % s if k == 0 else "0X%X" % s if k == 1 else ("0%o" % s if s else "0") if k == 2 else "%d" % s)
    if k == 3: t = "0x" + "0" * rng.randint(0, 4) + "%x" % s
    return ("-" if v < 0 else "+" if rng.random() < 0.08 else "") + t
def hexs(rng, n): return "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))
def v4(rng): return ".".join(str(rng.choice([0, 1, 9, 10, 127, 255, 256, rng.randint(0, 255)]) if rng.random() < .2 else rng.choice([0, 255, rng.randint(0, 255)])) for _ in range(4))
def v6(rng):
    k = rng.randrange(5)
    if k == 0: return ":".join("%x" % rng.choice([0, 0, 1, 65535, rng.randint(0, 65535)]) for _ in range(8))
    if k == 1: return "::" + ":".join("%x" % rng.randint(0, 65535) for _ in range(rng.randint(0, 6)))
    if k == 2: return "::ffff:" + v4(rng)
    if k == 3: return "fe80::" + ":".join("%X" % rng.randint(0, 65535) for _ in range(rng.randint(1, 4)))
    return ipaddress.IPv6Address(rng.getrandbits(128)).exploded
def text(rng, t, n=2):
    """text that is usually well formed or nearly so for type t"""
    bad = rng.random() < 0.3
    if t in INTS:
        lo, hi = INTS[t]
        v = rng.choice([rng.choice(EI), rng.choice([lo, hi, lo-1, hi+1, lo+1, hi-1]), rng.randint(lo, hi), rng.randint(-300, 300)])
        s = fmt_int(rng, v)
    elif t == "decimal64":
        k = rng.randrange(4)
        v = rng.choice([2**63-1, -2**63, 2**63, -2**63-1, 0, 1, -1, rng.randint(-2**63, 2**63-1), rng.randint(-10**(n+2), 10**(n+2))])
        s = dec_print(v, n)
        if k == 0: s = s.rstrip("0")
        elif k == 1: s = str(rng.randint(-10**rng.randint(1, 20), 10**rng.randint(1, 20)))
        elif k == 2: s += rng.choice(["", "0", "1"])
        if rng.random() < .05: s = rng.choice(["", ".", "-", "+", ".5", "-.5", "5.", "-5.", ".-5", ".+5", "+1.5", "--1", "1.2.3", "1.-2", "00.10", "-0.0"])
    elif t == "bool":
        s = rng.choice(["true", "false", "on", "off", "enable", "disable", "True", "tru", "1", "0", "", "truee", "onn", "ON"])
    elif t in ("string", "rest", "interface"):
        s = "".join(rng.choice("abcXYZ019 _-./:@#?'\xe5") for _ in range(rng.choice([0, 1, 2, 5, 9, 30, 70])))
        if t != "interface" and rng.random() < .3: s = s[:len(s)//2] + "\\" + rng.choice("abc\\ ?") + s[len(s)//2:]
        return s
    elif t == "ipv4addr": s = v4(rng)
    elif t == "ipv4prefix": s = v4(rng) + "/" + rng.choice([str(rng.randint(0, 32)), "33", "0", "32", "-1", "0x10", "", "4294967296", "4294967304", "256"] if bad else [str(rng.randint(0, 32))])
    elif t == "ipv6addr": s = v6(rng)
    elif t == "ipv6prefix": s = v6(rng) + "/" + rng.choice([str(rng.randint(0, 128)), "129", "0", "128", "-1", "", "4294967360"] if bad else [str(rng.randint(0, 128))])
    elif t == "macaddr": s = ":".join(hexs(rng, 2) for _ in range(6))
    elif t == "uuid": s = "-".join(hexs(rng, k) for k in (8, 4, 4, 4, 12))
    elif t == "url":
        w = lambda a: "".join(rng.choice("abcxyz019.-_") for _ in range(rng.randint(a, 8)))
        s = rng.choice(["http", "https", "ftp", "x", w(1)]) + "://" + rng.choice(["", "", w(1) + "@", w(1) + ":" + w(1) + "@", w(1) + ":@"]) + w(1) + rng.choice(["", "/", "/" + w(1), "/" + w(1) + "/" + w(0), "/a@b:c"])
        if bad: return mutate(rng, s, ":/@a.")
    elif t == "time":
        s = "%04d-%02d-%02d%s%02d:%02d:%02d" % (rng.choice([1970, 2104, 1969, 2105, 2000, 2100, 2024, rng.randint(1970, 2104)]), rng.choice([0, 1, 2, 2, 4, 12, 13, rng.randint(1, 12)]) if bad else rng.randint(1, 12),
            rng.choice([0, 1, 28, 29, 30, 31, 32]) if rng.random() < .4 else rng.randint(1, 28), rng.choice("TT "), rng.choice([0, 23, 24, rng.randint(0, 23)]) if bad else rng.randint(0, 23), rng.choice([0, 59, 60]) if bad else rng.randint(0, 59), rng.choice([0, 59, 60]) if bad else rng.randint(0, 59))
        s += rng.choice(["", ".%d" % rng.randint(0, 9), ".%06d" % rng.randint(0, 999999), ".000001", ".%03d" % rng.randint(0, 999)])
        s += rng.choice(["", "Z"])
    else: s = ""
    if bad and rng.random() < .6: s = mutate(rng, s)
    return s
def good(rng, t, n=2, tries=60):
    for _ in range(tries):
        s = text(rng, t, n)
        j = judge(t, n, s)
        if j and j[0]: return s
    return dict(bool="true").get(t, "0")
