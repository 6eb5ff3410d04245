"""Hostile input: mutated and arbitrary texts, lines, keystrokes, values."""
import re
SNIP = ['a', 'b', 'ab', '<x:int32>', '<x:string length[2:4]>', '<x:int8 range[1:3]>', '<x:string regexp:"[a-c]+">', '<x:string regexp:!"a|b">', '<x:string choice:a|b>', '<x fn("q")>', '<x:string fn("q","1","2")>',
        '("help")', '("h1\nh2")', ', cb("x")', ', cb("x",1)', ', hide', ';', ';', ';', '{', '}', '(', ')', '[', ']', '|', '@{', '@t', '@|p', '@u', 'treename="t";', 'treename="u";', 'prompt="x> ";', '"', '"str"', '\\', '\\\n', '<', '>',
        '#c\n', ', @add:l', ', @remove:l', ' ', '\n', '<!x:uint8>', 'range[', 'length[', 'decimal64', '<d:decimal64 fraction-digits:3 range[1.1:2.2]>', ', "v"', '=', ':', '<x:nosuch>', '<x:string keyword:k>', 'pipetree="|p";',
        '<r:rest>', '\x01', '\xff', '<x:int32 show:"y">', '<x:string translate:f()>', '<x:int32 preference:3>', '<x:int32 default:3>', 'a|b;', '(a|b c)', '[a|b]', '{a;b;}', '@{a;b;}', 'a{@t;}', 'a,cb("x"){b;}',
        '<x:int8 range[-129:300]>', '<x:uint64 range[0:99999999999999999999]>', '<d:decimal64 fraction-digits:99>', '<x:int32 range[5:1]>', '<x:string length[5:1]>', '<x:string length[-1:1]>', '<x:string regexp:"(">', '<x:string length[18446744073709551615]>',
        '<m:macaddr>', '<i:ipv4prefix>', '<j:ipv6addr>', '<u:url>', '<t:time>', '<k:uuid>', '<b:bool>', '<f:interface>', 'x' * 300, '<' + 'y' * 200 + ':int32>']
LINE = ['a', 'b', 'ab', ' ', '  ', '\t', '"', "\\", '\\ ', '\\"', '|', '?', '1', '-1', '99999999999999999999', '1.5', '0x', '::', '1.2.3.4/33', 'ftp://', '#', 'true', '\x7f', '\xc3\xa5', '\xff', '\x01', '{', '}', '"a b"', 'a' * 70, '2000-01-01T00:00:00Z', '%s%n', '-']
KEY = [chr(c) for c in range(1, 32)] + ['\x1b[A', '\x1b[B', '\x1b[C', '\x1b[D', '\x1b[3~', '\x1b[1~', '\x1b[4~', '\x1bOA', '\x1bf', '\x1bb', '\x1bd', '\x1b\x7f', '\x1b', '\x1b[', '\x1b[9', '\x7f', '\x08', '\t', '?', '\n', '\r', '\x12', '\x13', '\x0b', '\x19', '\x14', '\x0f', '\x16']
VAL = ['', '0', '-0', '+1', '-1', '255', '256', '-129', '65536', '2147483648', '-2147483649', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616',
       '0x', '0xff', '0xFFFFFFFFFFFFFFFFFF', '010', '1.', '.1', '-.', '-', '.', '1.1.1', '1.' + '1' * 30, '922337203685477580.8', '-922337203685477580.9', '1e5', ' 1', '1 ', 'true', 'TRUE', 'on', 'false', '1.2.3.4', '1.2.3', '1.2.3.4/', '1.2.3.4/32', '1.2.3.4/-1', '1.2.3.4/99999999999',
       '::', '::1/128', '::1/129', 'fe80::1%lo', ':' * 40, '1:2:3:4:5:6:7:8:9', 'aa:bb:cc:dd:ee:ff', 'aa:bb:cc:dd:ee', 'aa:bb:cc:dd:ee:fff', '1:2:3:4:5:6:7', 'http://a/b', 'http://u:p@a/b', '://', ':', 'a://@', 'a://:@/', 'http://a@b@c/d:e', 'f47ac10b-58cc-4372-a567-0e02b2c3d479',
       'f47ac10b-58cc-4372-a567-0e02b2c3d47', 'f47ac10b-58cc-4372-a567-0e02b2c3d47g', 'f47ac10b58cc4372a5670e02b2c3d479----', '2000-02-30T24:61:61Z', '2008-09-21T18:57:21.003456', '2008-09-21T18:57:21.003456789Z', '99999-01-01T00:00:00', '2000-01-01T00:00:00+99:99', '1969-12-31T23:59:59', '0000-00-00T00:00:00',
       '\xff\xfe', 'a' * 1000, '9' * 400, '\\', 'a\\', '"', '%n', '[', '(', '[a-', 'a{1', 'a**', '(?i)a', '\\d\\w', '[[:alpha:]]', '^$', '(' * 50, '\\p{L}', 'a{0,65536}', '[^', '&&']
TYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'decimal64', 'bool', 'rest', 'string', 'interface', 'ipv4addr', 'ipv4prefix', 'ipv6addr', 'ipv6prefix', 'macaddr', 'url', 'uuid', 'time', 'empty', 'void']
def join(rng, frag, hi): return "".join(rng.choice(frag) for _ in range(rng.choice([1, 2, 3, 5, 8, 20, hi])))
def spec(rng):
    # well-formed more often than pure chance: statements with balanced braces
    r = rng.random()
    if r < .4: return join(rng, SNIP, 60)
    def stmt(dp):
        s = rng.choice(SNIP)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])): s += " " + rng.choice(SNIP)
        if dp < 4 and rng.random() < .4: return s + rng.choice(["{", "{", "@{", ";{"]) + "".join(stmt(dp + 1) for _ in range(rng.randint(0, 3))) + "}"
        return s + ";"
    return "".join(stmt(0) for _ in range(rng.randint(1, 8)))
def line(rng): return join(rng, LINE, 40)
def keys(rng):
    out = []
    for _ in range(rng.choice([3, 8, 20, 60, 150])):
        r = rng.random()
        out.append(rng.choice(KEY) if r < .45 else rng.choice(LINE) if r < .85 else chr(rng.randrange(256)))
    return "".join(out)
def value(rng):
    r = rng.random()
    if r < .6: return rng.choice(VAL)
    if r < .9: return mutate(rng, rng.choice(VAL))
    return "".join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([1, 3, 10, 40])))
def mutate(rng, s, frag=VAL):
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        n = len(s); k = rng.randrange(9); p = rng.randint(0, n); q = min(n, p + rng.choice([1, 1, 2, 5, 20]))
        if k == 0: s = s[:p] + s[q:]
        elif k == 1: s = s[:p] + chr(rng.randrange(256)) + s[p:]
        elif k == 2: s = s[:p] + s[p:q] * rng.choice([2, 3, 10]) + s[q:]
        elif k == 3: s = s[:p] + rng.choice(frag) + s[p:]
        elif k == 4: s = s[:p]
        elif k == 5 and p < n: s = s[:p] + chr(ord(s[p]) ^ 1 << rng.randrange(8)) + s[p + 1:]
        elif k == 6: s = s[:p] + rng.choice(frag) + s[q:]
        elif k == 7: s = s[p:] + s[:p]
        else:
            s = s[:p] + rng.choice(["a", " ", "\\", '"', "\xc3", "("]) * rng.choice([2, 9, 63, 64, 65, 127, 255, 256, 257, 1000] + ([5000] if n < 200 else [])) + s[p:]
    return s[:20000]
