"""Reference splitting of a command line into words (the documented rules)."""
BL = " \t"
def tokenize(s):
    """-> (tokens, rests); tokens of the empty or blank-ended line end with "" """
    toks, rests = [], []
    i, n = 0, len(s)
    while True:
        lead = 0
        while i < n and s[i] in BL:
            i += 1; lead += 1
        start = i
        if i < n and s[i] == '"':
            j = s.find('"', i + 1)
            if j >= 0:
                toks.append(s[i + 1:j]); rests.append(s[start:]); i = j + 1
            else:                     # unterminated: the quote is kept
                toks.append(s[i:]); rests.append(s[start:]); i = n
            continue
        esc = False
        while i < n:
            if esc: esc = False
            elif s[i] == "\\": esc = True
            elif s[i] in BL: break
            i += 1
        if i == start:
            if lead or not toks:
                toks.append(""); rests.append("")
            return toks, rests
        toks.append(s[start:i]); rests.append(s[start:])
def cut_comment(s, c):
    """the part of s before a comment character at the start of a word"""
    if not c: return s
    i, n = 0, len(s)
    start = wsp = True
    esc = quote = False
    while i < n:
        ch = s[i]
        if quote:
            if ch == '"': quote = False; start = True
            wsp = False
        elif esc:
            esc = False; start = wsp = False
        elif ch == c and wsp:
            return s[:i]
        elif ch in BL:
            start = wsp = True
        else:
            if ch == '"' and start: quote = True
            elif ch == "\\": esc = True
            start = wsp = False
        i += 1
    return s
def unescape(s):
    o, esc = "", False
    for ch in s:
        if esc: o += ch; esc = False
        elif ch == "\\": esc = True
        else: o += ch
    return o
def trim(s, c="#"):
    """the line as kept: comment cut, runs of blanks outside quotes and escapes made one, ends stripped"""
    s = cut_comment(s, c)
    o, keep = "", 0
    ws = quote = esc = False
    start = True
    for ch in s:
        if quote or esc:
            start = quote and ch == '"'
            if ch == '"': quote = False
            o += ch
            if esc and ch in BL: keep = len(o)
            esc = ws = False
            continue
        if start and ch == '"': quote = True
        if ch == "\\": esc = True
        start = ch in BL
        if ch in BL:
            if not ws: o += " "
            ws = True
        else:
            o += ch; ws = False
    n = len(o)
    while n > keep and o[n - 1] in " \t\n": n -= 1
    o = o[:n]
    return o.lstrip(BL)
