"""Reference line editor: a plain text buffer, a kill buffer and a history list.
Text is latin-1 decoded bytes."""
SP = " \t\n\v\f\r"
class Hist:
    """the lines entered, newest last; a cursor; oldest lines fall out beyond `size`"""
    def __init__(self, size=100):
        self.size, self.lines, self.cur, self.last = size, [], 0, None
    def init(self, n):
        self.__init__(n)
    def add(self, line):
        if line.strip(" \t\n") and line != self.last:
            self.lines.append(line); self.last = line
            del self.lines[:-self.size]
        self.cur = len(self.lines)
    def prev(self):
        """-> (text, bell)"""
        if self.cur > 0:
            self.cur -= 1; return self.lines[self.cur], False
        self.cur = -1
        return "", True
    def next(self):
        n = len(self.lines)
        if self.cur < n:
            self.cur += 1
            return (self.lines[self.cur], False) if self.cur < n else ("", False)
        return "", False
class EndOfInput(Exception): pass
class Ed:
    def __init__(self, hist=None, utf8=False, exitchars="", qmark=True, tab=None, hook=False):
        self.kill = ""; self.over = False; self.hist = hist or Hist(); self.utf8 = utf8
        self.exits = exitchars; self.qmark = qmark; self.tab = tab
        self.help = []                      # (buffer) for which help was asked
        self.hook = hook
    def line(self, keys, i, watch=None):
        """edit one line from keys[i:]; -> (text incl newline | None at end of input, next i)
        watch(i, self): called before each key is read"""
        self.buf, self.pos, esc = "", 0, False
        self.search = None; self.fresh = 0
        self.keys, self.i, self.watch = keys, i, watch
        try:
            while True:
                c = self._get()
                o = ord(c)
                if 32 <= o < 127 or (esc and c == "\n"):
                    if not esc and c == "\\": esc = True; continue
                    if not esc and c == "?" and self.qmark:
                        self.help.append(self.buf); self.fresh += 1
                    elif self.search is not None: esc = False; self._sadd(c)
                    else: esc = False; self._ins(c)
                    continue
                esc = False
                if self.search is not None:
                    if c == "\x1b": self._sterm()
                    elif c in "\x0e\x10": self._sterm(); continue
                    elif c in "\x08\x7f": self._sdel(); continue
                    elif c not in "\x12\x13": self._sterm()
                if c in self.exits: return None, self.i
                if c in "\r\n": return self.buf + "\n", self.i
                if c == "\x04" and not self.buf: return None, self.i
                self._ctl(c)
        except EndOfInput:
            return None, len(keys)
    def _get(self):
        if self.watch: self.watch(self.i, self)
        if self.i >= len(self.keys): raise EndOfInput
        c = self.keys[self.i]; self.i += 1
        return c
    def _ins(self, s):
        for c in s:
            if self.over and self.pos < len(self.buf): self.buf = self.buf[:self.pos] + c + self.buf[self.pos + 1:]
            else: self.buf = self.buf[:self.pos] + c + self.buf[self.pos:]
            self.pos += 1
    def _back(self, p):
        if p > 0: p -= 1
        while p > 0 and self.buf[p:p+1] in tuple(SP): p -= 1
        while p > 0 and self.buf[p:p+1] not in tuple(SP): p -= 1
        if p < len(self.buf) and self.buf[p] in SP: p += 1
        return p
    def _del(self, at):
        if 0 <= at < len(self.buf): self.buf = self.buf[:at] + self.buf[at + 1:]; self.pos = at
    def _hist(self, t):
        self.buf = t; self.pos = len(t)
    def _ctl(self, c):
        b, p = self.buf, self.pos
        if c == "\x01": self.pos = 0
        elif c == "\x02": self.pos = max(0, p - 1)
        elif c == "\x05": self.pos = len(b)
        elif c == "\x06": self.pos = min(len(b), p + 1)
        elif c == "\x04": self._del(p)
        elif c in "\x08\x7f":
            if p > 0: self._del(p - 1)
        elif c == "\t":
            if self.tab: self.buf, self.pos = self.tab(b, p)
            self.fresh += 1
        elif c == "\x0b":
            if p < len(b): self.kill = b[p:]; self.buf = b[:p]
        elif c == "\x0c": self.fresh += 1
        elif c == "\x0e": self._hist(self.hist.next()[0])
        elif c == "\x10": self._hist(self.hist.prev()[0])
        elif c == "\x0f": self.over = not self.over
        elif c == "\x12": self._search(-1)
        elif c == "\x13": self._search(1)
        elif c == "\x14":
            if 0 < p < len(b): self.buf = b[:p - 1] + b[p] + b[p - 1] + b[p + 1:]
        elif c == "\x15":
            if p: self.kill = b[:p]; self.buf = b[p:]; self.pos = 0
        elif c == "\x17":
            if p:
                q = self._back(p)
                self.kill = b[q:p]; self.buf = b[:q] + b[p:]; self.pos = q
        elif c == "\x19":
            k = self.kill
            if k:
                if self.over: self.buf = b[:p] + k + b[p + len(k):]
                else: self.buf = b[:p] + k + b[p:]
                self.pos = p + len(k)
        elif c == "\x1b":
            c = self._get()
            if c in "[O":
                c = self._get()
                if c == "A": self._ctl("\x10")
                elif c == "B": self._ctl("\x0e")
                elif c == "C": self._ctl("\x06")
                elif c == "D": self._ctl("\x02")
                elif c == "H": self._ctl("\x01")
                elif c == "F": self._ctl("\x05")
                elif c == "3":
                    if self._get() == "~": self._del(p)
            elif c in "fF":
                while p < len(b) and b[p] not in SP: p += 1
                while p < len(b) and b[p] in SP: p += 1
                self.pos = p
            elif c in "bB": self.pos = self._back(p)
        elif ord(c) >= 0xc0:
            o = ord(c)
            n = 1 if o & 0xe0 == 0xc0 else 2 if o & 0xf0 == 0xe0 else 3 if o & 0xf8 == 0xf0 else 0
            s = c + "".join(self._get() for _ in range(n))
            if self.utf8 and n: self._ins(s)
    # incremental search: self.search = [text, direction, position of the last match found by ^R/^S]
    def _search(self, d):
        h = self.hist
        if self.search is None:
            h.cur = len(h.lines)
            self.search = ["", d, h.cur]; self.buf = ""; self.pos = 0
            return
        self.search[1] = d
        if self.search[0]: self._find(True)
    def _find(self, new):
        s, h = self.search, self.hist
        while True:
            t = (h.prev() if s[1] < 0 else h.next())[0]
            if t == "":
                self.buf = ""; self.pos = 0; return
            if s[0] in t:
                self.buf = t; self.pos = t.index(s[0])
                if new: s[2] = h.cur
                return
    def _sadd(self, c):
        s = self.search
        if len(s[0]) < 99: s[0] += c
        self._sshow()
    def _sdel(self):
        s, h = self.search, self.hist
        s[0] = s[0][:-1]
        if s[0]: h.cur = s[2]
        else:
            self.buf = ""; h.cur = len(h.lines)
        self.buf = h.lines[h.cur] if 0 <= h.cur < len(h.lines) else ""
        self._sshow()
    def _sshow(self):
        s = self.search
        if s[0] in self.buf: self.pos = self.buf.index(s[0])
        elif s[0]: self._find(False)
        else: self.pos = 0
    def _sterm(self):
        self.search = None
        if not self.buf: self.hist.cur = len(self.hist.lines)
