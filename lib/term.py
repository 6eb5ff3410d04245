"""A terminal: executes the bytes the editor writes. Rows are unlimited (a terminal that
scrolls keeps the same relative picture)."""
import re
class BadSeq(Exception): pass
class Term:
    def __init__(self, w):
        self.w, self.rows, self.r, self.c, self.pend, self.bells = w, [[" "] * w], 0, 0, False, 0
        self.esc = ""
    def put(self, s):
        for ch in s: self._put(ch)
    def _down(self):
        self.r += 1
        if self.r == len(self.rows): self.rows.append([" "] * self.w)
    def _put(self, ch):
        if self.esc:
            self.esc += ch
            m = re.fullmatch("\x1b\\[(\\d*)([A-Za-z])", self.esc)
            if m:
                n = int(m.group(1) or 1); k = m.group(2); self.esc = ""; self.pend = False
                if k == "A": self.r = max(0, self.r - n)
                elif k == "B": self.r = min(len(self.rows) - 1, self.r + n)
                elif k == "C": self.c = min(self.w - 1, self.c + n)
                elif k == "D": self.c = max(0, self.c - n)
                elif k == "J" and m.group(1) == "2":
                    for x in self.rows: x[:] = [" "] * self.w
                elif k == "H": self.rows = self.rows[:1] if not any(c != " " for x in self.rows for c in x) else self.rows; self.r = self.c = 0
                elif k == "K": self.rows[self.r][self.c:] = [" "] * (self.w - self.c)
                else: raise BadSeq(repr(m.group(0)))
            elif len(self.esc) > 8: raise BadSeq(repr(self.esc))
            return
        if ch == "\x1b": self.esc = ch
        elif ch == "\n": self._down(); self.pend = False
        elif ch == "\r": self.c = 0; self.pend = False
        elif ch == "\b":
            self.pend = False
            if self.c: self.c -= 1
        elif ch == "\a": self.bells += 1
        elif ord(ch) < 32: raise BadSeq(repr(ch))
        else:
            if self.pend: self._down(); self.c = 0; self.pend = False
            self.rows[self.r][self.c] = ch
            if self.c == self.w - 1: self.pend = True
            else: self.c += 1
    def row(self, r): return "".join(self.rows[r]) if 0 <= r < len(self.rows) else " " * self.w
    def pic(self, a=0): return "\n".join("|%s|%s" % (self.row(r), " <- cursor col %d%s" % (self.c, " (pending wrap)" if self.pend else "") if r == self.r else "") for r in range(max(0, a), len(self.rows)))
