"""Model of the CPython 3.12 tokenizer as tokenize.generate_tokens drives it, over
symbolic text.  Characters are code points or symbolic characters; every test
forks through the explorer.  tools/tokdiff.py compares it with the real one."""
import token
import tokenize
from tokenize import TokenError, TokenInfo

from .charset import CS, named
from .core import EngineError
from . import sstr
from .sstr import ch_in, ch_eq, chars, mk, realize

EOF = -1


def S(s):
    return CS.of(map(ord, s))


BLANK = S(" \t\x0c")
LETTER = CS.rng(65, 90) | CS.rng(97, 122) | S("_")
IDSTART = LETTER | CS.rng(128, 0x10ffff)
DIGIT = CS.rng(48, 57)
IDCHAR = IDSTART | DIGIT
ASCII_IDCHAR = LETTER | DIGIT
LEADING_ZERO_ERROR = False
PREFIX = S("bBuUrRfF")
HEX = DIGIT | CS.rng(97, 102) | CS.rng(65, 70)
OCT = CS.rng(48, 55)
BIN = CS.rng(48, 49)
QUOTE = S("\"'")
OPEN = S("([{")
CLOSE = S(")]}")
TWO = {}
for t in token.EXACT_TOKEN_TYPES:
    if len(t) == 2:
        TWO.setdefault(ord(t[0]), []).append(ord(t[1]))
TWO.setdefault(ord("<"), []).append(ord(">"))
THREE = {}
for t in token.EXACT_TOKEN_TYPES:
    if len(t) == 3 and t != "...":
        THREE.setdefault((ord(t[0]), ord(t[1])), []).append(ord(t[2]))
OPSTART = CS.of(TWO)
OPSECOND = CS.of([b for bs in TWO.values() for b in bs])
UNSUPPORTED = S("\r")
NUL = S("\0")
SURROGATES = CS.rng(0xd800, 0xdfff)


class Mode(object):
    def __init__(self, quote, size, raw):
        self.quote = quote
        self.size = size
        self.raw = raw
        self.regular = False
        self.depth = 0
        self.start_depth = -1
        self.last_end = -1


def is_(c, cs):
    if c is EOF or (type(c) is int and c == EOF):
        return False
    return ch_in(c, cs)


def eq(c, ch):
    if type(c) is int and c == EOF:
        return False
    return ch_eq(c, ord(ch))


class Tokenizer(object):
    def __init__(self, readline):
        self.readline = readline
        self.lines = []         # the lines read so far (tuples of chars, with a final newline)
        self.row = 0            # 1-based number of the current line
        self.col = 0
        self.line = ()
        self.implicit = False
        self.eof = False
        self.atbol = True
        self.level = 0
        self.indents = [0]
        self.alt = [0]
        self.pendin = 0
        self.modes = []
        self.comment_nl = False

    # ---- characters
    def nextc(self):
        if self.col >= len(self.line):
            if self.eof:
                return EOF
            try:
                l = self.readline()
            except StopIteration:
                l = ""
            cs = tuple(chars(l))
            if not cs:
                self.eof = True
                self.past = True
                return EOF
            for x in cs:
                if ch_in(x, SURROGATES):
                    raise UnicodeEncodeError("utf-8", "", 0, 1, "surrogates not allowed")
                if ch_in(x, NUL):
                    raise tokenize.TokenError("source code cannot contain null bytes", (self.row + 1, 0))
                if ch_in(x, UNSUPPORTED):
                    raise Unsupported("carriage return in a Python expression")
            self.row += 1
            self.implicit = False
            if not ch_eq(cs[-1], 10):
                cs = cs + (10,)
                self.implicit = True
            self.line = cs
            self.lines.append(cs)
            self.col = 0
        c = self.line[self.col]
        self.col += 1
        return c

    def backup(self, c):
        if type(c) is int and c == EOF:
            return
        self.col -= 1
        if self.col < 0:
            raise EngineError("tokenizer model: backup over a line")

    def pos(self):
        return (self.row, self.col)

    def err(self, msg):
        raise TokenError(msg, self.pos())

    def text(self, a, b):
        """The text between two (row, col) positions."""
        if a[0] == b[0]:
            return mk(self.lines[a[0] - 1][a[1]:b[1]])
        out = list(self.lines[a[0] - 1][a[1]:])
        for r in range(a[0], b[0] - 1):
            out.extend(self.lines[r])
        out.extend(self.lines[b[0] - 1][:b[1]])
        return mk(out)

    def tok(self, type_, a, b=None):
        b = b or self.pos()
        return TokenInfo(type_, self.text(a, b), a, b, mk(self.line))

    # ---- tokens
    def __iter__(self):
        while True:
            if self.modes and not self.modes[-1].regular:
                t = self.fstring()
            else:
                t = self.normal()
            yield t
            if t.type == token.ENDMARKER:
                return

    def continuation(self):
        c = self.nextc()
        if not eq(c, "\n"):
            self.err("unexpected character after line continuation character")
        c = self.nextc()
        if type(c) is int and c == EOF:
            self.err("unexpected EOF")
        self.backup(c)

    def indentation(self):
        """-> blankline"""
        col = alt = cont = 0
        while True:
            c = self.nextc()
            if eq(c, " "):
                col += 1
                alt += 1
            elif eq(c, "\t"):
                col = (col // 8 + 1) * 8
                alt += 1
            elif eq(c, "\x0c"):
                col = alt = 0
            elif eq(c, "\\"):
                cont = cont or col
                self.continuation()
            else:
                break
        self.backup(c)
        if eq(c, "#") or eq(c, "\n"):
            return True
        if self.level == 0:
            col = cont or col
            alt = cont or alt
            if col == self.indents[-1]:
                if alt != self.alt[-1]:
                    raise TabError("inconsistent use of tabs and spaces in indentation")
            elif col > self.indents[-1]:
                if alt <= self.alt[-1]:
                    raise TabError("inconsistent use of tabs and spaces in indentation")
                self.pendin += 1
                self.indents.append(col)
                self.alt.append(alt)
            else:
                while len(self.indents) > 1 and col < self.indents[-1]:
                    self.pendin -= 1
                    self.indents.pop()
                    self.alt.pop()
                if col != self.indents[-1]:
                    raise IndentationError("unindent does not match any outer indentation level")
                if alt != self.alt[-1]:
                    raise TabError("inconsistent use of tabs and spaces in indentation")
        return False

    def normal(self):
        blank = False
        if self.atbol:
            self.atbol = False
            blank = self.indentation()
        if self.pendin < 0:
            self.pendin += 1
            p = self.pos() if not self.eof else (self.row + 1, 0)
            return TokenInfo(token.DEDENT, "", p, p, "")
        if self.pendin > 0:
            self.pendin -= 1
            return self.tok(token.INDENT, (self.row, 0))
        while True:
            c = self.nextc()
            while is_(c, BLANK):
                c = self.nextc()
            if not eq(c, "\\"):
                break
            self.continuation()
        if type(c) is int and c == EOF:
            if self.level:
                self.err("unexpected EOF in multi-line statement")
            p = (self.row + 1, 0)
            return TokenInfo(token.ENDMARKER, "", p, p, "")
        start = (self.row, self.col - 1)
        if eq(c, "#"):
            while not eq(c, "\n"):
                c = self.nextc()
            self.backup(c)
            self.comment_nl = blank and not self.level
            return self.tok(token.COMMENT, start)
        if is_(c, IDSTART):
            return self.name(c, start)
        if eq(c, "\n"):
            self.atbol = True
            if blank or self.level > 0:
                return self.newline(token.NL, start)
            if self.comment_nl:
                self.comment_nl = False
                return self.newline(token.NL, start)
            return self.newline(token.NEWLINE, start)
        if eq(c, "."):
            c = self.nextc()
            if is_(c, DIGIT):
                return self.fraction(c, start)
            if eq(c, "."):
                d = self.nextc()
                if eq(d, "."):
                    return self.tok(token.OP, start)
                self.backup(d)
            self.backup(c)
            return self.tok(token.OP, start)
        if is_(c, DIGIT):
            return self.number(c, start)
        if is_(c, QUOTE):
            return self.string(c, start)
        return self.operator(c, start)

    def newline(self, type_, start):
        if self.implicit:
            return TokenInfo(type_, "", start, (start[0], start[1] + 1), mk(self.line[:-1]))
        return TokenInfo(type_, "\n", start, (start[0], start[1] + 1), mk(self.line))

    def peek(self, k):
        # within the line, which ends with a newline
        return self.line[self.col + k] if self.col + k < len(self.line) else 10

    def quote_follows(self):
        """Could the name be a string prefix?"""
        d = self.peek(0)
        return is_(d, QUOTE) or (is_(d, PREFIX) and is_(self.peek(1), QUOTE))

    def name(self, c, start):
        b = r = u = f = False
        while is_(c, PREFIX) and self.quote_follows():
            if not (b or u or f) and is_(c, S("bB")):
                b = True
            elif not (b or u or r or f) and is_(c, S("uU")):
                u = True
            elif not (r or u) and is_(c, S("rR")):
                r = True
            elif not (f or b or u) and is_(c, S("fF")):
                f = True
            else:
                break
            c = self.nextc()
            if is_(c, QUOTE):
                if f:
                    return self.fstart(c, start, r)
                return self.string(c, start)
        while is_(c, IDCHAR):
            c = self.nextc()
        self.backup(c)
        return self.tok(token.NAME, start)

    def end_number(self, c):
        # in this mode a letter after a number is no error
        self.backup(c)

    def tail(self, c):
        """After a digit: the first character past a run of digits."""
        while True:
            while is_(c, DIGIT):
                c = self.nextc()
            if not eq(c, "_"):
                return c
            c = self.nextc()
            if not is_(c, DIGIT):
                self.err("invalid decimal literal")

    def number(self, c, start):
        if eq(c, "0"):
            return self.zero(start)
        c = self.tail(c)
        if eq(c, "."):
            return self.fraction(self.nextc(), start)
        return self.exponent(c, start)

    def zero(self, start):
        c = self.nextc()
        for letters, digits in (("xX", HEX), ("oO", OCT), ("bB", BIN)):
            if is_(c, S(letters)):
                c = self.nextc()
                while True:
                    if eq(c, "_"):
                        c = self.nextc()
                    if not is_(c, digits):
                        self.err("invalid literal")
                    while is_(c, digits):
                        c = self.nextc()
                    if not eq(c, "_"):
                        break
                if is_(c, DIGIT):
                    self.err("invalid digit")
                self.end_number(c)
                return self.tok(token.NUMBER, start)
        nonzero = False
        while True:
            if eq(c, "_"):
                c = self.nextc()
                if not is_(c, DIGIT):
                    self.err("invalid decimal literal")
            if not eq(c, "0"):
                break
            c = self.nextc()
        if is_(c, DIGIT):
            nonzero = True
            c = self.tail(c)
        if eq(c, "."):
            return self.fraction(self.nextc(), start)
        if is_(c, S("eEjJ")):
            return self.exponent(c, start)
        if nonzero and LEADING_ZERO_ERROR:
            self.err("leading zeros in decimal integer literals are not permitted")
        self.end_number(c)
        return self.tok(token.NUMBER, start)

    def fraction(self, c, start):
        if is_(c, DIGIT):
            c = self.tail(c)
        return self.exponent(c, start)

    def exponent(self, c, start):
        if is_(c, S("eE")):
            e = c
            c = self.nextc()
            if is_(c, S("+-")):
                c2 = self.nextc()
                if not is_(c2, DIGIT):
                    self.err("invalid decimal literal")
                c = self.tail(c2)
            elif not is_(c, DIGIT):
                self.backup(c)
                self.end_number(e)
                return self.tok(token.NUMBER, start)
            else:
                c = self.tail(c)
        if is_(c, S("jJ")):
            c = self.nextc()
        self.end_number(c)
        return self.tok(token.NUMBER, start)

    def string(self, q, start):
        q = 34 if ch_eq(q, 34) else 39
        size, end = 1, 0
        c = self.nextc()
        if eq(c, chr(q)):
            c = self.nextc()
            if eq(c, chr(q)):
                size = 3
            else:
                end = 1
                self.backup(c)
        else:
            self.backup(c)
        while end != size:
            c = self.nextc()
            if (type(c) is int and c == EOF) or (size == 1 and eq(c, "\n")):
                self.err("unterminated string literal")
            if eq(c, chr(q)):
                end += 1
            else:
                end = 0
                if eq(c, "\\"):
                    self.nextc()
        return self.tok(token.STRING, start)

    def fstart(self, q, start, raw):
        q = 34 if ch_eq(q, 34) else 39
        size = 1
        c = self.nextc()
        if eq(c, chr(q)):
            d = self.nextc()
            if eq(d, chr(q)):
                size = 3
            else:
                self.backup(d)
                self.backup(c)
        else:
            self.backup(c)
        self.modes.append(Mode(q, size, raw))
        return self.tok(token.FSTRING_START, start)

    def fstring(self):
        m = self.modes[-1]
        start = self.pos()
        c = self.nextc()
        if eq(c, "{"):
            p = self.nextc()
            self.backup(p)
            self.backup(c)
            if not eq(p, "{"):
                m.start_depth += 1
                m.regular = True
                return self.normal()
        else:
            self.backup(c)
        n = 0
        end = True
        for _ in range(m.size):
            c = self.nextc()
            n += 1
            if not eq(c, chr(m.quote)):
                end = False
                break
        if end:
            self.modes.pop()
            return self.tok(token.FSTRING_END, start)
        self.col = start[1] if self.row == start[0] else self.back_to(start)
        ends = 0
        esc = False
        while ends != m.size:
            c = self.nextc()
            spec = m.last_end != -1 and m.start_depth >= 0
            if (type(c) is int and c == EOF) or (m.size == 1 and eq(c, "\n")):
                if spec and not (type(c) is int and c == EOF):
                    self.backup(c)
                    m.regular = True
                    return self.tok(token.FSTRING_MIDDLE, start)
                self.err("unterminated f-string literal")
            if eq(c, chr(m.quote)):
                ends += 1
                continue
            ends = 0
            if eq(c, "{"):
                p = self.nextc()
                if spec or not eq(p, "{"):
                    self.backup(p)
                    self.backup(c)
                    m.start_depth += 1
                    m.regular = True
                    return self.tok(token.FSTRING_MIDDLE, start)
                return self.tok(token.FSTRING_MIDDLE, start, (self.row, self.col - 1))
            if eq(c, "}"):
                if esc:
                    return self.tok(token.FSTRING_MIDDLE, start)
                p = self.nextc()
                if eq(p, "}") and not spec and m.depth == 0:
                    return self.tok(token.FSTRING_MIDDLE, start, (self.row, self.col - 1))
                self.backup(p)
                self.backup(c)
                m.regular = True
                return self.tok(token.FSTRING_MIDDLE, start)
            if eq(c, "\\"):
                p = self.nextc()
                if eq(p, "{") or eq(p, "}"):
                    self.backup(p)
                    continue
                if not m.raw and eq(p, "N"):
                    p = self.nextc()
                    if eq(p, "{"):
                        esc = True
                    else:
                        self.backup(p)
        self.col -= m.size
        return self.tok(token.FSTRING_MIDDLE, start)

    def back_to(self, start):
        raise EngineError("tokenizer model: backup over a line")

    def operator(self, c, start):
        m = self.modes[-1] if self.modes else None
        if m is not None and m.start_depth >= 0 and is_(c, S(":}!{")):
            o = eq(c, "{")
            cursor = m.depth - (0 if o else 1)
            if cursor == 0 and not o:
                m.last_end = 0
            elif cursor == 0:
                m.last_end = -1
            if eq(c, ":") and cursor == m.start_depth:
                m.regular = False
                return self.tok(token.OP, start)
        if is_(c, OPSTART):
            # which operator it is matters only if the next character could continue it
            d = self.nextc()
            if is_(d, OPSECOND):
                for a, bs in sorted(TWO.items()):
                    if eq(c, chr(a)):
                        break
                if is_(d, CS.of(bs)):
                    ths = [(b, THREE[(a, b)]) for b in bs if (a, b) in THREE]
                    for b, th in ths:
                        if eq(d, chr(b)):
                            e = self.nextc()
                            if not is_(e, CS.of(th)):
                                self.backup(e)
                            break
                    return self.tok(token.OP, start)
            self.backup(d)
        if is_(c, OPEN):
            self.level += 1
            if m is not None:
                m.depth += 1
        elif is_(c, CLOSE):
            if m is not None and not m.depth and eq(c, "}"):
                self.err("f-string: single '}' is not allowed")
            if self.level > 0:
                self.level -= 1
            if m is not None:
                m.depth -= 1
                if eq(c, "}") and m.depth == m.start_depth:
                    m.start_depth -= 1
                    m.regular = False
        if not is_(c, PRINTABLE):
            self.err("invalid non-printable character")
        return self.tok(token.OP, start)


PRINTABLE = CS.rng(32, 126)


class Unsupported(EngineError):
    pass


def generate_tokens(readline):
    lines = []

    def recording():
        l = readline()
        lines.append(l)
        return l
    n = 0
    try:
        for t in Tokenizer(recording):
            n += 1
            yield t
    except Unsupported:
        # the real tokenizer, with the text made concrete
        again = iter(list(lines))

        def real():
            for l in again:
                return realize(l)
            return realize(readline())
        for i, t in enumerate(tokenize.generate_tokens(real)):
            if i >= n:
                yield t
