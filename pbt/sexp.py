"""Data as Python values (int, bool, Sym, bytes, list), their text in the source
notation, their canonical form, and a reference reader of arbitrary bytes."""
from .lang import Sym, show_str

DELIM = b'()"\'`,;[]'
SPACE = b' \t\n\v\f\r'
NONID = set(DELIM + SPACE)
IDCH = [c for c in range(1, 256) if c not in NONID]
IDCH0 = [c for c in IDCH if not 48 <= c <= 57]
WORDS = ['a', 'x', 'foo', 'list', 'quote', 'true', 'cora/lib/x#y', '+', '-', '->', '.', '..', '...', '*',
         '#', '%', '-x', '--1', '-1a', 'nil', 'lambda', '@x', '{', '}', '|', '\\', 'true?', 'x-1', '=>', '?', '!']
BIG = 1 << 53


class Deep(Exception):
    pass


def canon(v):
    """What the driver prints for the datum (iterative over lists)."""
    out = []

    def go(v, d):
        if d > 3000:
            raise Deep
        if v is True:
            out.append('true')
        elif v is False:
            out.append('false')
        elif isinstance(v, int):
            out.append(str(v))
        elif isinstance(v, Sym):
            out.append(str(v))
        elif isinstance(v, bytes):
            out.append(show_str(v))
        elif not v:
            out.append('()')
        else:
            out.append('(')
            for i, e in enumerate(v):
                if i:
                    out.append(' ')
                go(e, d + 1)
            out.append(')')
    go(v, 0)
    return ''.join(out)


def symbol(t):
    k = t.below(4)
    if k < 2:
        s = t.pick(WORDS)
    elif k == 2:
        s = ''.join(chr(t.pick(range(97, 123))) for _ in range(t.size(300 if t.bool(1, 8) else 12, 1)))
    else:
        s = chr(t.pick(IDCH0)) + ''.join(chr(t.pick(IDCH)) for _ in range(t.size(600 if t.bool(1, 8) else 10)))
    if s in ('true', 'false'):
        return s == 'true'
    if s[0] == '-' and s[1:].isdigit() and s.isascii():
        s = 'm' + s
    return Sym(s)


def string(t, nul=True):
    k = t.below(6)
    if k == 0:
        return b''
    lo = 0 if nul else 1
    if k < 3:
        return bytes(t.between(97, 122) for _ in range(t.size(20)))
    if k == 3:
        return b''.join(t.pick([b'"', b'\\', b'\n', b'\\n', b'\t', b'%s', b'??/', b'*/', b'\r', b'a', b'\x7f', b'\xff'] + ([b'\0'] if nul else []))
                        for _ in range(t.size(12)))
    if k == 4:
        return bytes(t.between(lo, 255) for _ in range(t.size(40)))
    return bytes(t.between(32, 126) for _ in range(t.size(2000)))


def number(t):
    k = t.below(4)
    if k == 0:
        return t.pick([0, 1, -1, 9007199254740992, -9007199254740992, 9007199254740991, 4294967296, -2147483648, 2147483647])
    v = t.int()
    return max(-BIG, min(BIG, v))


def datum(t, depth=5, nul=True):
    k = t.weighted([(3, 'num'), (3, 'sym'), (2, 'str'), (1, 'bool')] + ([(6, 'list')] if depth > 0 else [(1, 'nil')]))
    if k == 'num':
        return number(t)
    if k == 'sym':
        return symbol(t)
    if k == 'str':
        return string(t, nul)
    if k == 'bool':
        return t.bool()
    if k == 'nil':
        return []
    if t.bool(1, 5):
        return [Sym(t.pick(['quote', 'backquote', 'unquote', 'list', 'list-rest'])), datum(t, depth - 1, nul)]
    return [datum(t, depth - 1, nul) for _ in range(t.size(8))]


def gap(t, need):
    k = t.below(8)
    if k < 5:
        return ' ' if need else ''
    if k == 5:
        return ''.join(t.pick(list(' \t\n\r\v\f')) for _ in range(t.between(1, 4)))
    if k == 6:
        return ';%s\n' % ''.join(t.pick(list('abc ()"\'[];\\')) for _ in range(t.size(10)))
    return ' ' if need else t.pick(['', ' '])


def write(t, v):
    """A random spelling of the datum (latin-1 str)."""
    out = []

    def sep():
        # the gap before the next token, given the last character
        last = out[-1][-1] if out and out[-1] else '('
        out.append(gap(t, ord(last) not in NONID))

    def go(v):
        if v is True or v is False:
            sep()
            out.append('true' if v else 'false')
        elif isinstance(v, int):
            sep()
            s = str(v)
            if t.bool(1, 8):
                s = ('-' if v < 0 else '') + '0' * t.between(1, 40) + str(abs(v))
            out.append(s)
        elif isinstance(v, Sym):
            sep()
            out.append(str(v))
        elif isinstance(v, bytes):
            out.append(gap(t, False))
            out.append('"')
            for c in v:
                if c in (34, 92):
                    out.append('\\' + chr(c))
                elif c == 10:
                    out.append(t.pick(['\\n', '\n']))
                elif c != ord('n') and t.bool(1, 20):
                    out.append('\\' + chr(c))
                else:
                    out.append(chr(c))
            out.append('"')
        else:
            out.append(gap(t, False))
            h = v[0] if v and isinstance(v[0], Sym) else None
            if len(v) == 2 and h in ('quote', 'backquote', 'unquote') and t.bool(2, 3):
                out.append({'quote': "'", 'backquote': '`', 'unquote': ','}[str(h)])
                go(v[1])
                return
            if h == 'list' and t.bool(2, 3) and not any(isinstance(e, Sym) and str(e)[0] == '.' for e in v[1:]):
                out.append('[')
                for e in v[1:]:
                    go(e)
                out.append(gap(t, False))
                out.append(']')
                return
            if h == 'list-rest' and len(v) > 2 and t.bool(2, 3) and not any(isinstance(e, Sym) and str(e)[0] == '.' for e in v[1:]):
                out.append('[')
                for e in v[1:-1]:
                    go(e)
                sep()
                out.append('.')
                if len(out) and isinstance(v[-1], (int, Sym)):
                    out.append(' ')
                go(v[-1])
                out.append(gap(t, False))
                out.append(']')
                return
            out.append('(')
            for e in v:
                go(e)
            out.append(gap(t, False))
            out.append(')')
    go(v)
    return ''.join(out)


# ---- the reference reader -----------------------------------------------

class Bad(Exception):
    """Malformed text: nothing is said about what comes from here on."""


class End(Exception):
    """The text ends, possibly within a datum."""


class Reader:
    def __init__(self, data):
        self.d = data
        self.i = 0
        self.cut = False    # the text ended within a datum

    def skip(self):
        d, n = self.d, len(self.d)
        while self.i < n:
            c = d[self.i]
            if c in SPACE:
                self.i += 1
            elif c == 59:
                j = d.find(b'\n', self.i)
                self.i = n if j < 0 else j + 1
            else:
                return

    def read(self, depth=0):
        if depth > 400:
            raise Bad('deep')
        self.skip()
        d = self.d
        if self.i >= len(d):
            raise End
        c = d[self.i]
        if 48 <= c <= 57:
            j = self.i
            while j < len(d) and 48 <= d[j] <= 57:
                j += 1
            v = int(d[self.i:j].lstrip(b'0')[:17] or b'0')
            if j < len(d) and d[j] not in NONID:
                raise Bad('digits run into other characters')
            self.i = j
            if v > BIG:
                raise Bad('large number')
            return v
        if c in b"'`,":
            self.i += 1
            v = self.read(depth + 1)
            return [Sym({39: 'quote', 96: 'backquote', 44: 'unquote'}[c]), v]
        if c == 40:
            self.i += 1
            out = []
            while True:
                self.skip()
                if self.i >= len(d):
                    raise End
                if d[self.i] == 41:
                    self.i += 1
                    return out
                out.append(self.read(depth + 1))
        if c == 91:
            self.i += 1
            out, dot = [], False
            while True:
                self.skip()
                if self.i >= len(d):
                    raise End
                if d[self.i] == 93:
                    self.i += 1
                    return [Sym('list-rest' if dot else 'list')] + out
                if d[self.i] == 46:
                    if dot or not out or self.i + 1 >= len(d) or d[self.i + 1] not in SPACE:
                        raise Bad('dot')
                    dot = True
                    self.i += 1
                    n = len(out)
                    continue
                if dot and len(out) > n:
                    raise Bad('dot')
                out.append(self.read(depth + 1))
        if c == 34:
            j = self.i + 1
            out = bytearray()
            while True:
                if j >= len(d):
                    raise Bad('string')
                if d[j] == 34:
                    break
                if d[j] == 92:
                    j += 1
                    if j >= len(d):
                        raise Bad('string')
                    out.append(10 if d[j] == ord('n') else d[j])
                else:
                    out.append(d[j])
                j += 1
            self.i = j + 1
            return bytes(out)
        if c in NONID:
            raise Bad('delimiter')
        j = self.i
        while j < len(d) and d[j] not in NONID:
            j += 1
        s = d[self.i:j]
        if 0 in s:
            raise Bad('nul')
        self.i = j
        if s == b'true':
            return True
        if s == b'false':
            return False
        if s[:1] == b'-' and s[1:].isdigit():
            v = -int(s[1:].lstrip(b'0')[:17] or b'0')
            if v < -BIG:
                raise Bad('large number')
            return v
        return Sym(s.decode('latin-1'))

    def all(self):
        """-> (data, how it ends: 'end' or the reason it is malformed)"""
        out = []
        while True:
            self.skip()
            self.cut = self.i < len(self.d)
            try:
                out.append(self.read())
            except End:
                return out, 'end'
            except Bad as e:
                return out, str(e)
