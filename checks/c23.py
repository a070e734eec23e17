"""C23: markup rendered from a tree parses back to the tree."""
import re
from pbt.libcheck import LibCheck, blit
from pbt.prog import judge

PRE = '''
(defun sx-run (l) (if (null? l) 'ok (do (vt#emit (cora/lib/sxml#sxml->xml (car l))) (sx-run (cdr l)))))
'''
NAME = b'[A-Za-z_:][A-Za-z0-9_:.-]*'
ENT = {b'quot': b'"', b'amp': b'&', b'apos': b"'", b'lt': b'<', b'gt': b'>'}


class Malformed(Exception):
    pass


def unescape(b):
    def one(m):
        if m.group(1) is None:
            raise Malformed('bare & in %r' % b[m.start():m.start() + 20])
        if m.group(1) in ENT:
            return ENT[m.group(1)]
        if m.group(1)[:2] in (b'#x', b'#X'):
            n = int(m.group(1)[2:], 16)
        elif m.group(1)[:1] == b'#':
            n = int(m.group(1)[1:])
        else:
            raise Malformed('unknown entity %r' % m.group(0))
        return bytes([n]) if n < 128 else chr(n).encode()
    return re.sub(rb'&(?:(#[0-9]+|#[xX][0-9a-fA-F]+|[a-z]+);)?', one, b)


def parse(b):
    """-> list of nodes: bytes, or (tag, {name: value or None}, nodes)"""
    top = []
    st = [(None, top)]
    i = 0
    while i < len(b):
        j = b.find(b'<', i)
        if j < 0:
            j = len(b)
        if j > i:
            text = b[i:j]
            if b'>' in text:
                raise Malformed('bare > in %r' % text[:40])
            st[-1][1].append(unescape(text))
            i = j
            continue
        m = re.compile(rb'</(' + NAME + rb')\s*>').match(b, i)
        if m:
            if len(st) == 1 or st[-1][0] != m.group(1):
                raise Malformed('end tag %r inside %r' % (m.group(0), st[-1][0]))
            st.pop()
            i = m.end()
            continue
        m = re.compile(rb'<(' + NAME + rb')').match(b, i)
        if not m:
            raise Malformed('bare < at %r' % b[i:i + 40])
        i = m.end()
        tag = m.group(1)
        attrs = {}
        while True:
            m = re.compile(rb'\s+(' + NAME + rb')(?:\s*=\s*(?:"([^"<]*)"|\'([^\'<]*)\'))?').match(b, i)
            if not m:
                break
            if m.group(1) in attrs:
                raise Malformed('attribute %r twice' % m.group(1))
            v = m.group(2) if m.group(2) is not None else m.group(3)
            attrs[m.group(1)] = None if v is None else unescape(v)
            i = m.end()
        m = re.compile(rb'\s*(/?)>').match(b, i)
        if not m:
            raise Malformed('the tag of %r goes on with %r' % (tag, b[i:i + 40]))
        i = m.end()
        node = (tag, attrs, [])
        st[-1][1].append(node)
        if not m.group(1):
            st.append((tag, node[2]))
    if len(st) > 1:
        raise Malformed('%r is not closed' % st[-1][0])
    return top


def norm(nodes):
    out = []
    for x in nodes:
        if isinstance(x, bytes):
            if out and isinstance(out[-1], bytes):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            out.append([x[0], x[1], norm(x[2])])
    return out


def diff(a, b, path='top'):
    """First difference of two normal forms, as text."""
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x == y:
            continue
        if isinstance(x, list) and isinstance(y, list) and x[:2] == y[:2]:
            return diff(x[2], y[2], '%s/%s' % (path, x[0].decode()))
        f = lambda z: 'nothing' if z is None else repr(z if isinstance(z, bytes) else (z[0], z[1]))[:300]  # noqa: E731
        return '%s: expected %s, found %s' % (path, f(x), f(y))
    return None


def unshow(s):
    if s[:1] != '"' or s[-1:] != '"':
        return None
    return re.sub(r'\\(x[0-9a-f]{2}|.)', lambda m: chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == 'x' and len(m.group(1)) == 3 else m.group(1), s[1:-1]).encode('latin-1')


class C(LibCheck):
    id = 'C23'
    technique = 'random trees rendered and read back by an independent parser of markup, which must give the tree again'
    note = ('Trees of elements, attributes (text, numbers, none), text, nested lists and empty ones, to depth 300 in a chain and 30 elements wide, with text of any bytes and '
            'up to 5,000 bytes. Tags and attribute names are names of XML; bodies contain text only as strings (the library renders nothing else).')
    rule = 'A case is one to three trees. Non-trivial: a tree with at least three nodes, or a character that has to be escaped.'
    libs = ()
    extra = True
    imports = ('sxml',)
    pre = PRE
    fast = True
    quick_n = 20000
    thorough_n = 800000
    quick_time = 25
    batch = 50

    def text(self, t):
        n = t.weighted([(2, 0), (6, 1), (8, 3), (6, 8), (4, 40), (1, t.below(5000) if t.bool(1, 4) else 300)])
        if n > 60 and t.bool(3, 4):
            # long runs: the buffer grows at once
            return bytes([t.pick(b'ab<&"\'\\ \xc3')]) * n + bytes(t.pick(b'x<') for _ in range(t.below(4)))
        return bytes(t.pick([t.between(97, 122), t.between(32, 126), t.pick(b'<>&"\'\\'), t.pick(b'<>&"\'\\'), t.pick(b'; /=!-[]'), t.between(128, 255), t.between(1, 31), t.pick(b'\n\t ')])
                     for _ in range(n))

    def name(self, t):
        return t.pick(['a', 'p', 'div', 'x-y', 'ns:t', 'H1', 'a.b', '_u', 'item%d' % t.below(1000), 'n' * t.between(1, 60), 'nil', 'quote', 'list', 'if'])

    def elem(self, t, d):
        """-> (source, nodes)"""
        k = t.weighted([(4, 's'), (5 if d else 0, 'e'), (2 if d else 0, 'l'), (1, 'n')])
        if k == 's':
            b = self.text(t)
            self.n += 1
            if any(c in b for c in b'<>&"\'\\'):
                self.esc = True
            return blit(b), [b]
        if k == 'n':
            return '()', []
        if k == 'l':
            # a list of nodes that does not begin with a tag
            out = [self.elem(t, d - 1) for _ in range(t.below(5))]
            return '(%s)' % ' '.join(x[0] for x in out), [y for x in out for y in x[1]]
        self.n += 1
        tag = self.name(t)
        attrs, src = {}, []
        if t.bool(1, 2):
            for _ in range(t.below(5) if t.bool(19, 20) else 40):
                a = self.name(t)
                if a.encode() in attrs:
                    continue
                m = t.below(4)
                if m == 0:
                    attrs[a.encode()] = None
                    src.append(a)
                elif m == 1:
                    v = t.pick([0, 1, -1, t.below(1000), -t.below(100000), t.below(1 << 31), 1 << 40])
                    attrs[a.encode()] = str(v).encode()
                    src.append('(%s %d)' % (a, v))
                else:
                    v = self.text(t)
                    if any(c in v for c in b'<>&"\'\\'):
                        self.esc = True
                    attrs[a.encode()] = v
                    src.append('(%s %s)' % (a, blit(v)))
            head = '%s (@%s)' % (tag, ''.join(' ' + s for s in src))
        else:
            head = tag
        n = t.below(5) if t.bool(14, 15) else 30 if d < 3 else 8
        body = [self.elem(t, d - 1) for _ in range(n)]
        return '(%s%s)' % (head, ''.join(' ' + x[0] for x in body)), [(tag.encode(), attrs, [y for x in body for y in x[1]])]

    def gen(self, t):
        self.n, self.esc = 0, False
        srcs, trees = [], []
        for _ in range(t.pick([1, 1, 2, 3])):
            s, x = self.elem(t, t.between(0, 4))
            if t.bool(1, 25):
                for _ in range(t.below(300)):
                    s, x = '(a %s)' % s, [(b'a', {}, x)]
            srcs.append(s)
            trees.append(x)
        return dict(src="(vt#case CASE_ID (lambda () (sx-run '(%s))))\n" % ' '.join(srcs), trees=trees, expect='', nt=self.n >= 3 or self.esc,
                    labels=['escape'] * self.esc + ['nodes>=%d' % (10 ** (len(str(self.n)) - 1))])

    def judge(self, case, res):
        st, got = res
        lines = got.split('\n') if isinstance(got, str) else []
        n = len(case['trees'])
        if st != 'exit:0' or len(lines) != n + 2 or lines[n] != '=> ok':
            return judge('\n'.join(['"…"'] * n + ['=> ok', '']), res)
        for line, tree in zip(lines, case['trees']):
            b = unshow(line)
            if b is None:
                return 'wrong: the result is no string: %s' % line[:200]
            try:
                d = diff(norm(tree), norm(parse(b)))
            except Malformed as e:
                return 'malformed: %s in %r' % (e, b[:300])
            if d:
                return 'changed: %s; markup %r' % (d, b[:300])
        return None

    def nontrivial(self, c):
        return c['nt']

    def show(self, c):
        return c['src']
