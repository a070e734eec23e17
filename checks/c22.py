"""C22: the parser combinators are a PEG."""
from pbt.core import Discard
from pbt.lang import Cons, NIL, Sym, show
from pbt.libcheck import LibCheck, blit

PRE = '''
(defun pg-wrap (tag) (lambda (v) (cons tag v)))
(defun pg-ref (rules i) (lambda (toks) ((vector-ref rules i) toks)))
(func pg
  rs ['char c] => (cora/lib/peg#<char> c)
  rs ['str s] => (cora/lib/peg#<string> s)
  rs ['range a b] => (cora/lib/peg#<range> a b)
  rs ['not c] => (cora/lib/peg#<satisify> (lambda (x) (not (= x c))))
  rs ['less c] => (cora/lib/peg#<satisify> (lambda (x) (< x c)))
  rs ['eof] => (cora/lib/peg#<eof>)
  rs ['seq p q] => (@seq (pg rs p) (pg rs q))
  rs ['seq p q r] => (@seq (pg rs p) (pg rs q) (pg rs r))
  rs ['seq p q r s] => (@seq (pg rs p) (pg rs q) (pg rs r) (pg rs s))
  rs ['or p q] => (cora/lib/peg#@or (pg rs p) (pg rs q))
  rs ['opt p] => (cora/lib/peg#@? (pg rs p))
  rs ['star p] => (cora/lib/peg#@* (pg rs p))
  rs ['plus p] => (cora/lib/peg#@+ (pg rs p))
  rs ['neg p] => (cora/lib/peg#@! (pg rs p))
  rs ['map tag p] => (cora/lib/peg#$map (pg rs p) (pg-wrap tag))
  rs ['len p] => (cora/lib/peg#$map (pg rs p) (lambda (v) (length v)))
  rs ['again p] => (cora/lib/peg#$bind (pg rs p) (lambda (v) (cora/lib/peg#<char> v)))
  rs ['bind p q] => (cora/lib/peg#$bind (pg rs p) (lambda (v) (cora/lib/peg#$map (pg rs q) (lambda (w) (list v w)))))
  rs ['choose p c q r] => (cora/lib/peg#$bind (pg rs p) (lambda (v) (if (= v c) (pg rs q) (pg rs r))))
  rs ['ref i] => (pg-ref rs i))
(defun pg-rules (rs i l) (if (null? l) rs (do (vector-set! rs i (pg rs (car l))) (pg-rules rs (+ i 1) (cdr l)))))
(defun pg-show (r) (match r ['ok v rest] (vt#emit (list v (length rest) rest)) ['fail _] (vt#emit 'fail)))
(func pg-texts
   rs [] => 'done
   rs [[i s] . more] => (do (pg-show ((vector-ref rs i) (cora/lib/string#string->list s))) (pg-texts rs more)))
(defun pg-case (n gs ts) (pg-texts (pg-rules (vector n) 0 gs) ts))
'''


class Limit(Exception):
    pass


class Peg:
    def __init__(self, rules, text):
        self.rules = rules
        self.s = text
        self.steps = 0
        self.back = 0       # failures after something was consumed

    def m(self, g, i, d=0):
        """-> (value, end) or None"""
        self.steps += 1
        if self.steps > 30000 or d > 150:
            raise Limit
        s, k = self.s, g[0]
        if k == 'char':
            return (g[1], i + 1) if i < len(s) and s[i] == g[1] else None
        if k == 'str':
            return (g[1], i + len(g[1])) if s[i:i + len(g[1])] == g[1] else None
        if k == 'range':
            return (s[i], i + 1) if i < len(s) and g[1] <= s[i] <= g[2] else None
        if k == 'not':
            return (s[i], i + 1) if i < len(s) and s[i] != g[1] else None
        if k == 'less':
            return (s[i], i + 1) if i < len(s) and s[i] < g[1] else None
        if k == 'eof':
            return (NIL, i) if i == len(s) else None
        if k == 'seq':
            vs, j = [], i
            for p in g[1:]:
                r = self.m(p, j, d + 1)
                if r is None:
                    self.back += j > i
                    return None
                vs.append(r[0])
                j = r[1]
            v = vs[-1]
            for x in reversed(vs[:-1]):
                v = Cons(x, v)
            return v, j
        if k == 'or':
            return self.m(g[1], i, d + 1) or self.m(g[2], i, d + 1)
        if k == 'opt':
            return self.m(g[1], i, d + 1) or (NIL, i)
        if k in ('star', 'plus'):
            vs = []
            while True:
                r = self.m(g[1], i, d + 1)
                if r is None:
                    break
                vs.append(r[0])
                i = r[1]
            if k == 'plus' and not vs:
                return None
            v = NIL
            for x in reversed(vs):
                v = Cons(x, v)
            return v, i
        if k == 'neg':
            return None if self.m(g[1], i, d + 1) else (NIL, i)
        if k == 'ref':
            return self.m(self.rules[g[1]], i, d + 1)
        p = {'map': 2}.get(k, 1)
        r = self.m(g[p], i, d + 1)
        if r is None:
            return None
        v, j = r
        if k == 'map':
            return Cons(Sym(g[1]), v), j
        if k == 'len':
            n = 0
            while v is not NIL:
                n, v = n + 1, v.d
            return n, j
        if k == 'again':
            return (v, j + 1) if j < len(s) and s[j] == v else None
        if k == 'bind':
            r = self.m(g[2], j, d + 1)
            return r and (Cons(v, Cons(r[0], NIL)), r[1])
        if k == 'choose':
            return self.m(g[3] if v == g[2] else g[4], j, d + 1)
        raise AssertionError(k)


def text(g):
    return '(%s)' % ' '.join(text(x) if isinstance(x, tuple) else blit(x) if isinstance(x, bytes) else str(x) for x in g)


class C(LibCheck):
    id = 'C22'
    technique = 'random grammars and texts derived from them, matched by the library and by a recursive interpreter of PEGs'
    note = ('Grammars of 1 to 4 mutually recursive rules over all the operators (sequences of 2 to 4, choice, optional, both repetitions, lookahead, actions, parsers '
            'that depend on a value); texts are derived from the grammar, then damaged in half of the cases. Results: success, value and rest. Not generated: left recursion and '
            'repetition of something that can match nothing, for which a PEG has no meaning.')
    rule = 'A case is a grammar with up to six texts. Non-trivial: some alternative failed after it had consumed something.'
    libs = ()
    extra = True
    imports = ('string', 'peg')
    pre = PRE
    fast = True
    quick_n = 16000
    thorough_n = 800000
    quick_time = 30
    batch = 50

    # (grammar, can match nothing, value kind: 'byte', 'list' or '?')
    def term(self, t):
        c = t.pick(self.alpha)
        k = t.weighted([(8, 'char'), (3, 'str'), (3, 'range'), (2, 'not'), (1, 'less')])
        if k == 'str':
            s = bytes(t.pick(self.alpha) for _ in range(t.weighted([(1, 0), (2, 1), (4, 2), (2, 4)])))
            return ('str', s), not s, '?'
        if k == 'range':
            a, b = t.pick(self.alpha), t.pick(self.alpha)
            return ('range', a, b) if t.bool(1, 10) else ('range', min(a, b), max(a, b)), False, 'byte'
        return (k, c), False, 'byte'

    def byte(self, t):
        while True:
            g = self.term(t)
            if g[2] == 'byte':
                return g

    def exp(self, t, d, free):
        """free: rules may be used (something has been consumed)."""
        if d <= 0:
            if free and t.bool(1, 4):
                return ('ref', t.below(self.n)), True, '?'
            return self.term(t) if t.bool(19, 20) else (('eof',), True, '?')
        k = t.weighted([(3, 'term'), (9, 'seq'), (8, 'or'), (3, 'opt'), (4, 'star'), (3, 'plus'), (3, 'neg'), (3, 'map'), (1, 'len'), (1, 'again'), (2, 'bind'), (1, 'choose'),
                        (3 if free else 0, 'ref')])
        if k == 'ref':
            return ('ref', t.below(self.n)), True, '?'
        if k == 'term':
            return self.term(t)
        if k == 'seq':
            gs, null, kind = [], True, '?'
            for _ in range(t.pick([2, 2, 2, 3, 4])):
                g, n, kind = self.exp(t, d - 1, free or not null)
                null = null and n
                gs.append(g)
            return ('seq',) + tuple(gs), null, '?'
        if k == 'or':
            a = self.exp(t, d - 1, free)
            if t.bool(1, 3) and a[0][0] == 'seq':
                # a second alternative that begins like the first
                b = self.exp(t, d - 1, free or not a[1])
                h = a[0][1]
                return ('or', a[0], ('seq', h, b[0])), True, '?'
            b = self.exp(t, d - 1, free)
            return ('or', a[0], b[0]), a[1] or b[1], a[2] if a[2] == b[2] else '?'
        if k in ('star', 'plus'):
            for _ in range(5):
                g, n, _k = self.exp(t, d - 1, free)
                if not n:
                    break
            else:
                g, n, _k = self.byte(t)
            return (k, g), k == 'star', 'list'
        if k in ('opt', 'neg'):
            return (k, self.exp(t, d - 1, free)[0]), True, '?'
        if k == 'len':
            for _ in range(5):
                g, n, kind = self.exp(t, d - 1, free)
                if kind == 'list':
                    return ('len', g), n, '?'
            return ('len', ('star', self.byte(t)[0])), True, '?'
        if k == 'map':
            g, n, _k = self.exp(t, d - 1, free)
            return ('map', 'm%d' % t.below(5), g), n, '?'
        if k == 'again':
            return ('again', self.byte(t)[0]), False, 'byte'
        g, n, _k = self.exp(t, d - 1, free) if k == 'bind' else self.byte(t)
        a = self.exp(t, d - 1, free or not n)
        if k == 'bind':
            return ('bind', g, a[0]), n and a[1], '?'
        b = self.exp(t, d - 1, True)
        return ('choose', g, t.pick(self.alpha), a[0], b[0]), False, '?'

    def sample(self, t, g, d):
        """A text the grammar may match."""
        k = g[0]
        if k == 'char':
            return bytes([g[1]])
        if k == 'str':
            return g[1]
        if k == 'range':
            return bytes([t.between(min(g[1:]), max(g[1:]))])
        if k in ('not', 'less'):
            return bytes([t.pick(self.alpha)])
        if k in ('eof', 'neg') or d > 12:
            return b''
        if k == 'seq':
            return b''.join(self.sample(t, p, d + 1) for p in g[1:])
        if k == 'or':
            return self.sample(t, g[1 + t.below(2)], d + 1)
        if k == 'opt':
            return self.sample(t, g[1], d + 1) if t.bool() else b''
        if k in ('star', 'plus'):
            return b''.join(self.sample(t, g[1], d + 2) for _ in range(t.below(4) + (k == 'plus')))
        if k == 'map':
            return self.sample(t, g[2], d)
        if k == 'len':
            return self.sample(t, g[1], d)
        if k == 'again':
            return self.sample(t, g[1], d) * 2
        if k == 'bind':
            return self.sample(t, g[1], d + 1) + self.sample(t, g[2], d + 1)
        if k == 'choose':
            a = self.sample(t, g[1], d + 1)
            return a + self.sample(t, g[3] if a == bytes([g[2]]) else g[4], d + 1)
        return self.sample(t, self.rules[g[1]], d + 1)

    def gen(self, t):
        self.alpha = t.pick([b'abc', b'ab', b'a1+(', b'\n \xc3\x7f'])
        self.n = t.pick([1, 1, 2, 3, 4])
        self.rules = [self.exp(t, t.between(1, 4), False)[0] for _ in range(self.n)]
        texts, out, back, ok, labels = [], [], 0, 0, set()
        for _ in range(t.between(1, 6)):
            i = t.below(self.n)
            s = self.sample(t, self.rules[i], 0)[:200]
            if t.bool(1, 3):
                s += bytes(t.pick(self.alpha) for _ in range(t.below(4)))
            for _ in range(t.below(3) if t.bool() else 0):
                j = t.below(len(s) + 1)
                s = s[:j] + bytes(t.pick(self.alpha) for _ in range(t.below(2))) + s[j + t.below(2):]
            p = Peg(self.rules, s)
            try:
                r = p.m(self.rules[i], 0)
            except Limit:
                raise Discard('long')
            back += p.back
            texts.append('(%d %s)' % (i, blit(s)))
            labels.add('ok' if r else 'fail')
            if r is None:
                out.append('fail\n')
            else:
                rest = s[r[1]:]
                l = NIL
                for c in reversed(rest):
                    l = Cons(c, l)
                out.append(show(Cons(r[0], Cons(len(rest), Cons(l, NIL)))) + '\n')
        if sum(map(len, out)) > 20000:
            raise Discard('long')
        if back:
            labels.add('backtracks')
        src = "(vt#case CASE_ID (lambda () (pg-case %d '(%s) '(%s))))\n" % (self.n, ' '.join(text(g) for g in self.rules), ' '.join(texts))
        return dict(src=src, expect=''.join(out) + '=> done\n', labels=sorted(labels), nt=back > 0)

    def nontrivial(self, c):
        return c['nt']
