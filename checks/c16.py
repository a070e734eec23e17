"""C16: equality is structural, and an equivalence."""
from pbt import sexp
from pbt.lang import Sym
from pbt.libcheck import LibCheck, blit

NIL = ('nil',)


def of(v):
    if v is True or v is False:
        return ('b', v)
    if isinstance(v, int):
        return ('n', v)
    if isinstance(v, Sym):
        return ('s', str(v))
    if isinstance(v, bytes):
        return ('t', v)
    r = NIL
    for e in reversed(v):
        r = ('c', of(e), r)
    return r


def mutate(t, v):
    """A value like v but for one small change somewhere (or none)."""
    if v[0] == 'c':
        if t.bool(7, 8):
            if t.bool():
                return ('c', mutate(t, v[1]), v[2])
            return ('c', v[1], mutate(t, v[2]))
        return t.pick([('c', v[2], v[1]), v[1], v[2], NIL, ('c', v, NIL), ('c', v[1], ('c', v[1], v[2]))])
    k = t.below(4)
    if v[0] == 'n':
        n = v[1]
        o = t.pick([n + 1, -n, n - 1, n + (1 << 32), n ^ (1 << 51), n * 2, n + 256])
        return ('n', max(-sexp.BIG, min(sexp.BIG, o)))
    if v[0] == 't':
        b = v[1]
        if k == 0:
            return ('t', b + t.pick([b'\0', b'a', b' ', b'\0a', b'x' * 256, b'\0' * 300]))
        if k == 1:
            return ('t', b[:-1])
        if b:
            i = t.below(len(b))
            return ('t', b[:i] + bytes([b[i] ^ t.pick([1, 32, 128, 255])]) + b[i + 1:])
        return t.pick([NIL, ('n', 0), ('b', False)])
    if v[0] == 's':
        s = v[1]
        o = t.pick([s + 'a', s[:-1] or 'b', s.encode('latin-1').upper().decode('latin-1'), s + '#', s.replace('-', '_'), s + '1'])
        if k == 3:
            return ('t', s.encode('latin-1'))
        if o in ('true', 'false') or (o[0] == '-' and o[1:].isdigit()) or o[0].isdigit():
            o = 'z' + o
        return ('s', o)
    if v[0] == 'b':
        return t.pick([('b', not v[1]), NIL, ('n', int(v[1])), ('s', 'true1')])
    if v[0] == 'v':
        return ('v', v[1] ^ 1)
    return t.pick([('n', 0), ('b', False), ('t', b''), ('c', NIL, NIL), ('s', 'nil')])


def value(t, d):
    k = t.below(8)
    if k < 5 or d == 0:
        return of(sexp.datum(t, t.below(min(2, d) + 1)))
    if k == 5:
        return ('v', t.below(4))
    if k == 6:
        return ('c', value(t, d - 1), value(t, d - 1))
    r = value(t, 0) if t.bool() else NIL
    for _ in range(t.size(6)):
        r = ('c', value(t, d - 1), r)
    return r


def plain(v):
    """The datum, if the notation has one for it."""
    if v[0] == 'v':
        return None
    if v[0] != 'c':
        return [] if v == NIL else Sym(v[1]) if v[0] == 's' else v[1]
    out = []
    while v[0] == 'c':
        x = plain(v[1])
        if x is None:
            return None
        out.append(x)
        v = v[2]
    return out if v == NIL else None


def src(t, v):
    if v[0] == 'v':
        return 'v%d' % v[1]
    p = plain(v)
    if p is not None and t.bool(1, 3):
        return '(quote %s)' % sexp.write(t, p)
    if v[0] == 'c':
        out, n = [], 0
        if t.bool():
            return '(cons %s %s)' % (src(t, v[1]), src(t, v[2]))
        while v[0] == 'c':
            out.append('(cons %s ' % src(t, v[1]))
            v = v[2]
        return ''.join(out) + src(t, v) + ')' * len(out)
    if v[0] == 'n':
        n = v[1]
        k = t.below(3)
        if k == 0:
            a = t.below(1000)
            return '(+ %d %d)' % (n - a, a) if abs(n) < sexp.BIG - 1000 else '(* 1 %d)' % n
        if k == 1 and n % 2 == 0:
            return '(* 2 %d)' % (n // 2)
        return str(n)
    if v[0] == 't':
        b = v[1]
        k = t.below(3)
        if k == 0 and len(b) < 50:
            return '(vt#bytes (quote (%s)))' % ' '.join(map(str, b))
        i = t.below(len(b) + 1)
        if k == 1:
            return '(string-append %s %s)' % (blit(b[:i]), blit(b[i:]))
        return blit(b)
    if v[0] == 's':
        if t.bool() and 0 not in v[1].encode('latin-1'):
            return '(intern %s)' % blit(v[1].encode('latin-1'))
        return "(quote %s)" % v[1]
    if v[0] == 'b':
        return 'true' if v[1] else '(= 1 0)' if t.bool() else 'false'
    return '()'


PRE = '''
(defun @h1 (k x) (let h (cora/lib/hash#hash-make k) (do (cora/lib/hash#hash-set! h x 1) h)))
(defun @yes (x) (if x true false))
(defun @some (x) (if (null? x) false true))
(defun @ways (f a b)
  (list (= a b) (f a b) ((f a) b) (apply f (list a b)) (@yes (= a b)) (not (not (= a b)))
        (elem? a (list b)) (cora/lib/sys#member a (list b)) (@some (cora/lib/sys#assq a (list (cons b 1))))
        (@some (cora/lib/hash#hash-get (@h1 1 b) a)) (@some (cora/lib/hash#hash-get (@h1 64 b) a))
        (if (elem? a (list 'qq)) (= b 'qq) (= (filter (lambda (x) (= x a)) (list b)) (if (= b a) (list a) ())))))
(defun @one (f a l) (if (null? l) 0 (do (vt#emit (@ways f a (car l))) (@one f a (cdr l)))))
(defun @all (f l m) (if (null? l) 0 (do (@one f (car l) m) (@all f (cdr l) m))))
(defun @up (n acc e) (if (= n 0) acc (@up (- n 1) (cons n acc) e)))
(defun @left (n acc) (if (= n 0) acc (@left (- n 1) (cons acc ()))))
(defun @comb (n acc) (if (= n 0) acc (@comb (- n 1) (cons (cons acc n) n))))
'''.replace('@', 'eq-')


class C(LibCheck):
    id = 'C16'
    technique = 'random sets of equal and nearly equal values, compared in all the ways a program can, against a structural model'
    note = ('Sets of two to five values (numbers to 2^53, booleans, symbols and strings of any bytes, lists, pairs, '
            'vectors), each next to copies built in another way and copies changed in one place. All ordered pairs '
            'are compared with `=` inline, as a function, curried and applied, and through elem?, member, assq, filter, '
            'hash lookup and literal patterns. Lists and nests of a million pairs as fixed cases.')
    rule = 'A case is a set of values. Non-trivial: it has both equal values built separately and different ones, with a pair or string.'
    libs = imports = ('sys', 'hash-h', 'hash')
    libs = ('hash',)
    imports = ('sys', 'hash')
    pre = PRE
    quick_n = 5000
    thorough_n = 150000
    quick_time = 30
    batch = 40

    def gen(self, t):
        vs = [value(t, t.below(4))]
        for _ in range(t.between(1, 4)):
            k = t.below(4)
            if k == 0:
                vs.append(value(t, t.below(3)))
            elif k == 1:
                vs.append(t.pick(vs))
            else:
                vs.append(mutate(t, t.pick(vs)))
        return self.case(t, vs)

    def case(self, t, vs):
        body = '(eq-all = l l)'
        exp = []
        for a in vs:
            for b in vs:
                r = 'true' if a == b else 'false'
                exp.append('(' + ' '.join([r] * 11) + ' true)\n')
        # literal patterns
        for i, a in enumerate(vs):
            p = plain(a)
            if p is None:
                continue
            lit = "'" + sexp.write(t, p)
            if not isinstance(p, (list, Sym)) and t.bool():
                lit = sexp.write(t, p)
            body = "(do %s (eq-pat%d-CASE_ID l))" % (body, i)
        defs = ''
        for i, a in enumerate(vs):
            p = plain(a)
            if p is None:
                continue
            lit = "(quote %s\n)" % sexp.write(t, p)
            if not isinstance(p, (list, Sym)) and t.bool():
                lit = sexp.write(t, p) + '\n'
            defs += '(func eq-p%d-CASE_ID %s => true x => false)\n(defun eq-pat%d-CASE_ID (l) (vt#emit (map eq-p%d-CASE_ID l)))\n' % (i, lit, i, i)
            exp.append('(' + ' '.join('true' if b == a else 'false' for b in vs) + ')\n')
        s = defs + '(vt#case CASE_ID (lambda () (let v0 (vector 2) v1 (vector 2) v2 (vector 3) v3 (vector 0)\n (do (vector-set! v0 0 7) (do (vector-set! v1 0 7) (let l (list\n %s)\n %s))))))\n' % (
            '\n '.join(src(t, v) for v in vs), body)
        n = len(vs)
        lab = {'n': 'number', 'b': 'boolean', 's': 'symbol', 't': 'string', 'v': 'vector', 'c': 'pair', 'nil': 'empty'}
        same = len(set(vs)) < n
        return dict(src=s, expect=''.join(exp) + '=> %s\n' % exp_last(vs, exp),
                    labels=sorted({lab[v[0]] for v in vs}) + (['equal copies'] if same else []) + (['different'] if len(set(vs)) > 1 else []),
                    nt=same and len(set(vs)) > 1 and any(v[0] in 'ct' for v in vs))

    def fixed_cases(self):
        out = []
        for name, a, b, r in (
                ('long', '(eq-up 1000000 () 0)', '(eq-up 1000000 () 0)', 'true'),
                ('long end', '(eq-up 1000000 () 0)', '(eq-up 1000000 1 0)', 'false'),
                ('left', '(eq-left 1000000 ())', '(eq-left 1000000 ())', 'true'),
                ('left end', '(eq-left 1000000 1)', '(eq-left 1000000 2)', 'false'),
                ('left short', '(eq-left 100000 ())', '(eq-left 100001 ())', 'false'),
                ('comb', '(eq-comb 300000 ())', '(eq-comb 300000 ())', 'true'),
                ('comb end', '(eq-comb 300000 1)', '(eq-comb 300000 2)', 'false')):
            out.append((name, dict(src='(vt#case CASE_ID (lambda () (let a %s b %s (list (= a b) (= b a) (apply = (list a b))))))\n' % (a, b),
                                   expect='=> (%s %s %s)\n' % (r, r, r), labels=['huge'], nt=True, once=True)))
        return out

    def run(self, cases):
        if any(c.get('once') for c in cases):
            self.modes = ('compiled',)
            try:
                return super().run(cases)
            finally:
                self.modes = C.modes
        return super().run(cases)

    def nontrivial(self, c):
        return c['nt']


def exp_last(vs, exp):
    return exp[-1].strip() if any(plain(v) is not None for v in vs) else '0'
