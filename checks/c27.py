"""C27: the embedding interface builds and runs values faithfully."""
import os
import tempfile
from pbt import build
from pbt.build import BootCrash, Tree
from pbt.core import Check
from pbt.lang import show_str
from pbt.prog import judge, parse_results

NR = 8

PRE = '''
(import "cora/lib/sys")
(package "embp" (export id k0 list3 swap copy app1 app3 appl mk-k mk-adder churn deep try1 throw1 tryn val setv map1 vlist loop5 ctr many each)
(defun id (x) x)
(defun k0 () 'zero)
(defun list3 (a b c) (cons a (cons b (cons c ()))))
(defun swap (p) (cons (cdr p) (car p)))
(defun vcopy (v w i n) (if (= i n) w (begin (vector-set! w i (copy (vector-ref v i))) (vcopy v w (+ i 1) n))))
(defun copy (x) (cond ((number? x) (+ x 0)) ((cons? x) (cons (copy (car x)) (copy (cdr x)))) ((vector? x) (vcopy x (vector (vector-length x)) 0 (vector-length x)))
  ((string? x) (string-append x "")) (true x)))
(defun app1 (f x) (f x))
(defun app3 (f a b c) (f a b c))
(defun appl (f l) (apply f l))
(defun mk-k (x) (lambda (y) (cons x y)))
(defun mk-adder (a) (lambda (b c) (lambda (d) (cons a (cons b (cons c d))))))
(defun churn (n x) (if (= n 0) x (begin (vector (- n (* 50 (/ n 50)))) (string-append "abcdefgh" "ijklmnop") (churn (- n 1) x))))
(defun deep (n x) (if (= n 0) x (cons n (deep (- n 1) x))))
(defun try1 (f x) (try (lambda () (cons 'ok (f x))) (lambda (v k) (cons 'caught v))))
(defun throw1 (x) (throw x))
(defun tryn (n x) (try (lambda () (cons 'no (tdeep n x))) (lambda (v k) (k (cons 'resumed v)))))
(defun tdeep (n x) (if (= n 0) (throw x) (cons n (tdeep (- n 1) x))))
(defun val (s) (value s))
(defun setv (s x) (set s x))
(defun map1 (f l) (map f l))
(defun vlist1 (v i) (if (= i (vector-length v)) () (cons (vector-ref v i) (vlist1 v (+ i 1)))))
(defun vlist (v) (if (vector? v) (vlist1 v 0) 'none))
(defun loop5 (f x) (begin (f x) (begin (f x) (begin (f x) (begin (f x) (f x))))))
(defun ctr (x) (let c (cons x x) (lambda (y) (cons c y))))
(defun many (a b c d e f g h) (cons a (cons b (cons c (cons d (cons e (cons f (cons g (cons h ())))))))))
(defun each (f l) (if (cons? l) (begin (f (car l)) (each f (cdr l))) (emb#sum '(1 2 3)))))
'''


class Err(Exception):
    pass


class Sym:
    def __init__(self, name):
        self.name = name


class Vec:
    def __init__(self, xs, cap):
        self.xs, self.cap = xs, cap


class Fn:
    def __init__(self, name, n, f, got=()):
        self.name, self.n, self.f, self.got = name, n, f, got


T, F, N = Sym('true'), Sym('false'), Sym('()')
UNSET = Sym('#undef')


def mklist(xs, tail=N):
    for x in reversed(xs):
        tail = (x, tail)
    return tail


def unlist(l):
    out = []
    while isinstance(l, tuple):
        out.append(l[0])
        l = l[1]
    if l is not N:
        raise Err
    return out


def size(v, seen=0):
    n, st = 0, [v]
    while st:
        v = st.pop()
        n += 1
        if n > 3000:
            return n
        if isinstance(v, tuple):
            st += v
        elif isinstance(v, Vec):
            st += v.xs
        elif isinstance(v, bytes):
            n += len(v) // 8
    return n


def reaches(v, x):
    st = [v]
    while st:
        v = st.pop()
        if v is x:
            return True
        if isinstance(v, tuple):
            st += v
        elif isinstance(v, Vec):
            st += v.xs
        elif isinstance(v, Fn):
            st += v.got
    return False


def dump(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, bytes):
        return show_str(v)
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, Fn):
        return '#fn'
    if isinstance(v, Vec):
        return '#(%s)' % ' '.join(map(dump, v.xs))
    out = []
    while isinstance(v, tuple):
        out.append(dump(v[0]))
        v = v[1]
    if v is not N:
        out += ['.', dump(v)]
    return '(%s)' % ' '.join(out)


class Thrown(Exception):
    def __init__(self, v):
        self.v = v


class M:
    """The program and the host as a model."""

    def __init__(self):
        self.syms = {}
        self.vals = {}
        self.log = []
        self.fuel = 3000
        self.r = [N] * NR
        self.quiet = False
        F_ = {}

        def d(name, n, f):
            F_[name] = Fn(name, n, f)
        for i in (0, 1, 2, 3, 4):
            d('emb#n%d' % i, i, lambda *a, i=i: self.native('n%d' % i, a))
        d('emb-n7', 7, lambda *a: self.native('n7', a))
        d('emb#pick', 3, lambda a, b, c: b)
        d('emb#sum', 1, self.sum)
        d('emb#fill', 2, self.fill)
        d('emb#ncall', 2, self.ncall)
        d('emb#ncall2', 3, self.ncall2)
        d('emb#nmap', 2, lambda f, l: mklist([self.nested(f, [x]) for x in unlist(l)]))
        d('emb-reg', 1, lambda i: self.r[self.num(i, NR)])
        d('emb#set-reg', 2, self.setreg)
        p = 'embp#'
        d(p + 'id', 1, lambda x: x)
        d(p + 'k0', 0, lambda: self.sym('zero'))
        d(p + 'list3', 3, lambda a, b, c: mklist([a, b, c]))
        d(p + 'swap', 1, lambda x: (self.cons(x)[1], x[0]))
        d(p + 'copy', 1, self.copy)
        d(p + 'app1', 2, lambda f, x: self.call(f, [x]))
        d(p + 'app3', 4, lambda f, a, b, c: self.call(f, [a, b, c]))
        d(p + 'appl', 2, lambda f, l: self.call(f, unlist(l)))
        d(p + 'mk-k', 1, lambda x: Fn('k', 1, lambda y, x=x: (x, y)))
        d(p + 'mk-adder', 1, lambda a: Fn('a2', 2, lambda b, c: Fn('a3', 1, lambda e: (a, (b, (c, e))))))
        d(p + 'churn', 2, lambda n, x: (self.num(n, 5001), x)[1])
        d(p + 'deep', 2, lambda n, x: mklist(list(range(self.num(n, 400), 0, -1)), x))
        d(p + 'try1', 2, self.try1)
        d(p + 'throw1', 1, self.throw)
        d(p + 'tryn', 2, lambda n, x: (self.sym('no'), mklist(list(range(self.num(n, 400), 0, -1)), (self.sym('resumed'), x))))
        d(p + 'val', 1, self.value)
        d(p + 'setv', 2, self.setv)
        d(p + 'map1', 2, lambda f, l: mklist([self.call(f, [x]) for x in unlist(l)]))
        d(p + 'vlist', 1, lambda v: mklist(v.xs) if isinstance(v, Vec) else self.sym('none'))
        d(p + 'loop5', 2, lambda f, x: [self.call(f, [x]) for _ in range(5)][-1])
        d(p + 'ctr', 1, lambda x: Fn('c', 1, lambda y, x=x: ((x, x), y)))
        d(p + 'many', 8, lambda *a: mklist(a))
        d(p + 'each', 2, self.each)
        self.F = F_
        self.nest = 0

    def num(self, x, hi):
        if type(x) is not int or not 0 <= x < hi:
            raise Err
        self.fuel -= x // 4
        return x

    def sym(self, n):
        if n not in self.syms:
            self.syms[n] = Sym(n)
        return self.syms[n]

    def cons(self, x):
        if not isinstance(x, tuple):
            raise Err
        return x

    def native(self, name, a):
        if not self.quiet:
            self.log.append('[%s]' % ' '.join([name] + [dump(x) for x in a]))
        return mklist(a)

    def sum(self, l):
        s = 0
        for x in unlist(l):
            s += x if isinstance(x, int) else 0
            if not -2 ** 31 <= s < 2 ** 31:
                raise Err
        return s

    def fill(self, n, x):
        return Vec([x] * self.num(n, 50), n + 1)

    def nested(self, f, args):
        self.nest += 1
        try:
            return self.call(f, args)
        except Thrown:
            raise Err      # a throw through the host's frames is outside the domain
        finally:
            self.nest -= 1

    def ncall(self, f, x):
        if not self.quiet:
            self.log.append('[ncall]')
        return self.nested(f, [x])

    def ncall2(self, f, x, y):
        r = self.nested(f, [x, y])
        if not self.quiet:
            self.log.append('[ncall2 %s]' % dump(r))
        return r

    def setreg(self, i, x):
        self.r[self.num(i, NR)] = x
        return x

    def copy(self, v):
        if isinstance(v, tuple):
            xs = []
            while isinstance(v, tuple):
                xs.append(self.copy(v[0]))
                v = v[1]
            return mklist(xs, self.copy(v))
        if isinstance(v, Vec):
            return Vec([self.copy(x) for x in v.xs], len(v.xs))
        return v

    def try1(self, f, x):
        try:
            return (self.sym('ok'), self.call(f, [x]))
        except Thrown as e:
            return (self.sym('caught'), e.v)

    def throw(self, x):
        raise Thrown(x)

    def value(self, s):
        if not isinstance(s, Sym) or s not in self.vals:
            raise Err
        return self.vals[s]

    def setv(self, s, x):
        if not isinstance(s, Sym) or s in (T, F, N) or not (s.name.startswith('g-') or s.name == '#g'):
            raise Err
        self.vals[s] = x
        return x

    def each(self, f, l):
        while isinstance(l, tuple):
            self.call(f, [l[0]])
            l = l[1]
        return 6

    def call(self, f, args):
        self.fuel -= 1
        if not isinstance(f, Fn) or self.fuel < 0:
            raise Err
        if not args:
            if f.n != 0:
                raise Err
            return f.f()
        if f.n == 0:
            raise Err
        args = list(f.got) + list(args)
        if len(args) < f.n:
            return Fn(f.name, f.n, f.f, tuple(args))
        r = f.f(*args[:f.n])
        if size(r) > 2000:
            raise Err
        if len(args) > f.n:
            return self.call(r, args[f.n:])
        return r


class G:
    def __init__(self, t):
        self.t = t
        self.m = M()
        self.ops = []
        self.out = []
        self.kinds = set()
        self.loops = 0

    def pickreg(self, pred):
        c = [i for i in range(NR) if pred(self.m.r[i])]
        return self.t.pick(c) if c else None

    def blob(self, nul=True):
        """-> its text in the script, its bytes"""
        t = self.t
        k = t.below(8)
        n = t.pick([0, 1, 2, 7, 8, 9, 30, 300]) if k < 7 else t.pick([4000, 4090, 5000, 12000])
        c = t.below(256)
        d = t.between(1, 7) if not nul else t.below(7)
        b = bytearray()
        i = 0
        while len(b) < n:
            x = (c + i * d) & 255
            i += 1
            if nul or x:
                b.append(x)
        return '%s~%d %d %d' % (' ' if nul else '0', c, d, n), bytes(b)

    def step(self):
        t, m = self.t, self.m
        k = t.weighted([(3, 'num'), (1, 'const'), (2, 'str'), (1, 'cstr'), (2, 'sym'), (1, 'gensym'), (1, 'bytes'), (3, 'cons'),
                        (2, 'list'), (1, 'range'), (2, 'car'), (2, 'cdr'), (2, 'rev'), (2, 'vec'), (2, 'vset'), (2, 'vref'), (2, 'vapp'), (1, 'same'),
                        (3, 'probe'), (2, 'get'), (2, 'set'), (6, 'fun'), (16, 'call'), (1, 'loop')])
        d = t.below(NR)
        r = m.r
        pre = ''
        blob = None
        args = ()
        any_ = lambda: t.below(NR)  # noqa: E731
        if k == 'num':
            v = t.pick([0, 1, -1, 2, 5, 2 ** 31 - 1, -2 ** 31, t.below(8), t.below(2000), t.below(400), t.below(1 << 32) - (1 << 31)])
            args = (v,)
        elif k == 'const':
            args = (t.below(3),)
            v = (T, F, N)[args[0]]
        elif k in ('str', 'cstr', 'bytes'):
            blob, v = self.blob(k != 'cstr')
        elif k == 'sym':
            n = t.pick(['g-a', 'g-b', 'g-c', 'g-A', 'g-' + 'x' * 300, 'x', 'y', 'true1', 'foo#bar', 'a b', '(', '12', '-', '\xc3\xa9', 'if', 'lambda', 'quote'])
            blob = n.encode('latin-1')
            v = m.sym(n)
        elif k == 'gensym':
            v = Sym('#g')
        elif k == 'cons':
            args = (any_(), any_())
            v = (r[args[0]], r[args[1]])
        elif k == 'list':
            args = tuple(any_() for _ in range(t.between(1, 7)))
            v = mklist([r[i] for i in args])
        elif k == 'range':
            a = t.below(20) - 10
            args = (a, a + t.pick([-1, 0, 5, 200]))
            v = mklist(list(range(a, args[1] + 1)))
        elif k in ('car', 'cdr'):
            i = self.pickreg(lambda x: isinstance(x, tuple))
            if i is None:
                return
            args = (i,)
            v = r[i][k == 'cdr']
        elif k == 'rev':
            i = self.pickreg(self.islist)
            if i is None:
                return
            args = (i,)
            v = mklist(unlist(r[i])[::-1])
        elif k == 'vec':
            n = t.pick([0, 1, 2, 7, 8, 100])
            args = (n, max(1, n + t.below(3)), any_())
            v = Vec([r[args[2]]] * n, args[1])
            if size(v) > 2000:
                return
        elif k == 'vset':
            i = self.pickreg(lambda x: isinstance(x, Vec) and x.xs)
            if i is None:
                return
            d, x = i, any_()
            if reaches(r[x], r[i]) or not self.plain(r[x]):
                return
            j = t.pick([0, len(r[i].xs) - 1, t.below(len(r[i].xs))])
            args = (j, x)
            v = r[i]
            v.xs[j] = r[x]
        elif k == 'vref':
            i = self.pickreg(lambda x: isinstance(x, Vec) and x.xs)
            if i is None:
                return
            j = t.pick([0, len(r[i].xs) - 1, t.below(len(r[i].xs))])
            args = (i, j)
            v = r[i].xs[j]
        elif k == 'vapp':
            i = self.pickreg(lambda x: isinstance(x, Vec) and x.cap > 0)
            if i is None:
                return
            d, x, n = i, any_(), t.pick([1, 1, 2, 3, 9, 40])
            if reaches(r[x], r[i]) or not self.plain(r[x]) or size(r[x]) * n > 1000:
                return
            # after appending only the result may be used: forget other holders
            if any(self.holds(r[j], r[i]) for j in range(NR) if j != i) or any(self.holds(y, r[i]) for y in m.vals.values()) or \
                    any(isinstance(y, Fn) for y in r):
                return
            args = (x, n)
            v = Vec(r[i].xs + [r[x]] * n, r[i].cap)
            while v.cap < len(v.xs):
                v.cap *= 2
        elif k == 'same':
            a, b = any_(), any_()
            x, y = r[a], r[b]
            if isinstance(x, tuple) or isinstance(y, tuple) or isinstance(x, bytes) or isinstance(y, bytes) or isinstance(x, Fn) or isinstance(y, Fn):
                return
            args = (a, b)
            v = r[d]
            pre = 'same ' if x is y or type(x) is int and type(y) is int and x == y else 'differ '
        elif k == 'probe':
            i = any_()
            x = r[i]
            isb = isinstance(x, bytes)
            args = (i, 1 if isb else 0)
            if isinstance(x, int) and not -2 ** 31 <= x < 2 ** 31:
                return
            pre = '%d %d ' % (isinstance(x, int), isinstance(x, Vec))
            if isinstance(x, int):
                pre += '%d ' % x
            if isinstance(x, Vec):
                pre += '%d ' % len(x.xs)
            if isb:
                pre += '%d %s0 ' % (len(x), x.hex())
            v = r[d]
        elif k == 'get':
            i = self.pickreg(lambda x: isinstance(x, Sym) and x in m.vals)
            if i is None:
                return
            args = (i,)
            v = m.vals[r[i]]
        elif k == 'set':
            i = self.pickreg(lambda x: isinstance(x, Sym) and (x.name.startswith('g-') or x.name == '#g'))
            if i is None:
                return
            x = any_()
            if not self.plain(r[x]):
                return
            args = (i, x)
            v = m.vals[r[i]] = r[x]
        elif k == 'fun':
            n = t.pick(sorted(m.F))
            blob = n.encode()
            v = m.F[n]
        elif k in ('call', 'loop'):
            i = self.pickreg(lambda x: isinstance(x, Fn))
            if i is None:
                return
            f = r[i]
            n = t.pick([f.n - len(f.got)] * 4 + [t.between(1, 7)])
            n = min(n, 7)
            if k == 'loop':
                n = 1
            # prefer operands of a fitting kind
            ar = [self.fit(f.name, len(f.got) + j) for j in range(n)]
            save = (list(r), dict(m.vals), len(m.log), m.fuel)
            snap = [(x, list(x.xs)) for x in self.vecs()]
            m.fuel = min(m.fuel, 600)
            try:
                if k == 'loop':
                    if self.loops or f.name not in ('embp#id', 'emb#n1', 'embp#swap', 'embp#k', 'embp#mk-k', 'embp#try1', 'embp#app1', 'emb#ncall', 'embp#map1') \
                            or not self.plain(f) or f.name in ('emb#ncall', 'embp#app1', 'embp#try1', 'embp#map1') and size(r[ar[0]]) > 30:
                        return
                    if f.got and isinstance(f.got[0], Fn) and f.got[0].name not in ('embp#id', 'embp#swap', 'emb#n1', 'embp#mk-k', 'embp#throw1'):
                        return
                    m.quiet = True
                    v = m.call(f, [r[ar[0]]])
                    m.quiet = False
                    times = 1000000 if f.name == 'embp#id' else 30000
                    args = (i, ar[0], times)
                    pre = 'steady '
                    self.loops = 1
                    self.kinds.add('loop ' + f.name)
                else:
                    v = m.call(f, [r[j] for j in ar])
                    args = (i,) + tuple(ar)
                    self.kinds.add('call ' + f.name + ('' if len(f.got) + n == f.n else ' partial' if len(f.got) + n < f.n else ' over'))
            except (Err, Thrown, RecursionError):
                m.quiet = False
                m.r[:], m.vals, m.fuel = save[0], save[1], save[3]
                del m.log[save[2]:]
                for x, xs in snap:
                    x.xs = xs
                return
            m.fuel = save[3] - (600 - max(m.fuel, 0)) // 4
            if m.fuel < 0:
                m.fuel = 0
        if size(v) > 2000:
            if k in ('cons', 'list'):
                return
            if k == 'call':
                m.r[:], m.vals = save[0], save[1]
                del m.log[save[2]:]
                return
        self.kinds.add(k)
        s = '%s %d %s' % (k, d, ' '.join(map(str, args)))
        if blob is not None:
            s += blob if isinstance(blob, str) else " '" + blob.hex() + "'"
        self.ops.append(s)
        self.out += m.log
        m.log = []
        m.r[d] = v
        self.out.append(pre + dump(v))

    def vecs(self):
        seen, st = [], list(self.m.r) + list(self.m.vals.values())
        while st:
            v = st.pop()
            if isinstance(v, tuple):
                st += v
            elif isinstance(v, Vec) and not any(v is x for x in seen):
                seen.append(v)
                st += v.xs
            elif isinstance(v, Fn):
                st += v.got
        return seen

    def holds(self, v, x):
        return reaches(v, x)

    @staticmethod
    def islist(v):
        while isinstance(v, tuple):
            v = v[1]
        return v is N

    @staticmethod
    def plain(v):
        return size(v) <= 800

    def fit(self, name, j):
        t, r = self.t, self.m.r
        want = FIT.get(name, '')[j:j + 1]
        pred = dict(n=lambda x: type(x) is int and 0 <= x < 400, c=lambda x: isinstance(x, tuple), f=lambda x: isinstance(x, Fn),
                    l=self.islist, s=lambda x: isinstance(x, Sym) and x in self.m.vals, y=lambda x: isinstance(x, Sym) and x.name.startswith('g-'),
                    r=lambda x: type(x) is int and 0 <= x < NR).get(want)
        if pred:
            i = self.pickreg(pred)
            if i is not None:
                return i
        return t.below(NR)


FIT = {'emb#sum': 'l', 'emb#fill': 'n', 'emb#ncall': 'f', 'emb#ncall2': 'f', 'emb#nmap': 'fl', 'emb-reg': 'r', 'emb#set-reg': 'r', 'embp#swap': 'c',
       'embp#app1': 'f', 'embp#app3': 'f', 'embp#appl': 'fl', 'embp#churn': 'n', 'embp#deep': 'n', 'embp#try1': 'f', 'embp#tryn': 'n', 'embp#val': 's',
       'embp#setv': 'y', 'embp#map1': 'fl', 'embp#loop5': 'f', 'embp#each': 'fl'}


class C(Check):
    id = 'C27'
    technique = 'random host programs over the embedding interface, against a model of the values, the natives and the functions'
    note = ('Sequences of up to 60 interface calls (all functions of cora.h except coraMustCObj) over eight registers the '
            'collector can see, with natives of 0 to 7 parameters in two ways of registration and 26 program functions called '
            'with too few, enough and too many arguments, natives that call back into programs that call natives, handlers on '
            'either side, churn that makes the collector run (each case also with a collection at every safe point), and loops '
            'of calls whose memory must stay put. Compared: every argument a native sees, every result, and all registers at the '
            'end. Outside the domain: a throw through a host frame, and a native that uses its arguments after calling back.')
    rule = 'A case is a host program. Non-trivial: at least ten operations, two of them calls of functions.'
    quick_n = 8000
    thorough_n = 400000
    quick_time = 35
    batch = 150

    def setup(self, work):
        self.trees = []
        for kind in ('plain', 'stress'):
            tree = Tree(work, kind)
            d = tree.base
            with open(d + '/pre.cora', 'w') as f:
                f.write(PRE)
            rc, out = tree.drive([['embboot'], ['compile', d + '/pre.cora', d + '/pre.c']], timeout=120)
            if rc != 0:
                raise BootCrash('compiling the functions of this check ends with %s: %s' % (rc, out[-1500:]))
            rc, out = tree.gcc(d + '/pre.c', d + '/pre.so')
            if rc != 0:
                raise BootCrash('the C generated from the functions of this check does not compile: %s' % out[-1500:])
            self.trees.append(tree)

    def gen(self, t):
        g = G(t)
        for _ in range(t.between(4, 90)):
            g.step()
            if len(g.ops) >= 60 or len(g.out) > 1500:
                break
        for v in g.m.r:
            g.out.append(dump(v))
        g.out.append('end')
        return dict(src=''.join(o + '\n' for o in g.ops), expect='\n'.join(g.out) + '\n', labels=sorted(g.kinds),
                    n=len(g.ops), calls=sum(o.startswith('call') for o in g.ops))

    def run(self, cases):
        out = [None] * len(cases)
        for mode, tree in enumerate(self.trees):
            d = tempfile.mkdtemp(dir=tree.base, prefix='b')
            try:
                ids = [i for i in range(len(cases)) if out[i] is None and (mode == 0 or 'loop ' not in cases[i]['src'])]
                cmds = [['limit', '20', '60'], ['embboot'], ['loadso', tree.base + '/pre.so']]
                if mode:
                    cmds.append(['gclimit', '1', '0', '1'])
                for i in ids:
                    with open('%s/%d' % (d, i), 'w') as f:
                        f.write(cases[i]['src'])
                    cmds.append(['emb', str(i), '%s/%d' % (d, i)])
                tree.drive(cmds, results=d + '/res', cwd=d)
                r = parse_results(d + '/res')
                for i in ids:
                    st, got = r.get(str(i), ('missing', b''))
                    m = judge(cases[i]['expect'], (st, got.decode('latin-1')))
                    if m is not None and mode:
                        k, _, rest = m.partition(':')
                        m = '%s (collecting all the time):%s' % (k, rest)
                    out[i] = m
            finally:
                build.cleanup(d)
        return out

    def nontrivial(self, c):
        return c['n'] >= 10 and c['calls'] >= 2

    def labels(self, c):
        return c['labels']

    def show(self, c):
        return c['src'] + ';; expect\n' + c['expect']

    def key(self, c):
        return c['src']
