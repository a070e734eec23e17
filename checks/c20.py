"""C20: list and queue functions agree with their models."""
from pbt import sexp
from pbt.core import Discard
from pbt.libcheck import LibCheck
from pbt.lang import Sym

PRE = '''
(defun lq-id (x) x)
(defun lq-pair (x) (list x x))
(defun lq-show (x) (do (vt#emit (list 'f x)) x))
(defun lq-num? (x) (number? x))
(defun lq-const (x) 7)
(defun lq-eq (a b) (= a b))
(defun lq-3 (a b c) (list c b a))
(defun lq-showp (x) (do (vt#emit (list 'p x)) (if (number? x) (> x 2) false)))
(func lq-fun
  [] => lq-id
  'pair => lq-pair
  'show => lq-show
  'const => lq-const
  'num => number?
  'cons => cons?
  'nul => null?
  'rev => (lambda (x) (if (cons? x) (reverse x) x))
  'showp => lq-showp
  ['eq x] => (lq-eq x)
  ['= x] => (= x)
  ['add n] => (lambda (x) (if (number? x) (+ x n) n))
  ['cons x] => (cons x)
  ['three x y] => (lq-3 x y)
  ['isnt x] => (lambda (y) (not (= x y))))
(func lq-fold
  'cons => (lambda (a x) (cons x a))
  'app => append
  'list => (lambda (a x) (list a x))
  'count => (lambda (a x) (+ a 1))
  'show => (lambda (a x) (do (vt#emit (list a x)) x)))
(defun lq-g (v i) (vector-ref v i))
(defun lq-p (v i x) (do (vector-set! v i x) x))
(func lq-op
  v ['lit r x] => (lq-p v r x)
  v ['map r f i] => (lq-p v r (map (lq-fun f) (lq-g v i)))
  v ['filter r f i] => (lq-p v r (filter (lq-fun f) (lq-g v i)))
  v ['append r i j] => (lq-p v r (append (lq-g v i) (lq-g v j)))
  v ['reverse r i] => (lq-p v r (reverse (lq-g v i)))
  v ['length i] => (length (lq-g v i))
  v ['elem x i] => (list (elem? x (lq-g v i)) (cora/lib/sys#member x (lq-g v i)))
  v ['assq x i] => (cora/lib/sys#assq x (lq-g v i))
  v ['foldl f a i] => (cora/lib/sys#foldl (lq-fold f) a (lq-g v i))
  v ['each f i] => (cora/lib/sys#for-each (lq-fun f) (lq-g v i))
  v ['acc 'cadr i] => (cadr (lq-g v i))
  v ['acc 'cddr i] => (cddr (lq-g v i))
  v ['acc 'caddr i] => (caddr (lq-g v i))
  v ['acc 'cdddr i] => (cdddr (lq-g v i))
  v ['acc 'cadddr i] => (cadddr (lq-g v i))
  v ['acc 'caar i] => (caar (lq-g v i))
  v ['acc 'cdar i] => (cdar (lq-g v i))
  v ['kind x] => (list (null? x) (pair? x) (atom? x) (boolean? x) (number? x) (cons? x) (symbol? x) (string? x))
  v ['apply f i] => (apply (lq-fun f) (lq-g v i))
  v ['tset k x] => (do (cora/lib/sys#thread-local-set k x) 0)
  v ['tget k] => (cora/lib/sys#thread-local-get k)
  v ['enq q x] => (do (cora/lib/queue#enqueue (lq-g v q) x) (cora/lib/queue#queue-len (lq-g v q)))
  v ['deq q] => (cora/lib/queue#dequeue (lq-g v q))
  v ['qlen q] => (cora/lib/queue#queue-len (lq-g v q))
  v ['qempty q] => (cora/lib/queue#queue-empty? (lq-g v q))
  v ['qnew q] => (do (vector-set! v q (cora/lib/queue#queue-make)) 0))
(defun lq-run (v ops) (if (null? ops) 0 (do (vt#emit (lq-op v (car ops))) (lq-run v (cdr ops)))))
(defun lq-drain (q) (if (cora/lib/queue#queue-empty? q) () (let x (cora/lib/queue#dequeue q) (cons x (lq-drain q)))))
(defun lq-dump (v i n) (if (= i n) () (cons (vector-ref v i) (lq-dump v (+ i 1) n))))
(defun lq-start (v i) (if (< i 0) v (do (vector-set! v i (if (> i 3) (cora/lib/queue#queue-make) ())) (lq-start v (- i 1)))))
(defun lq-case (ops) (let v (lq-start (vector 6) 5) (do (lq-run v ops) (list (lq-dump v 0 4) (lq-drain (lq-g v 4)) (lq-drain (lq-g v 5))))))
(defun lq-add (a b) (+ a b))
(defun lq-up (n acc) (if (= n 0) acc (lq-up (- n 1) (cons n acc))))
'''
T, F = 'true', 'false'


def isnum(x):
    return isinstance(x, int) and not isinstance(x, bool)


def same(a, b):
    return sexp.canon(a) == sexp.canon(b) and type(a) is type(b)


class G:
    def __init__(self, t):
        self.t = t
        self.v = [[], [], [], []]
        self.q = [[], []]
        self.tls = {}
        self.out = []
        self.ops = []
        self.kinds = set()

    def e(self, s):
        self.out.append(s + '\n')

    def c(self, v):
        self.e(sexp.canon(v))

    def val(self, d=1):
        t = self.t
        k = t.below(8)
        if k < 3:
            return t.between(-2, 6)
        if k == 3:
            return t.pick([Sym('a'), Sym('b'), b'', b'a', True, False, []])
        if k == 4:
            return t.pick(t.pick(self.v) or [0])
        if k == 5:
            return t.int()
        if d == 0:
            return Sym('z')
        return [self.val(0) for _ in range(t.below(4))]

    def txt(self, v):
        return sexp.write(self.t, v)

    def fun(self):
        """-> (text, python function)"""
        t = self.t
        k = t.below(15)
        if k == 0:
            return '()', lambda x: x
        if k == 1:
            return 'pair', lambda x: [x, x]
        if k in (2, 3):
            def show(x):
                self.e('(f %s)' % sexp.canon(x))
                return x
            return 'show', show
        if k == 4:
            return 'const', lambda x: 7
        if k == 5:
            return 'num', isnum
        if k == 6:
            return 'cons', lambda x: isinstance(x, list) and len(x) > 0
        if k == 7:
            return 'nul', lambda x: x == [] and isinstance(x, list)
        if k == 8:
            return 'rev', lambda x: x[::-1] if isinstance(x, list) else x
        if k == 9:
            def showp(x):
                self.e('(p %s)' % sexp.canon(x))
                return isnum(x) and x > 2
            return 'showp', showp
        x = self.val()
        if k == 10:
            return '(eq %s)' % self.txt(x), lambda y: same(x, y)
        if k == 11:
            return '(= %s)' % self.txt(x), lambda y: same(x, y)
        if k == 12:
            n = t.below(10)
            return '(add %d)' % n, lambda y: y + n if isnum(y) else n
        if k == 13:
            y = self.val()
            return '(three %s %s)' % (self.txt(x), self.txt(y)), lambda z: [z, y, x]
        return '(isnt %s)' % self.txt(x), lambda y: not same(x, y)

    def put(self, r, x):
        if len(x) > 300 or len(sexp.canon(x)) > 3000:
            raise Discard
        self.v[r] = x
        self.c(x)

    def step(self):
        t = self.t
        k = t.weighted([(5, 'lit'), (5, 'map'), (5, 'filter'), (5, 'append'), (2, 'reverse'), (1, 'length'), (3, 'elem'), (3, 'assq'),
                        (3, 'foldl'), (2, 'each'), (2, 'acc'), (1, 'kind'), (2, 'apply'), (2, 'tset'), (2, 'tget'),
                        (8, 'enq'), (6, 'deq'), (1, 'qlen'), (1, 'qempty'), (1, 'qnew')])
        r, i, j = t.below(4), t.below(4), t.below(4)
        a, b = self.v[i], self.v[j]
        n = t.below(2)
        if k == 'lit':
            if t.bool(1, 4):
                x = [[self.val(0)] + [self.val(0) for _ in range(t.below(3))] for _ in range(t.below(6))]
            else:
                x = [self.val() for _ in range(t.size(12))]
            op = '(lit %d %s)' % (r, self.txt(x))
            self.put(r, x)
        elif k == 'map':
            f, g = self.fun()
            op = '(map %d %s %d)' % (r, f, i)
            self.put(r, [g(x) for x in a])
        elif k == 'filter':
            f, g = self.fun()
            op = '(filter %d %s %d)' % (r, f, i)
            self.put(r, [x for x in a if g(x) is True])
        elif k == 'append':
            op = '(append %d %d %d)' % (r, i, j)
            self.put(r, a + b)
        elif k == 'reverse':
            op = '(reverse %d %d)' % (r, i)
            self.put(r, a[::-1])
        elif k == 'length':
            op = '(length %d)' % i
            self.e(str(len(a)))
        elif k == 'elem':
            x = t.pick(a) if a and t.bool() else self.val()
            op = '(elem %s %d)' % (self.txt(x), i)
            r = T if any(same(x, y) for y in a) else F
            self.e('(%s %s)' % (r, r))
        elif k == 'assq':
            al = [i for i in range(4) if all(isinstance(x, list) and x for x in self.v[i])]
            if not al:
                return
            i = t.pick(al)
            a = self.v[i]
            x = t.pick(a)[0] if a and t.bool() else self.val()
            op = '(assq %s %d)' % (self.txt(x), i)
            self.c(next((y for y in a if same(y[0], x)), []))
        elif k == 'foldl':
            f = t.pick(['cons', 'app', 'list', 'count', 'show'])
            acc = 0 if f == 'count' else [] if f in ('cons', 'app') else self.val()
            if f == 'app' and not all(isinstance(x, list) for x in a):
                return
            if f == 'list' and len(a) > 40:
                return
            op = '(foldl %s %s %d)' % (f, self.txt(acc), i)
            for x in a:
                if f == 'cons':
                    acc = [x] + acc
                elif f == 'app':
                    acc = acc + x
                elif f == 'list':
                    acc = [acc, x]
                elif f == 'count':
                    acc += 1
                else:
                    self.e('(%s %s)' % (sexp.canon(acc), sexp.canon(x)))
                    acc = x
            self.c(acc)
        elif k == 'each':
            op = '(each show %d)' % i
            for x in a:
                self.e('(f %s)' % sexp.canon(x))
            self.e('()')
        elif k == 'acc':
            f = t.pick(['cadr', 'cddr', 'caddr', 'cdddr', 'cadddr', 'caar', 'cdar'])
            need = {'cadr': 2, 'cddr': 2, 'caddr': 3, 'cdddr': 3, 'cadddr': 4, 'caar': 1, 'cdar': 1}[f]
            if len(a) < need or (f in ('caar', 'cdar') and not (isinstance(a[0], list) and a[0])):
                return
            op = '(acc %s %d)' % (f, i)
            self.c({'cadr': lambda: a[1], 'cddr': lambda: a[2:], 'caddr': lambda: a[2], 'cdddr': lambda: a[3:],
                    'cadddr': lambda: a[3], 'caar': lambda: a[0][0], 'cdar': lambda: a[0][1:]}[f]())
        elif k == 'kind':
            x = self.val()
            op = '(kind %s)' % self.txt(x)
            pr = isinstance(x, list) and len(x) > 0
            z = [x == [] and isinstance(x, list), pr, not pr, isinstance(x, bool), isnum(x), pr, isinstance(x, Sym), isinstance(x, bytes)]
            self.e('(%s)' % ' '.join(T if y else F for y in z))
        elif k == 'apply':
            if len(a) != 1:
                return
            f, g = self.fun()
            op = '(apply %s %d)' % (f, i)
            self.c(g(a[0]))
        elif k == 'tset':
            x, y = self.val(), self.val()
            op = '(tset %s %s)' % (self.txt(x), self.txt(y))
            self.tls[sexp.canon(x)] = (x, y)
            self.e('0')
        elif k == 'tget':
            if not self.tls:
                return
            x, y = self.tls[t.pick(sorted(self.tls))]
            op = '(tget %s)' % self.txt(x)
            self.c(y)
        elif k == 'enq':
            x = self.val()
            op = '(enq %d %s)' % (n + 4, self.txt(x))
            self.q[n].append(x)
            self.e(str(len(self.q[n])))
        elif k == 'deq':
            if not self.q[n]:
                return
            op = '(deq %d)' % (n + 4)
            self.c(self.q[n].pop(0))
        elif k == 'qlen':
            op = '(qlen %d)' % (n + 4)
            self.e(str(len(self.q[n])))
        elif k == 'qempty':
            op = '(qempty %d)' % (n + 4)
            self.e(F if self.q[n] else T)
        else:
            op = '(qnew %d)' % (n + 4)
            self.q[n] = []
            self.e('0')
        self.kinds.add(k)
        self.ops.append(op)


class C(LibCheck):
    id = 'C20'
    technique = 'random sequences of list and queue operations over registers, against models on sequences'
    note = ('Sequences of up to 50 operations over four list registers and two queues: map, filter, append, reverse, length, '
            'elem?, member, assq, foldl, for-each, apply, the accessors, the type predicates, thread-local-set and -get, with '
            'functions that report their calls, partial applications, primitives and closures; enqueue, dequeue, queue-len, '
            'queue-empty?. Every result, every call of a passed function in order, and at the end all registers and the '
            'remaining queue contents are compared. Removing from an empty queue is outside the domain. Lists of 200,000 '
            'elements as fixed cases.')
    rule = 'A case is an operation sequence. Non-trivial: at least ten operations of five kinds.'
    libs = ('queue',)
    imports = ('sys', 'queue')
    pre = PRE
    fast = True
    quick_n = 16000
    thorough_n = 800000
    quick_time = 30

    def gen(self, t):
        g = G(t)
        for _ in range(t.between(1, 50)):
            g.step()
        src = "(vt#case CASE_ID (lambda () (lq-case '(%s\n))))\n" % '\n '.join(g.ops)
        exp = ''.join(g.out) + '=> (%s %s %s)\n' % (sexp.canon(g.v), sexp.canon(g.q[0]), sexp.canon(g.q[1]))
        return dict(src=src, expect=exp, labels=sorted(g.kinds), nt=len(g.ops) >= 10 and len(g.kinds) >= 5)

    def fixed_cases(self):
        n = 200000
        out = []
        for name, e, want in (
                ('map', "(length (map (lq-fun '(add 1)) (lq-up %d ())))" % n, n),
                ('filter', "(length (filter (lq-fun '(isnt 5)) (lq-up %d ())))" % n, n - 1),
                ('append', '(length (append (lq-up %d ()) (lq-up %d ())))' % (n, n), 2 * n),
                ('reverse', '(car (reverse (lq-up %d ())))' % n, n),
                ('elem', '(if (elem? %d (lq-up %d ())) 1 0)' % (n, n), 1),
                ('foldl', '(cora/lib/sys#foldl lq-add 0 (lq-up %d ()))' % n, n * (n + 1) // 2)):
            out.append(('long ' + name, dict(src='(vt#case CASE_ID (lambda () %s))\n' % e, expect='=> %d\n' % want,
                                             labels=['long'], nt=True, compiled=True)))
        return out

    def nontrivial(self, c):
        return c['nt']
