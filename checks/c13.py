"""C13: a program that keeps a bounded amount of data runs in bounded memory."""
import re
from pbt.progcheck import ProgCheck

RSS = re.compile(r'rss (-?\d+)\n')

PRE = '''
(defun @mk (k i) (if (= k 0) () (cons i (@mk (- k 1) (+ i 1)))))
(defun @mod (n k) (- n (* k (/ n k))))
(defun @str (k s) (if (= k 0) s (@str (- k 1) (string-append s s))))
(defun @f3 (a b c) (cons a (cons b (cons c ()))))
(defun @id (x) x)
(defun @sum (l) (if (cons? l) (+ (car l) (@sum (cdr l))) 0))
(defun @thr (d n) (if (= d 0) (throw n) (+ 1 (@thr (- d 1) n))))
(defun @fill (v i x) (if (< i 0) v (do (vector-set! v i x) (@fill v (- i 1) x))))
(defun @fillc (v i) (if (< i 0) v (do (let g (gensym) (do (set g 0) (vector-set! v i g))) (@fillc v (- i 1)))))
(defun @filli (v i) (if (< i 0) v (do (vector-set! v i (@fill (vector 4) 3 0)) (@filli v (- i 1)))))
(def @v (@fill (vector 16) 15 0))
(def @c (@fillc (vector 4) 3))
(def @in (@filli (vector 8) 7))
(def @w (@fill (vector 4) 3 @id))
(def @len 0)
(def @log ())
(def @h (cora/lib/hash#hash-make 7))
(def @q (cora/lib/queue#queue-make))
(defun @put (x m) (do (if (> (value '@len) m) (do (set '@len 0) (set '@log ())) 0)
   (do (set '@len (+ 1 (value '@len))) (set '@log (cons x (value '@log))))))
(defun @twice (g) (do (g) (g)))
'''


class G:
    def __init__(self, t):
        self.t = t
        self.us = 1.0       # rough cost of an iteration
        self.kinds = set()
        self.log = 0

    def value(self, d=1):
        """A new value of bounded size that holds nothing stored before."""
        t = self.t
        k = t.weighted([(4, 'list'), (2, 'cons'), (3, 'string'), (2, 'bigstring'), (2, 'vector'),
                        (3, 'large'), (2, 'mixed'), (2, 'closure'), (2, 'partial'), (1, 'gensym'),
                        (1, 'bytes'), (2, 'throw'), (2, 'resume'), (1, 'deepthrow'), (2, 'kont'),
                        (1, 'map'), (1, 'append'), (1, 'reverse'), (1, 'deep'), (1, 'nest'), (1, 'num')])
        self.kinds.add(k)
        if k == 'list':
            n = t.pick([1, 3, 10, 40])
            self.us += n * .08
            return '(@mk %d n)' % n
        if k == 'cons':
            return '(cons n n)'
        if k == 'string':
            return '(string-append "%s" "%s")' % ('a' * t.below(60), 'b' * t.below(60))
        if k == 'bigstring':
            e = t.between(4, 11)
            self.us += (2 ** e) * .02
            return '(@str %d "abcdefg")' % e
        if k == 'vector':
            n = t.pick([1, 4, 30, 100, 400])
            self.us += n * .01
            return '(@fill (vector %d) 0 n)' % n
        if k == 'large':
            n = t.pick([500, 513, 900, 2000, 6000])
            self.us += n * .01
            return '(@fill (vector %d) 3 n)' % n
        if k == 'mixed':
            a, b, m = t.pick([100, 400, 700]), t.pick([1, 60, 300, 511]), t.pick([2, 3, 7, 20])
            self.us += (a + b * m) * .01
            return '(@fill (vector (+ %d (* %d (@mod n %d)))) 0 n)' % (a, b, m)
        if k == 'closure':
            return '(lambda (x) (+ x n))'
        if k == 'partial':
            return t.pick(['(@f3 n n)', '(@f3 n)', '((@f3 n) n)', '(apply @f3 (cons n ()))'])
        if k == 'gensym':
            return '(let g (gensym) (do (set g n) g))'
        if k == 'bytes':
            return '(bytes %d)' % t.pick([1, 100, 3000, 5000])
        if k == 'throw':
            self.us += .5
            return '(try (lambda () (+ 1 (throw n))) (lambda (v k) v))'
        if k == 'resume':
            self.us += .5
            return '(try (lambda () (+ (throw n) (throw 1))) (lambda (v k) (k v)))'
        if k == 'deepthrow':
            n = t.pick([20, 100, 400])
            self.us += n * .06
            return '(try (lambda () (@thr %d n)) (lambda (v k) %s))' % (n, t.pick(['v', '(k v)']))
        if k == 'kont':
            self.us += 1
            return '(try (lambda () (+ 1 (throw n))) (lambda (v k) k))'
        if k == 'map':
            self.us += 2
            return '(map (lambda (x) (+ x n)) (@mk 10 n))'
        if k == 'append':
            self.us += 2
            return '(append (@mk 8 n) (@mk 5 n))'
        if k == 'reverse':
            self.us += 2
            return '(reverse (@mk 12 n))'
        if k == 'deep':
            n = t.pick([100, 700, 3000])
            self.us += n * .15
            return '(@sum (@mk %d 1))' % n
        if k == 'nest' and d > 0:
            return '(cons %s (cons %s ()))' % (self.value(d - 1), self.value(d - 1))
        return 'n'

    def op(self):
        t = self.t
        k = t.weighted([(5, 'slot'), (2, 'cell'), (2, 'inner'), (2, 'newinner'), (2, 'global'),
                        (2, 'log'), (2, 'hash'), (1, 'hashdel'), (2, 'queue'), (2, 'drop'), (1, 'call'),
                        (1, 'apply'), (1, 'slotmod')])
        self.kinds.add('to ' + k)
        self.us += .2
        v = self.value()
        i = t.below(16)
        if k == 'slot':
            return '(vector-set! @v %d %s)' % (i, v)
        if k == 'slotmod':
            return '(vector-set! @v (@mod n %d) %s)' % (i + 1, v)
        if k == 'cell':
            return '(set (vector-ref @c %d) %s)' % (i % 4, v)
        if k == 'inner':
            return '(vector-set! (vector-ref @in %d) %d %s)' % (i % 8, i % 4, v)
        if k == 'newinner':
            return '(vector-set! @in %d (@fill (vector 4) 3 %s))' % (i % 8, v)
        if k == 'global':
            return "(set '@g %s)" % v
        if k == 'log':
            m = t.pick([3, 20, 80, 300])
            self.log = max(self.log, m)
            return '(@put %s %d)' % (v, m)
        if k == 'hash':
            self.us += 5
            return '(cora/lib/hash#hash-set! @h (@mod n %d) %s)' % (i + 1, v)
        if k == 'hashdel':
            self.us += 8
            return '(do (cora/lib/hash#hash-set! @h (@mod n %d) %s) (cora/lib/hash#hash-del! @h (@mod n %d)))' % (i + 1, v, i // 2 + 1)
        if k == 'queue':
            self.us += 3
            return '(do (cora/lib/queue#enqueue @q %s) (if (> (cora/lib/queue#queue-len @q) %d) (cora/lib/queue#dequeue @q) 0))' % (v, i)
        if k == 'call':
            return '(vector-set! @v %d (((lambda (x) (lambda (y) (cons x y))) %s) n))' % (i, v)
        if k == 'apply':
            return '(vector-set! @v %d (apply @f3 (cons n (cons %s (cons n ())))))' % (i, v)
        return '(@id %s)' % v

    def program(self):
        t = self.t
        steps = [self.op() for _ in range(t.between(1, 6))]
        body, defs = '0', []
        for j, s in enumerate(steps):
            defs.append('(defun @s%d (n) %s)' % (j, s))
            body = '(do (@s%d n) %s)' % (j, body)
        return dict(steps=steps, defs='\n'.join(defs) + '\n(defun @step (n) %s)\n' % body,
                    us=self.us, log=self.log, kinds=sorted(self.kinds))


LOOP = '''
(defun @loop (n) (if (= n 0) (vt#mark 0) (do (if (= n %d) (vt#mark 0) (if (= n %d) (vt#mark 0) 0)) (do (@step n) (@loop (- n 1))))))
(vt#case %d (lambda () (@loop %d)))
'''


class C(ProgCheck):
    id = 'C13'
    technique = 'random steady-state allocation loops, whose resident memory is compared between half time and the end'
    note = ('Loops that keep a bounded amount of data (slots, cells, globals, hash table, queue, log) and '
            'allocate pairs, closures, partial applications, strings and vectors of all sizes, '
            'continuations resumed, stored or abandoned, deep recursions. Resident memory may grow by at '
            'most 600 KB + 1/4 in the second half of the iterations, in which most loops allocate at '
            'least 100 MB.')
    rule = ('A case is a random loop body of one to six allocating steps, each stored in a place of bounded '
            'size; it runs compiled for about a second, an eighth of the cases also interpreted. '
            'Non-trivial: the loop ran to its end and has at least 1000 iterations.')
    quick_n = 700
    thorough_n = 20000
    batch = 6
    quick_time = 35
    limit = (20, 60)
    pre = '(import "cora/lib/hash")\n(import "cora/lib/queue")\n'

    def setup(self, work):
        from pbt.build import Tree
        from pbt.prog import Runner
        self.tree = Tree(work, 'plain', libs=('eval', 'peval', 'sys', 'queue', 'hash'))
        self.runner = Runner(self.tree)

    def gen(self, t):
        c = G(t).program()
        c['both'] = t.bool(1, 8) and not {'deep', 'deepthrow', 'bigstring'} & set(c['kinds']) and c['log'] <= 20
        return c

    def n(self, c, mode):
        us = c['us'] * (1 if mode == 'compiled' else 300)
        return int(min(400000, max(400, 20 * c['log'], (1e6 if self.tier == 'thorough' else 5e5) / us)))

    def run(self, cases):
        out = [None] * len(cases)
        for mode in self.modes:
            ids = [i for i, r in enumerate(out) if r is None and (mode == 'compiled' or cases[i]['both'])]

            def src(i, j):
                c = cases[ids[i]]
                n = self.n(c, mode)
                p = PRE + c['defs'] + LOOP % (n * 3 // 4, n // 2, j, n)
                return p.replace('@', 'k%d-' % j)
            r = self.runner.run(src, len(ids), mode=mode, limit=self.limit, pre=self.pre)
            for i, (st, got) in zip(ids, r):
                n = self.n(cases[i], mode)
                if st == 'bad':
                    out[i] = got
                    continue
                if st.startswith('timeout'):
                    cases[i]['end'] = 'timeout'
                    continue        # slow, not growing: nothing is claimed
                if st != 'exit:0':
                    out[i] = 'crash (%s): %s after %r' % (mode, st, got[-200:])
                    continue
                v = [int(x) for x in RSS.findall(got)]
                cases[i]['end'] = '%d iterations, KB %s' % (n, v)
                if len(v) != 3:
                    out[i] = 'wrong (%s): the loop did not run to its end: %r' % (mode, got[-200:])
                elif v[2] - v[1] > 600 + v[1] // 4:
                    out[i] = 'growth (%s): %s KB at 1/4, 1/2, 1 of %d iterations' % (mode, v, n)
        return out

    def nontrivial(self, c):
        return c.get('end', '').split(' ')[0].isdigit() and self.n(c, 'compiled') >= 1000

    def labels(self, c):
        return c['kinds'] + (['timeout'] if c.get('end') == 'timeout' else [])

    def show(self, c):
        return c['defs'] + ';; ' + c.get('end', '')

    def key(self, c):
        return c['defs']
