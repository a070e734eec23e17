"""C06: recursion depth is bounded by memory only."""
import re
from pbt import gen
from pbt.core import Discard
from pbt.lang import Sym as S, Prim
from pbt import lang
from pbt.prog import judge
from pbt.progcheck import ProgCheck

RSS = re.compile(r'rss (-?\d+)\n')


class G:
    def __init__(self, t):
        self.t = t
        self.n = 0

    def var(self):
        self.n += 1
        return S('v%d' % self.n)

    def small(self, env):
        t = self.t
        k = t.below(6)
        if k < 3 and env:
            return t.pick(env)
        if k == 4 and env:
            return [S('-'), t.below(9), t.pick(env)]
        if k == 5 and env:
            return [S('if'), [S('<'), t.pick(env), t.below(20)], t.pick(env), t.below(20)]
        return t.below(20)

    def mod(self, e):
        # keep values small without a remainder function
        x = self.var()
        return [S('let'), x, e, [S('if'), [S('<'), x, 1000], [S('if'), [S('>'), x, -1000], x, 7], 3]]

    def rec(self, env):
        """A recursive call."""
        t = self.t
        f, n = t.pick(self.funs)
        args = [[S('-'), S('N'), 1]] + [t.pick(env) if t.bool(3, 4) else self.small(env) for _ in range(n - 1)]
        how = t.weighted([(6, 'direct'), (2, 'split'), (1, 'apply'), (2, 'over'), (1, 'thunk'), (1, 'map'),
                          (self.tryw, 'try'), (1, 'beta')])
        if how == 'direct':
            return [f] + args
        if how == 'split':
            k = t.between(0, n - 1)
            return [[f] + args[:k]] + args[k:]
        if how == 'apply':
            return [S('apply'), f, [S('%list')] + args]
        if how == 'over':
            return [S('@id'), f] + args
        if how == 'thunk':
            return [S('@force'), [S('lambda'), [], [f] + args]]
        if how == 'map':
            x = self.var()
            return [S('car'), [S('map'), [S('lambda'), [x], [f] + args], [S('%list'), 0]]]
        if how == 'beta':
            x = self.var()
            return [[S('lambda'), [x], [S('+'), x, [f] + args]], self.small(env)]
        v, k = self.var(), self.var()
        return [S('try'), [S('lambda'), [], [f] + args],
                [S('lambda'), [v, k], t.pick([[k, v], v, [S('+'), 1, [k, [S('+'), v, 1]]]])]]

    def body(self, env):
        t = self.t
        out = []
        # locals that live across the call
        for _ in range(t.below(3) if t.bool(3, 4) else t.between(3, 14)):
            x = self.var()
            out.append((x, [S('+'), t.below(9), self.small(env)] if t.bool() else self.small(env)))
            env = env + [x]
        how = t.weighted([(4, 'op'), (3, 'let'), (2, 'list'), (2, 'two'), (2, 'call'), (1, 'if')])
        r = self.rec(env)
        if how == 'op':
            e = [S(t.pick('+-')), self.small(env), r] if t.bool() else [S(t.pick('+-')), r, self.small(env)]
        elif how == 'let':
            x = self.var()
            e = [S('let'), x, r, [S('+'), x, [S('-'), self.small(env), self.small(env)]]]
        elif how == 'list':
            x = self.var()
            e = [S('let'), x, [S('%list'), self.small(env), r, t.pick(env)],
                 [S('+'), [S('cadr'), x], [S('-'), [S('car'), x], [S('caddr'), x]]]]
        elif how == 'two':
            e = [S('+'), [S('@id'), self.small(env)], [S('+'), r, [S('@leaf'), t.pick(env), self.small(env)]]]
        elif how == 'if':
            e = [S('if'), [S('<'), r, self.small(env)], self.small(env), t.pick(env)]
        else:
            e = [S('@leaf'), r, t.pick(env)] if t.bool() else [S('@leaf'), t.pick(env), r]
        e = self.mod(e)
        for x, v in reversed(out):
            e = [S('let'), x, v, e]
        return e

    def program(self):
        t = self.t
        self.tryw = t.weighted([(3, 0), (1, 1)])
        depth = t.weighted([(3, 'tiny'), (4, 'mid'), (2, 'deep')])
        depth = {'tiny': t.between(1, 60), 'mid': t.between(60, 1500), 'deep': t.between(1500, 9000)}[depth]
        self.funs = []
        for i in range(t.between(1, 3)):
            n = t.between(1, 4) if t.bool(3, 4) else t.between(5, 30)
            self.funs.append((S('@r%d' % i), n))
        I = S
        defs = [[I('defun'), I('@id'), [I('x')], I('x')],
                [I('defun'), I('@force'), [I('f')], [I('f')]],
                [I('defun'), I('@leaf'), [I('x'), I('y')], self.mod([I('-'), I('x'), I('y')])]]
        bottom = t.weighted([(4, 'value'), (2, 'throw'), (1, 'list')])
        for f, n in self.funs:
            ps = [S('N')] + [self.var() for _ in range(n - 1)]
            b = self.small(ps)
            if bottom == 'throw':
                b = [S('throw'), b]
            defs.append([I('defun'), f, ps, [I('if'), [I('<'), I('N'), 1], b, self.body(ps)]])
        f, n = self.funs[0]
        call = [f, depth] + [t.below(20) for _ in range(n - 1)]
        if bottom == 'throw':
            h = t.pick([S('v'), [S('k'), S('v')], [S('+'), 1, [S('k'), 5]]])
            call = [S('try'), [S('lambda'), [], call], [S('lambda'), [S('v'), S('k')], h]]
        if t.bool(1, 5):
            call = [S('+'), call, call]
        rep = t.between(1, 3)
        defs.append([I('defun'), I('@rep'), [I('n')],
                     [I('if'), [I('<'), I('n'), 1], [],
                      [I('let'), I('x'), call, [I('cons'), I('x'), [I('@rep'), [I('-'), I('n'), 1]]]]]])
        return dict(defs=defs, body=[I('@rep'), rep], depth=depth)


def raw(src, expect):
    return dict(raw=src, expect=expect, stat={'fixed': 1}, steps=1000, depth=10 ** 6, modes=('compiled',))


class C(ProgCheck):
    id = 'C06'
    technique = 'random non-tail recursions of random depth and frame size, against a reference'
    note = ('Mutual recursion of one to three functions with 1 to 30 parameters and up to 14 live '
            'locals per frame, 1 to 9000 levels deep, through operands, lists, apply, partial and '
            'over-applications, map, nested tries, with a throw at the bottom that is resumed, '
            'repeated up to three times; values must equal the reference. Fixed cases go a million '
            'levels deep and repeat deep recursions while resident memory is watched.')
    rule = ('A case is a random recursion; its value is compared with the reference, compiled and '
            'interpreted. Non-trivial: at least 60 levels.')
    quick_n = 1400
    thorough_n = 30000
    batch = 24
    quick_time = 25
    limit = (20, 40)

    def gen(self, t):
        case = G(t).program()
        if sum(gen.cost(x) for x in case['defs'] + [case['body']]) > 1500:
            raise Discard('large')
        out, m = gen.expected(case, fuel=900000, depth=200000)
        case.update(expect=out, stat=m.stat, steps=m.steps)
        return case

    def fixed_cases(self):
        sum_ = '(defun @sum (n) (if (= n 0) 0 (+ n (@sum (- n 1)))))'
        cnt = '(defun @l (n) (if (= n 0) () (cons n (@l (- n 1)))))'
        big = ('(defun @b (n a b c d e f g h i j k l) (if (= n 0) (+ a (+ b (+ c (+ d (+ e (+ f (+ g (+ h '
               '(+ i (+ j (+ k l))))))))))) (let r (@b (- n 1) a b c d e f g h i j k l) '
               '(- (+ r (+ a l)) (+ a l)))))')
        rep = '(defun @rep (n f) (if (= n 0) 0 (do (f) (@rep (- n 1) f))))'
        tr = ('(defun @t (n) (if (= n 0) (throw 1) (+ 1 (@t (- n 1)))))'
              '(defun @u () (try (lambda () (@t 30000)) (lambda (v k) (k v))))')
        nest = '(defun @n (n) (if (= n 0) 0 (+ 1 (try (lambda () (@n (- n 1))) (lambda (v k) v)))))'
        return [
            ('sum-eval', dict(raw(sum_ + '(vt#case %d (lambda () (@sum 60000)))', '=> 1800030000\n'), modes=('eval',))),
            ('sum', raw(sum_ + '(vt#case %d (lambda () (@sum 1000000)))', '=> 500000500000\n')),
            ('list', raw(cnt + '(vt#case %d (lambda () (length (@l 400000))))', '=> 400000\n')),
            ('append', raw(cnt + '(vt#case %d (lambda () (length (append (@l 200000) (list 1)))))', '=> 200001\n')),
            ('map', raw(cnt + '(vt#case %d (lambda () (length (map (lambda (x) x) (@l 300000)))))', '=> 300000\n')),
            ('big', raw(big + '(vt#case %d (lambda () (@b 200000 1 2 3 4 5 6 7 8 9 10 11 12)))', '=> 78\n')),
            ('repeat', raw(sum_ + rep + '(vt#case %d (lambda () (do (@rep 3 (lambda () (@sum 100000))) (do (vt#mark 0)'
                           ' (do (@rep 40 (lambda () (@sum 100000))) (vt#mark 0))))))', 'RSS')),
            ('throw', raw(tr + rep + '(vt#case %d (lambda () (do (@rep 3 @u) (do (vt#mark 0)'
                          ' (do (@rep 25 @u) (do (vt#mark 0) (@u)))))))', '=> 30001\n')),
            ('nest', raw(nest + '(vt#case %d (lambda () (@n 30000)))', '=> 30000\n')),
        ]

    def run(self, cases):
        out = [None] * len(cases)
        f = [i for i, c in enumerate(cases) if 'raw' in c]
        for i in f:
            self.modes = cases[i]['modes']
            out[i] = ProgCheck.run(self, [cases[i]])[0]
        self.modes = ('compiled', 'eval')
        o = [i for i, c in enumerate(cases) if 'raw' not in c]
        for i, r in zip(o, ProgCheck.run(self, [cases[i] for i in o])):
            out[i] = r
        return out

    def source(self, case, idx):
        if 'raw' in case:
            return case['raw'].replace('@', 'k%d-' % idx).replace('%d', str(idx)) + '\n'
        return gen.source(case, idx)

    def judge(self, case, res):
        if 'raw' in case:
            st, got = res
            v = [int(x) for x in RSS.findall(got)]
            if len(v) == 2 and v[1] - v[0] > 20000:
                return 'growth: %d KB' % (v[1] - v[0])
            if case['expect'] == 'RSS':
                return None if st == 'exit:0' and len(v) == 2 else 'crash: %s %r' % (st, got[-200:])
            return judge(case['expect'], (st, RSS.sub('', got)))
        return judge(case['expect'], res)

    def nontrivial(self, c):
        return c['depth'] >= 60

    def labels(self, c):
        return list(c['stat']) + ['depth<%d' % next(x for x in (10, 100, 1000, 10000, 10 ** 9) if c['depth'] < x)]

    def show(self, c):
        return c['raw'] if 'raw' in c else ProgCheck.show(self, c)

    def key(self, c):
        return c['raw'] if 'raw' in c else gen.show_case(c)
