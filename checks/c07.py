"""C07: throw and resume are delimited continuations."""
from pbt import gen
from pbt.core import Discard
from pbt.lang import Sym as S
from pbt.progcheck import ProgCheck


def begin(xs):
    return [S('begin')] + xs if len(xs) > 1 else xs[0]


class G:
    """Coroutines under a random schedule."""

    def __init__(self, t):
        self.t = t
        self.n = 0
        self.defs = []
        self.helpers = []
        self.budget = 40

    def var(self):
        self.n += 1
        return S('v%d' % self.n)

    def int(self, env, d):
        """An integer expression; may throw to the enclosing try."""
        t = self.t
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return t.pick(env) if env and t.bool(2, 3) else t.below(30)
        k = t.weighted([(2, 'leaf'), (6, 'throw'), (3, 'op'), (3, 'emit'), (3, 'let'), (2, 'seq'),
                        (2, 'if'), (2, 'map'), (3, 'try'), (2, 'app'), (2, 'part'), (1, 'over'),
                        (2, 'vec'), (4 if self.helpers else 0, 'help'), (1, 'apply'), (1, 'clo')])
        e = lambda d2=d - 1: self.int(env, d2)
        if k == 'leaf':
            return t.pick(env) if env and t.bool(2, 3) else t.below(30)
        if k == 'throw':
            return [S('throw'), e()]
        if k == 'op':
            return [S(t.pick('+-')), e(), e()]
        if k == 'emit':
            return [S('vt#emit'), e()]
        if k == 'let':
            x = self.var()
            return [S('let'), x, e(), self.int(env + [x], d - 1)]
        if k == 'seq':
            return [S('do'), e(), e()]
        if k == 'if':
            return [S('if'), [S(t.pick('<>')), e(), t.below(30)], e(d - 2), e(d - 2)]
        if k == 'map':
            x = self.var()
            l = [S('map'), [S('lambda'), [x], self.int(env + [x], d - 1)],
                 [S('%list')] + [t.below(9) for _ in range(t.between(1, 4))]]
            return self.sum(l)
        if k == 'try':
            return self.trial(env, d)
        if k == 'app':
            xs = [self.var() for _ in range(t.between(1, 3))]
            return [[S('lambda'), xs, self.int(env + xs, d - 1)]] + [e(d - 2) for _ in xs]
        if k == 'part':
            xs = [self.var() for _ in range(3)]
            f = [S('lambda'), xs, self.int(env + xs, d - 1)]
            return [[f, e(d - 2)], e(d - 2), e(d - 2)]
        if k == 'over':
            x, y = self.var(), self.var()
            return [[S('lambda'), [x], [S('do'), self.int(env + [x], d - 2),
                                        [S('lambda'), [y], self.int(env + [x, y], d - 1)]]],
                    e(d - 2), e(d - 2)]
        if k == 'apply':
            x = self.var()
            return [S('apply'), [S('lambda'), [x], self.int(env + [x], d - 1)], [S('%list'), e()]]
        if k == 'vec':
            v, x = self.var(), self.var()
            return [S('let'), v, [S('vector'), 2],
                    begin([[S('vector-set!'), v, 0, e()], [S('vector-set!'), v, 1, e(d - 2)],
                           [S('+'), [S('vector-ref'), v, 0], [S('vector-ref'), v, 1]]])]
        if k == 'clo':
            f, x = self.var(), self.var()
            return [S('let'), f, [S('lambda'), [x], self.int(env + [x], d - 1)],
                    [S('+'), [f, e(d - 2)], [f, t.below(5)]]]
        n, h = t.pick(self.helpers)
        return [h, t.pick([0, 1, 3, 10, 40, 120])] + [e(d - 2) for _ in range(n - 1)]

    def sum(self, l):
        return [S('@sum'), l]

    def trial(self, env, d):
        t = self.t
        v, k = self.var(), self.var()
        h = self.handler(env, v, k, d - 1)
        return [S('try'), [S('lambda'), [], self.int(env, d - 1)], [S('lambda'), [v, k], h]]

    def handler(self, env, v, k, d):
        """Resumes k at most once; integer result."""
        t = self.t
        e2 = env + [v]
        how = t.weighted([(4, 'resume'), (3, 'drop'), (3, 'wrap'), (2, 'if'), (2, 'rethrow'),
                          (2, 'intry'), (1, 'deep')])
        if how == 'resume':
            return [k, self.int(e2, d - 1)]
        if how == 'drop':
            return self.int(e2, d)
        if how == 'wrap':
            r = self.var()
            return [S('let'), r, [k, self.int(e2, d - 1)], self.int(e2 + [r], d - 1)]
        if how == 'if':
            return [S('if'), [S('<'), v, t.below(40)], [k, self.int(e2, d - 2)], self.int(e2, d - 2)]
        if how == 'rethrow':
            return [k, [S('throw'), v]]
        if how == 'deep':
            return [S('@down'), t.pick([1, 5, 30]), [S('lambda'), [], [k, self.int(e2, d - 2)]]]
        w, j = self.var(), self.var()
        return [S('try'), [S('lambda'), [], [k, self.int(e2, d - 1)]],
                [S('lambda'), [w, j], self.int(e2 + [w], d - 1)]]

    def helper(self):
        """Recursion that may throw at any level."""
        t = self.t
        nm = S('@h%d' % len(self.helpers))
        n = t.between(1, 4)
        ps = [self.var() for _ in range(n)]
        self.budget = 12
        r = self.var()
        body = [S('if'), [S('<'), ps[0], 1], self.int(ps[1:], 2),
                [S('let'), r, [nm, [S('-'), ps[0], 1]] + [t.pick(ps) for _ in ps[1:]],
                 t.pick([r, [S('+'), r, 1], [S('+'), self.int(ps[1:], 1), r]])]]
        self.defs.append([S('defun'), nm, ps, body])
        self.helpers.append((n, nm))

    def program(self):
        t = self.t
        self.defs.append([S('defun'), S('@suma'), [S('a'), S('l')],
                          [S('if'), [S('cons?'), S('l')],
                           [S('@suma'), [S('+'), S('a'), [S('car'), S('l')]], [S('cdr'), S('l')]], S('a')]])
        self.defs.append([S('defun'), S('@sum'), [S('l')], [S('@suma'), 0, S('l')]])
        self.defs.append([S('defun'), S('@down'), [S('n'), S('f')],
                          [S('if'), [S('<'), S('n'), 1], [S('f')],
                           [S('let'), S('r'), [S('@down'), [S('-'), S('n'), 1], S('f')], S('r')]]])
        self.defs.append([S('defun'), S('@churn'), [S('n'), S('l')],
                          [S('if'), [S('<'), S('n'), 1], [S('length'), S('l')],
                           [S('@churn'), [S('-'), S('n'), 1], [S('%list'), S('n'), S('n'), S('n')]]]])
        for _ in range(t.below(3)):
            self.helper()
        nc = t.between(1, 3)
        for i in range(nc):
            self.budget = 30
            x = self.var()
            self.defs.append([S('defun'), S('@c%d' % i), [x],
                              begin([self.int([x], 4) for _ in range(t.between(1, 2))])])
            v, k = self.var(), self.var()
            how = t.weighted([(6, 'yield'), (2, 'auto')])
            pair = [S('%list'), v, k]
            h = pair if how == 'yield' else [S('if'), [S('<'), v, 15], [k, [S('+'), v, 1]], pair]
            self.defs.append([S('defun'), S('@s%d' % i), [S('x')],
                              [S('try'), [S('lambda'), [], [S('@c%d' % i), S('x')]],
                               [S('lambda'), [v, k], h]]])
        self.defs.append([S('defun'), S('@see'), [S('s')],
                          [S('if'), [S('cons?'), S('s')], [S('vt#emit'), [S('car'), S('s')]],
                           [S('vt#emit'), [S('%list'), S('s')]]]])
        self.defs.append([S('defun'), S('@next'), [S('s'), S('x')],
                          [S('if'), [S('cons?'), S('s')], [[S('cadr'), S('s')], S('x')], S('s')]])
        ops = []
        V = S('V')
        for _ in range(t.between(2, 10)):
            i = t.below(nc)
            k = t.weighted([(3, 'start'), (7, 'resume')])
            if k == 'start':
                e = [S('@s%d' % i), t.below(30)]
            else:
                e = [S('@next'), [S('vector-ref'), V, i], t.below(30)]
            w = t.weighted([(6, 'plain'), (2, 'deep'), (2, 'try'), (1, 'churn'), (1, 'lam')])
            if w == 'deep':
                e = [S('@down'), t.pick([1, 4, 20, 60, 200]), [S('lambda'), [], e]]
            elif w == 'try':
                e = [S('try'), [S('lambda'), [], e], [S('lambda'), [S('v'), S('k')],
                                                     [S('do'), [S('vt#emit'), 'outer'.encode()], S('v')]]]
            elif w == 'lam':
                e = [[S('lambda'), [S('a'), S('b')], S('b')], 0, e]
            ops.append([S('vector-set!'), V, i, e])
            if w == 'churn':
                ops.append([S('@churn'), 300, []])
            ops.append([S('@see'), [S('vector-ref'), V, i]])
        self.defs.append([S('defun'), S('@main'), [V], begin(ops + [0])])
        init = [[S('vector-set!'), S('v'), i, 0] for i in range(nc)]
        self.defs.append([S('defun'), S('@top'), [],
                          [S('let'), S('v'), [S('vector'), nc], begin(init + [[S('@main'), S('v')]])]])
        v, k = self.var(), self.var()
        return dict(defs=self.defs, body=[S('try'), [S('lambda'), [], [S('@top')]],
                                          [S('lambda'), [v, k], [S('+'), 1000, v]]])


class C(ProgCheck):
    id = 'C07'
    technique = 'random programs with throw/resume and coroutine schedules, against a reference'
    note = ('Coroutines made of try and throw (throwing from operands, deep recursion, map, partial '
            'and over-applications, nested tries whose handlers resume, drop, wrap, rethrow or resume '
            'inside another try) are started and resumed in random orders and contexts; plus typed '
            'programs with tries. Effects and values, compiled and interpreted, must equal the '
            'reference. A continuation is resumed at most once: twice is outside the language.')
    rule = ('A case is a random program with tries, throws and resumptions; its effect log is compared '
            'with the reference, compiled and interpreted. Non-trivial: at least one throw is caught.')
    quick_n = 2600
    thorough_n = 60000
    batch = 26
    quick_time = 55

    def gen(self, t):
        if t.bool(1, 4):
            c = gen.program(t, depth=t.between(3, 4), fns=t.between(1, 4), maxcost=1200, tries=14,
                            match=1, cond=1)
            c['stat'] = dict(c['stat'], typed=1)
            return c
        case = G(t).program()
        if sum(gen.cost(x) for x in case['defs'] + [case['body']]) > 1800:
            raise Discard('large')
        if sum(gen.pcost(x) for x in case['defs'] + [case['body']]) > 3000:
            raise Discard('slow')
        out, m = gen.expected(case)
        case.update(expect=out, stat=m.stat, steps=m.steps)
        return case

    def nontrivial(self, c):
        return bool(c['stat'].get('throw'))
