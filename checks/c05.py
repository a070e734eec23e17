"""C05: tail calls run in constant space."""
import re
from pbt import gen
from pbt.core import Discard
from pbt.lang import Sym as S, Machine, Bad, show
from pbt.progcheck import ProgCheck

RSS = re.compile(r'rss (-?\d+)\n')


class G:
    def __init__(self, t):
        self.t = t
        self.n = 0

    def var(self):
        self.n += 1
        return S('v%d' % self.n)

    def small(self, env):
        t = self.t
        k = t.below(5)
        if k < 3:
            return t.pick(env)
        if k == 3:
            return t.below(9)
        return [S('-'), t.pick(env), t.pick(env)]

    def tail(self, d, env):
        t = self.t
        k = t.weighted([(5, 'call')] + ([(3, 'if'), (2, 'cond'), (2, 'match'), (3, 'let'), (2, 'begin'),
                                         (2, 'beta'), (2, 'clo'), (2, 'thunk'),
                                         (1, 'resume')] if d > 0 else []))
        if k == 'call':
            return self.call(env)
        r = lambda e=env: self.tail(d - 1, e)
        test = [S(t.pick('<>')), self.small(env), self.small(env)]
        if k == 'if':
            return [S('if'), test, r(), r()]
        if k == 'cond':
            return [S('cond'), [test, r()], [[S('='), self.small(env), 3], r()], [True, r()]]
        if k == 'match':
            x, y = self.var(), self.var()
            return [S('match'), [S('%list'), self.small(env), self.small(env)],
                    [S('%list'), t.below(3), x], r(env + [x]),
                    [S('cons'), x, S('_')], r(env + [x]),
                    S('_'), r()]
        if k == 'let':
            x = self.var()
            v = self.small(env)
            if t.bool(1, 3):
                v = [S('length'), [S('%list'), 1, self.small(env)]]
            return [S('let'), x, v, r(env + [x])]
        if k == 'begin':
            return [S('begin'), [S('@keep'), self.small(env)], r()]
        if k == 'beta':
            x, y = self.var(), self.var()
            return [[S('lambda'), [x, y], r(env + [x, y])], self.small(env), self.small(env)]
        if k == 'clo':
            f, x = self.var(), self.var()
            return [S('let'), f, [S('lambda'), [x], r(env + [x])], [f, self.small(env)]]
        if k == 'thunk':
            return [S('@force'), [S('lambda'), [], r()]]
        # a block that throws, is resumed and then finished before the call
        x, v, j = self.var(), self.var(), self.var()
        return [S('let'), x, [S('try'), [S('lambda'), [], [S('+'), 1, [S('throw'), self.small(env)]]],
                              [S('lambda'), [v, j], [j, v]]], r(env + [x])]

    def call(self, env):
        t = self.t
        i = t.below(len(self.funs))
        f, n = self.funs[i]
        args = [[S('-'), S('N'), 1]] + [self.arg(env) for _ in range(n - 1)]
        how = t.weighted([(4, 'direct'), (3, 'split'), (2, 'apply'), (1, 'applyp'), (2, 'over'), (1, 'idcall'),
                          (1, 'glob')])
        if how == 'direct':
            return [f] + args
        if how == 'split':
            while args:
                k = t.between(1, len(args))
                f = [f] + args[:k]
                args = args[k:]
            return f
        if how == 'apply':
            return [S('apply'), f, [S('%list')] + args]
        if how == 'applyp':
            return [S('apply'), [f, args[0]], [S('%list')] + args[1:]] if n > 1 else \
                [S('apply'), f, [S('%list')] + args]
        if how == 'over':
            return [S('@id'), f] + args
        if how == 'idcall':
            return [[S('@id'), f]] + args
        return [[S('value'), [S('quote'), f]]] + args

    def arg(self, env):
        return self.small(env) if self.t.bool(1, 4) else self.t.pick(env)

    def program(self, n):
        t = self.t
        self.funs = [(S('@l%d' % i), t.between(1, 7) if t.bool(1, 4) else t.between(1, 3))
                     for i in range(t.between(1, 4))]
        I = S
        defs = [[I('defun'), I('@tick'), [I('n')],
                 [I('if'), [I('='), I('n'), n // 2], [I('vt#mark'), I('n')], I('n')]],
                [I('defun'), I('@id'), [I('x')], I('x')],
                [I('defun'), I('@keep'), [I('x')], I('x')],
                [I('defun'), I('@force'), [I('f')], [I('f')]]]
        for f, k in self.funs:
            ps = [S('N')] + [self.var() for _ in range(k - 1)]
            defs.append([I('defun'), f, ps,
                         [I('if'), [I('='), I('N'), 0], [I('do'), [I('vt#mark'), 0], [I('%list')] + ps],
                          [I('do'), [I('@tick'), I('N')], self.tail(t.below(4), ps)]]])
        f, k = self.funs[0]
        return dict(defs=defs, body=[f, n] + [t.below(9) for _ in range(k - 1)])


class M(Machine):
    pass


def run(case, n):
    m = Machine(fuel=30000, depth=500)
    for d in case['defs']:
        m.run(d)
    return m


class C(ProgCheck):
    id = 'C05'
    technique = 'random loops of tail calls, run for 150,000 iterations while resident memory is measured'
    note = ('Loops of one to four functions calling each other in tail position through random '
            'shapes: if, cond, match, let, begin, applied lambdas, closures, thunks, partial '
            'and over-applications, apply, the completed value of a resumed try. Resident memory must '
            'not grow over the second half of the iterations by even 12 bytes an iteration. A throw '
            'that is never resumed is covered by C13.')
    rule = ('A case is a random cycle of tail calls run for 150,000 iterations compiled (a quarter of '
            'them also 8,000 interpreted); resident memory at the end is compared with that at half time. '
            'Non-trivial: both marks were reached and the body is more than the bare call.')
    quick_n = 700
    thorough_n = 14000
    batch = 24
    quick_time = 45
    limit = (30, 60)
    kind = 'stress'
    cmds = [['gclimit', '600000', '0', '0']]
    ITER = {'compiled': 150000, 'eval': 8000}
    GROW = {'compiled': 900, 'eval': 400}   # KB over half of the iterations

    def gen(self, t):
        n = 40
        g = G(t)
        case = g.program(n)
        if sum(gen.cost(x) for x in case['defs'] + [case['body']]) > 1200:
            raise Discard('large')
        # the reference runs a short version, for the shape of the loop only
        m = Machine(fuel=60000, depth=150)
        for nm in ('vt#mark',):
            from pbt.lang import Prim
            m.globals[nm] = Prim(nm, 1, lambda x: x)
        try:
            for d in case['defs']:
                m.run(d)
            m.run(case['body'])
        except Bad as e:
            raise Discard(str(e))
        case['both'] = g.t.bool(1, 4)
        case.update(stat=m.stat, steps=m.steps, expect='')
        return case

    def scale(self, x, n):
        if isinstance(x, list):
            return [self.scale(e, n) for e in x]
        if isinstance(x, int) and not isinstance(x, bool) and x in (20, 40):
            return n // 2 if x == 20 else n
        return x

    def run(self, cases):
        self.mode = None
        out = [None] * len(cases)
        for mode in self.modes:
            n = self.ITER[mode]
            ids = [i for i, r in enumerate(out) if r is None and
                   (mode == 'compiled' or cases[i]['both'])]
            r = self.runner.run(
                lambda i, j: gen.source(dict(defs=self.scale(cases[ids[i]]['defs'], n),
                                             body=self.scale(cases[ids[i]]['body'], n)), j),
                len(ids), mode=mode, limit=self.limit, cmds=self.cmds)
            for i, (st, got) in zip(ids, r):
                if st == 'bad':
                    out[i] = got
                    continue
                if st != 'exit:0':
                    out[i] = 'crash (%s): %s after %r' % (mode, st, got[-200:])
                    continue
                v = [int(x) for x in RSS.findall(got)]
                if len(v) != 2:
                    out[i] = 'wrong (%s): the loop did not run to its end: %r' % (mode, got[-200:])
                elif v[1] - v[0] > self.GROW[mode]:
                    out[i] = 'growth (%s): %d KB over %d iterations' % (mode, v[1] - v[0], n // 2)
        return out

    def nontrivial(self, c):
        return c['steps'] > 400

    def show(self, c):
        return gen.show_case(c)
