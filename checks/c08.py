"""C08: match takes the first rule that fits."""
from pbt import gen
from pbt.core import Discard
from pbt.lang import Sym as S
from pbt.progcheck import ProgCheck

SYM = ['a', 'b', 'c', 'foo', 'list', 'where', 'true1', 'x', 'quote1']
STR = [b'', b'a', b'ab', b'x y']
INTS = [0, 1, 2, 3, -1, 10, 1000000]


class Data:
    """Random data as nested python values; dotted pairs are ('pair', a, d)."""

    def __init__(self, t):
        self.t = t

    def atom(self):
        t = self.t
        k = t.weighted([(4, 'int'), (3, 'sym'), (1, 'bool'), (2, 'str'), (1, 'nil')])
        if k == 'int':
            return t.pick(INTS)
        if k == 'sym':
            return S(t.pick(SYM))
        if k == 'bool':
            return t.bool()
        if k == 'str':
            return t.pick(STR)
        return []

    def datum(self, d):
        t = self.t
        if d <= 0 or t.bool(1, 3):
            return self.atom()
        if t.bool(1, 5):
            a, b = self.datum(d - 1), self.datum(d - 1)
            return b if False else self.cons(a, b)
        return [self.datum(d - 1) for _ in range(t.below(5))]

    def cons(self, a, b):
        if isinstance(b, list):
            return [a] + b
        if isinstance(b, tuple):
            return ('dot', [a] + b[1], b[2])
        return ('dot', [a], b)

    def mutate(self, x):
        """A datum near x."""
        t = self.t
        k = t.below(5)
        if k == 0 or not isinstance(x, (list, tuple)):
            return self.datum(1)
        if isinstance(x, tuple):
            if t.bool():
                return list(x[1])
            return ('dot', [self.mutate(x[1][0])] + x[1][1:], x[2])
        if k == 1 or not x:
            return x + [self.atom()]
        i = t.below(len(x))
        if k == 2:
            return x[:i] + x[i + 1:]
        if k == 3 and isinstance(self.at(x, i), (int, bool, bytes, S)):
            return self.cons(x[0], self.atom()) if len(x) == 1 else ('dot', x[:-1], self.atom())
        return x[:i] + [self.mutate(x[i])] + x[i + 1:]

    def at(self, x, i):
        return x[i]


def build(x):
    """An expression that builds the datum."""
    if isinstance(x, tuple):
        e = build(x[2])
        for y in reversed(x[1]):
            e = [S('cons'), build(y), e]
        return e
    if isinstance(x, S):
        return [S('quote'), x]
    if isinstance(x, list):
        if not x:
            return []
        return [S('%list')] + [build(y) for y in x]
    return x


class Pats(Data):
    def __init__(self, t):
        Data.__init__(self, t)
        self.n = 0
        self.used = []

    def var(self):
        t = self.t
        if t.bool(1, 4):
            return S('_')
        if t.bool(1, 3):
            v = S(t.pick(['a', 'b', 'c', 'x', 'foo', 'y']))
            if v in self.used:
                return S('_')
        else:
            self.n += 1
            v = S('v%d' % self.n)
        self.used.append(v)
        return v

    def quotable(self, x):
        if isinstance(x, tuple):
            return False
        return not isinstance(x, list) or all(self.quotable(y) for y in x)

    def pat(self, x, d=4):
        """A pattern that fits x, or nearly."""
        t = self.t
        if t.bool(1, 10):
            x = self.mutate(x)
        if d <= 0 or t.bool(1, 5):
            return self.var()
        if not isinstance(x, (list, tuple)):
            if t.bool(1, 3):
                return self.var()
            if isinstance(x, S) or t.bool(1, 5):
                return [S('quote'), x]
            return x
        if x == []:
            return [] if t.bool(3, 4) else [S('quote'), []]
        if self.quotable(x) and t.bool(1, 6):
            return [S('quote'), x]
        es, tail = (x, []) if isinstance(x, list) else (x[1], x[2])
        k = t.weighted([(3, 'cons'), (3, 'list'), (3, 'dot'), (1, 'rest')])
        if k == 'list' and tail == []:
            return [S('%list')] + [self.pat(y, d - 1) for y in es]
        if k == 'cons':
            rest = es[1:] if tail == [] else (('dot', es[1:], tail) if es[1:] else tail)
            return [S('cons'), self.pat(es[0], d - 1), self.pat(rest, d - 1)]
        n = t.between(1, len(es))
        rest = es[n:] if tail == [] else (('dot', es[n:], tail) if es[n:] else tail)
        ps = [self.pat(y, d - 1) for y in es[:n]]
        tp = self.pat(rest, d - 2)
        if k == 'rest':
            return [S('list-rest')] + ps + [tp]
        return [S('%list')] + ps + [S('.'), tp]

    def action(self, i, outer):
        t = self.t
        vs = [v for v in self.used] + [v for v in outer if t.bool(1, 2)]
        e = [S('%list'), i] + vs
        if t.bool(1, 3):
            e = [S('do'), [S('vt#emit'), 100 + i], e]
        return e

    def guard(self, i):
        t = self.t
        vs = [v for v in self.used]
        k = t.below(5)
        if not vs or k == 0:
            e = t.bool()
        elif k == 1:
            e = [S('='), t.pick(vs), t.pick(vs)]
        elif k == 2:
            e = [S('cons?'), t.pick(vs)]
        elif k == 3:
            e = [S('='), t.pick(vs), build(self.atom())]
        else:
            e = [S('not'), [S('symbol?'), t.pick(vs)]]
        if t.bool(1, 3):
            e = [S('do'), [S('vt#emit'), 200 + i], e]
        return e


class C(ProgCheck):
    id = 'C08'
    technique = 'random rule lists against random data derived from each other, compared with a reference matcher'
    note = ('Rule lists (literals, quotes, cons, list, dotted and list-rest patterns, guards with '
            'effects) are applied to data they were derived from, near misses of it and unrelated '
            'data, as match on values, match on literal lists and func; the chosen rule, its '
            'bindings and every effect must equal those of a reference matcher, compiled and '
            'interpreted.')
    rule = ('A case is one rule list applied to four to ten data. Non-trivial: at least two rules '
            'are chosen or missed for the data.')
    quick_n = 2400
    thorough_n = 40000
    batch = 30
    quick_time = 50

    def gen(self, t):
        g = Pats(t)
        form = t.weighted([(4, 'match'), (2, 'lit'), (3, 'func'), (1, 'rec')])
        nargs = 1 if form in ('match', 'rec') else t.between(1, 3)
        seeds = [[g.datum(3) for _ in range(nargs)] for _ in range(t.between(1, 3))]
        rules = []
        params = [S('p%d' % i) for i in range(nargs)]
        nr = t.between(1, 5)
        for i in range(nr):
            g.used = []
            sd = t.pick(seeds)
            ps = []
            for x in sd:
                ps.append(g.pat(x))
            gd = g.guard(i) if t.bool(1, 3) else None
            rules.append((ps, g.action(i, params if form != 'func' else []), gd))
        g.used = []
        rules.append(([g.var() for _ in range(nargs)], None, None))
        rules[-1] = (rules[-1][0], g.action(nr, []), None)
        I = S
        defs = [[I('defun'), I('@id'), [I('x')], [I('do'), [I('vt#emit'), I('x')], I('x')]]]
        if form == 'func':
            fn = [I('func'), I('@m')]
            for ps, act, gd in rules:
                fn += ps + [I('=>'), act]
                if gd is not None:
                    fn += [I('where'), gd]
            defs.append(fn)
        else:
            if form in ('match', 'rec'):
                sc = params[0] if t.bool() else [I('@id'), params[0]]
                m = [I('match'), sc]
                for ps, act, gd in rules:
                    m += [ps[0], act if gd is None else [I('where'), gd, act]]
            else:
                m = [I('match'), [I('%list')] + [p if t.bool(2, 3) else [I('@id'), p] for p in params]]
                for ps, act, gd in rules:
                    m += [[I('%list')] + ps, act if gd is None else [I('where'), gd, act]]
            if form == 'rec':
                # the scrutinee is a part of the datum reached by another match
                m = [I('match'), [I('%list'), params[0], params[0]],
                     [I('%list'), [I('cons'), I('h'), I('_')], I('_')],
                     [I('let'), params[0], I('h'), m],
                     I('_'), [I('+'), 1, 1]]
            elif t.bool(1, 4):
                m = [I('%list'), m, 7]      # not a tail position
            defs.append([I('defun'), I('@m'), params, m])
        calls = []
        for _ in range(t.between(4, 10)):
            args = list(t.pick(seeds))
            k = t.below(4)
            if k == 1:
                i = t.below(nargs)
                args[i] = g.mutate(args[i])
            elif k == 2:
                args = [g.mutate(a) for a in args]
            elif k == 3:
                args[t.below(nargs)] = g.datum(3)
            if form == 'rec':
                args = [g.cons(args[0], [])]
            calls.append([I('vt#emit'), [I('@m')] + [build(a) for a in args]])
        case = dict(defs=defs, body=[I('do')] + [c for c in calls] + [0])
        e = 0
        for c in reversed(calls):
            e = [I('do'), c, e]
        case['body'] = e
        if sum(gen.cost(x) for x in defs + [e]) > 4000:
            raise Discard('large')
        out, m = gen.expected(case)
        case.update(expect=out, stat=dict(m.stat, **{form: 1}), steps=m.steps)
        return case

    def nontrivial(self, c):
        return c['stat'].get('match', 0) + c['stat'].get('match-miss', 0) + c['stat'].get('where', 0) >= 5
