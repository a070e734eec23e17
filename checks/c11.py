"""C11: garbage collection is invisible to programs."""
from pbt import gen, lang
from pbt.core import Discard
from pbt.lang import Sym as S
from pbt.progcheck import ProgCheck
from . import c07

I = S


class Churn:
    """A program that keeps and mutates structures of all ages."""

    def __init__(self, t):
        self.t = t

    def value(self, d=2):
        t = self.t
        k = t.weighted([(4, 'mk'), (3, 'ref'), (3, 'cons'), (2, 'str'), (1, 'num'), (2, 'call'),
                        (2, 'cell'), (1, 'try'), (1, 'part'), (1, 'map'), (1, 'inner')])
        if d <= 0 and k not in ('mk', 'ref', 'num', 'str'):
            k = 'mk'
        if k == 'mk':
            return [I('@mk'), t.between(0, 6), [I('+'), I('n'), t.below(20)]]
        if k == 'ref':
            return [I('vector-ref'), I('@v'), t.below(self.size)]
        if k == 'cons':
            return [I('@cap'), 6, [I('cons'), self.value(d - 1) if t.bool() else I('n'), self.lst(d - 1)]]
        if k == 'str':
            return [I('string-append'), t.pick([b'', b'ab', b'hello world']), t.pick([b'x', b'', b'abcdefghijklmnop'])]
        if k == 'num':
            return [I('+'), I('n'), t.below(100)]
        if k == 'call':
            return [[I('vector-ref'), I('@w'), t.below(self.nclo)], I('n')]
        if k == 'cell':
            return [I('value'), [I('vector-ref'), I('@c'), t.below(self.ncell)]]
        if k == 'try':
            return [I('try'), [I('lambda'), [], [I('@cap'), 6, [I('cons'), [I('throw'), I('n')], self.lst(d - 1)]]],
                    [I('lambda'), [I('e'), I('k')],
                     t.pick([[I('k'), [I('@mk'), 2, I('e')]], [I('do'), [I('@garbage'), t.between(1, 20)], [I('k'), I('e')]]])]]
        if k == 'part':
            return [[I('@f3'), self.value(d - 1), I('n')], self.value(d - 1)]
        if k == 'map':
            return [I('map'), [I('lambda'), [I('x')], [I('%list'), I('x'), I('n')]], [I('@mk'), t.between(1, 4), I('n')]]
        return [I('vector-ref'), [I('vector-ref'), I('@in'), t.below(self.nin)], t.below(4)]

    def lst(self, d):
        t = self.t
        return [I('@mk'), t.between(0, 4), t.below(50)] if t.bool(1, 2) else [I('@lst'), self.value(d)]

    def place(self, v=0):
        """(get, put v) of some mutable place."""
        t = self.t
        k = t.below(4)
        if k == 0:
            s = [I('vector-ref'), I('@c'), t.below(self.ncell)]
            return [I('value'), s], [I('set'), s, v]
        if k == 1:
            s = [I('vector-ref'), I('@in'), t.below(self.nin)]
            i = t.below(4)
            return [I('vector-ref'), s, i], [I('vector-set!'), s, i, v]
        i = t.below(self.size)
        return [I('vector-ref'), I('@v'), i], [I('vector-set!'), I('@v'), i, v]

    def op2(self):
        return self.place(self.value(1))[1]

    def op(self):
        t = self.t
        k = t.weighted([(6, 'set'), (2, 'drop'), (3, 'garbage'), (2, 'clo'), (2, 'cell'), (2, 'inner'),
                        (1, 'newin'), (1, 'glob'), (1, 'emit'), (1, 'big'), (1, 'bigset'), (5, 'take')])
        if k == 'set':
            return [I('vector-set!'), I('@v'), t.below(self.size), self.value()]
        if k == 'drop':
            return [I('vector-set!'), I('@v'), t.below(self.size), 0]
        if k == 'garbage':
            return [I('@garbage'), t.pick([1, 10, 60])]
        if k == 'clo':
            return [I('let'), I('y'), self.value(1),
                    [I('vector-set!'), I('@w'), t.below(self.nclo),
                     t.pick([[I('lambda'), [I('x')], I('y')], [I('lambda'), [I('x')], [I('%list'), I('x'), I('y')]],
                             [I('@f3'), I('y'), I('n')]])]]
        if k == 'cell':
            return [I('set'), [I('vector-ref'), I('@c'), t.below(self.ncell)], self.value()]
        if k == 'inner':
            return [I('vector-set!'), [I('vector-ref'), I('@in'), t.below(self.nin)], t.below(4), self.value()]
        if k == 'newin':
            return [I('vector-set!'), I('@in'), t.below(self.nin), [I('@fill'), [I('vector'), 4], 3, self.value(1)]]
        if k == 'take':
            # the only reference moves to the stack while the rest is overwritten
            get, put = self.place()
            x = I('x%d' % t.below(3))
            use = t.pick([[I('vt#emit'), [I('@safe'), x]], self.place(x)[1], [I('do'), [I('vt#emit'), [I('@safe'), x]], self.place(x)[1]]])
            mid = [I('@garbage'), t.pick([1, 3, 10, 60])]
            if t.bool(1, 3):
                mid = [I('do'), self.op2(), mid]
            fill = self.place([I('@mk'), t.between(1, 5), I('n')])[1]
            return [I('do'), fill, [I('let'), x, get, [I('do'), put, [I('do'), mid, use]]]] if t.bool() else \
                [I('let'), x, get, [I('do'), put, [I('do'), mid, use]]]
        if k == 'glob':
            return [I('set'), [I('quote'), I('@g')], self.value()]
        if k == 'big':
            return [I('vector-set!'), I('@big'), 0, [I('@fill'), [I('vector'), t.pick([505, 520, 700, 2000])], 3, self.value(1)]]
        if k == 'bigset':
            return [I('vector-set!'), [I('vector-ref'), I('@big'), 0], t.below(4), self.value()]
        return [I('vt#emit'), self.value()]

    def program(self):
        t = self.t
        self.size = t.between(1, 12)
        self.nclo, self.ncell, self.nin = t.between(1, 3), t.between(1, 3), t.between(1, 3)
        d = []
        fn = lambda name, ps, body: d.append([I('defun'), I(name), [I(p) for p in ps], body])
        fn('@mk', 'ni', [I('if'), [I('='), I('n'), 0], [],
                         [I('cons'), I('i'), [I('@mk'), [I('-'), I('n'), 1], [I('+'), I('i'), 1]]]])
        fn('@cap', 'nl', [I('if'), [I('='), I('n'), 0], [],
                          [I('if'), [I('cons?'), I('l')],
                           [I('let'), I('h'), [I('car'), I('l')],
                            [I('cons'), [I('if'), [I('cons?'), I('h')], [I('@flat'), 2, I('h')], I('h')],
                             [I('@cap'), [I('-'), I('n'), 1], [I('cdr'), I('l')]]]], I('l')]])
        fn('@flat', 'nl', [I('if'), [I('='), I('n'), 0], [],
                           [I('if'), [I('cons?'), I('l')],
                            [I('if'), [I('cons?'), [I('car'), I('l')]], [I('@flat'), I('n'), [I('cdr'), I('l')]],
                             [I('cons'), [I('car'), I('l')], [I('@flat'), [I('-'), I('n'), 1], [I('cdr'), I('l')]]]],
                            []]])
        fn('@lst', 'x', [I('if'), [I('cons?'), I('x')], I('x'), [I('cons'), I('x'), []]])
        fn('@garbage', 'n', [I('if'), [I('='), I('n'), 0], 0,
                             [I('do'), [I('cons'), [I('@mk'), 3, I('n')], b'x'], [I('@garbage'), [I('-'), I('n'), 1]]]])
        fn('@f3', 'abc', [I('%list'), I('a'), I('b'), I('c')])
        fn('@fill', 'vix', [I('if'), [I('<'), I('i'), 0], I('v'),
                            [I('do'), [I('vector-set!'), I('v'), I('i'), I('x')],
                             [I('@fill'), I('v'), [I('-'), I('i'), 1], I('x')]]])
        fn('@fillc', 'vi', [I('if'), [I('<'), I('i'), 0], I('v'),
                            [I('do'), [I('let'), I('g'), [I('gensym')],
                                       [I('do'), [I('set'), I('g'), 0], [I('vector-set!'), I('v'), I('i'), I('g')]]],
                             [I('@fillc'), I('v'), [I('-'), I('i'), 1]]]])
        fn('@filli', 'vi', [I('if'), [I('<'), I('i'), 0], I('v'),
                            [I('do'), [I('vector-set!'), I('v'), I('i'), [I('@fill'), [I('vector'), 4], 3, 0]],
                             [I('@filli'), I('v'), [I('-'), I('i'), 1]]]])
        fn('@dump', 'vi', [I('if'), [I('<'), I('i'), 0], 0,
                           [I('do'), [I('vt#emit'), [I('@safe'), [I('vector-ref'), I('v'), I('i')]]],
                            [I('@dump'), I('v'), [I('-'), I('i'), 1]]]])
        fn('@safe', 'x', [I('if'), [I('symbol?'), I('x')], [I('value'), I('x')], I('x')])
        df = lambda name, e: d.append([I('def'), I(name), e])
        df('@v', [I('@fill'), [I('vector'), self.size], self.size - 1, 0])
        df('@w', [I('@fill'), [I('vector'), self.nclo], self.nclo - 1, [I('lambda'), [I('x')], I('x')]])
        df('@c', [I('@fillc'), [I('vector'), self.ncell], self.ncell - 1])
        df('@in', [I('@filli'), [I('vector'), self.nin], self.nin - 1])
        df('@big', [I('@fill'), [I('vector'), 1], 0, [I('@fill'), [I('vector'), 600], 3, 0]])
        df('@g', 0)
        step = 0
        for _ in range(t.between(3, 16)):
            step = [I('do'), self.op(), step]
        fn('@step', 'n', step)
        rep = t.between(1, 25) if t.bool(2, 3) else t.between(25, 120)
        fn('@loop', 'n', [I('if'), [I('='), I('n'), 0], 0,
                          [I('do'), [I('@step'), I('n')], [I('@loop'), [I('-'), I('n'), 1]]]])
        body = [I('do'), [I('@loop'), rep],
                [I('do'), [I('@dump'), I('@v'), self.size - 1],
                 [I('do'), [I('@dump'), I('@in'), self.nin - 1],
                  [I('do'), [I('vt#emit'), [I('@cells'), self.ncell - 1]],
                   [I('%list'), I('@g')] + [[I('vector-ref'), [I('vector-ref'), I('@big'), 0], i] for i in range(4)]]]]]
        fn('@cells', 'i', [I('if'), [I('<'), I('i'), 0], [],
                           [I('cons'), [I('value'), [I('vector-ref'), I('@c'), I('i')]], [I('@cells'), [I('-'), I('i'), 1]]]])
        return dict(defs=d, body=body)


class C(ProgCheck):
    id = 'C11'
    technique = 'random programs under random collection schedules (start, marking step, poisoned garbage), against a reference'
    note = ('Random programs, most of them loops that keep and mutate vectors, cells, globals, '
            'closures, partial applications, large objects and continuations while they produce '
            'garbage, run with a collection started every 50 bytes to 64 KB of allocation, 1 to '
            '200 objects marked per allocation, and every dead object overwritten after each '
            'collection. Effects and value must equal those of a reference without memory.')
    rule = ('A case is a program and a collection schedule; it is run compiled and interpreted. '
            'Non-trivial: at least 200 evaluation steps.')
    quick_n = 1600
    thorough_n = 40000
    batch = 20
    quick_time = 40
    kind = 'stress'
    limit = (20, 60)

    def gen(self, t):
        k = t.weighted([(6, 'churn'), (2, 'prog'), (2, 'try')])
        if k == 'churn':
            case = Churn(t).program()
            if sum(gen.cost(x) for x in case['defs'] + [case['body']]) > 1500:
                raise Discard('large')
            out, m = gen.expected(case, fuel=200000)
            case.update(expect=out, stat=dict(m.stat), steps=m.steps)
        elif k == 'prog':
            case = gen.program(t, depth=4, fns=t.between(1, 4), maxcost=900, tries=t.below(3))
        else:
            case = c07.C.gen(self, t) if False else gen.program(t, depth=3, fns=3, maxcost=900, tries=6)
        case['kind'] = k
        case['gc'] = (t.pick([50, 200, 1000, 4000, 16000, 64000]), t.pick([1, 2, 7, 30, 200]), 1 if t.bool(2, 3) else 0)
        return case

    def source(self, case, idx):
        c = dict(case)
        c['body'] = [I('do'), [I('vt#gc')] + list(case['gc']), case['body']]
        return gen.source(c, idx)

    def nontrivial(self, c):
        return c['steps'] >= 200

    def labels(self, c):
        return [c['kind'], 'limit=%d' % c['gc'][0], 'mark=%d' % c['gc'][1],
                'poison' if c['gc'][2] else 'no poison',
                'steps>=%d' % (10 ** (len(str(c['steps'])) - 1))]

    def show(self, c):
        return ';; collections: every %d bytes, %d marked per allocation, poison %d\n' % c['gc'] + ProgCheck.show(self, c)

    def key(self, c):
        return self.show(c)
