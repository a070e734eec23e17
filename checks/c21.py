"""C21: record definitions and named loops mean what they abbreviate."""
from pbt import gen
from pbt.core import Discard
from pbt.gen import Gen, INT, BOOL, L, S, q, cost
from pbt.libcheck import LibCheck

FIELDS = ['name', 'age', 'next', 'prev', 'fd', 'x', 'y', 'z', 'a', 'b', 'val', 'ret', 'key', 'a-b', 'ok?', 'v1', 'this', 'int', 'tag']
REC = ('rec',)


class G(Gen):
    """Programs with named loops and record types."""

    def __init__(self, t, **cfg):
        Gen.__init__(self, t, **cfg)
        self.types = []
        self.used = set()
        self.loops = 0

    def more(self, ty, env, d):
        return [(4, 'loop')] if d >= 2 and self.loops < 4 else []

    # ---- named loops
    def g_loop(self, ty, env, d):
        return self.loop(ty, env, d)

    def loop(self, ty, env, d, outer=None):
        """outer: (expression of a call of the loop around) taken at the end."""
        t = self.t
        self.loops += 1
        rec = self.local(outer[1] if outer else ())
        n = t.between(1, 4)
        avoid = [rec] + list(outer[1] if outer else ())
        ps = []
        for _ in range(n):
            ps.append(self.local(avoid + ps))
        ci = t.below(n)
        tys = [INT if i == ci else self.type(1, False) for i in range(n)]
        kind = t.weighted([(6, 'tail'), (4, 'let'), (2, 'two'), (2, 'begin'), (2, 'if'), (3, 'map'), (2, 'part'), (3, 'closure'), (2, 'inner'), (1, 'op'), (1, 'long')])
        if kind == 'inner' and (outer or d < 3):
            kind = 'tail'
        if kind == 'op' and ty != INT:
            kind = 'let'
        if kind == 'part' and (n < 2 or ci == n - 1):
            kind = 'map'
        self.used.add('loop:' + kind)
        top = dict(two=3, map=3, part=3, closure=4, inner=3, long=60).get(kind, 6)
        inits = [t.below(top) if i == ci else self.exp(u, env, d - 2) for i, u in enumerate(tys)]
        if t.bool(1, 4):
            # a constant computed in the scope outside, where the names of the loop mean something else
            inits[ci] = [S('+'), inits[ci], 1]
        env2 = env + list(zip(ps, tys)) + [(rec, 'recur')]
        c = ps[ci]

        def call(**kw):
            return [rec] + [kw.get('v%d' % i, [S('-'), c, 1] if i == ci else self.exp(u, env2 if 'env' not in kw else kw['env'], 1 if kind == 'long' else d - 3))
                            for i, u in enumerate(tys)]

        def name():
            return self.local(avoid + ps)
        base = outer[0] if outer else self.exp(ty, env2, d - 2)
        if kind in ('tail', 'long'):
            step = call()
        elif kind == 'let':
            r = name()
            step = [S('let'), r, call(), self.exp(ty, env2 + [(r, ty)], d - 2)]
        elif kind == 'two':
            r = name()
            s = name()
            step = [S('let'), r, call(), s, call(), self.exp(ty, env2 + [(r, ty), (s, ty)], d - 2)]
        elif kind == 'begin':
            step = [S('begin'), self.effect(env2, d - 2), call()]
        elif kind == 'if':
            step = [S('if'), self.exp(BOOL, env2, d - 2), call(), self.exp(ty, env2, d - 2)]
        elif kind == 'op':
            step = [S('+'), call(), self.exp(INT, env2, 1)]
        elif kind == 'map':
            z = name()
            l = name()
            zi = t.below(n)
            if zi == ci:
                fn = [S('lambda'), [z], call()]
                elems = [t.below(9) for _ in range(t.below(3))]
            else:
                fn = [S('lambda'), [z], call(**{'v%d' % zi: z})]
                elems = [self.exp(tys[zi], env2, 1) for _ in range(t.below(3))]
            step = [S('let'), l, [S('map'), fn, [S('%list')] + elems if elems else []], self.exp(ty, env2 + [(l, L(ty))], d - 2)]
        elif kind == 'part':
            l = name()
            elems = [self.exp(tys[-1], env2, 1) for _ in range(t.below(3))]
            step = [S('let'), l, [S('map'), call()[:-1], [S('%list')] + elems if elems else []], self.exp(ty, env2 + [(l, L(ty))], d - 2)]
        elif kind == 'closure':
            k = name()
            step = [S('let'), k, [S('lambda'), [], call()], [S('if'), self.exp(BOOL, env2, 1), [k], [S('begin'), self.effect(env2, 1), [k]]]]
        else:
            step = self.loop(ty, env2, d - 1, outer=(call(), avoid + ps))
        body = [S('if'), [S('<'), c, 1], base, step]
        if t.bool(1, 2):
            body = [S('begin'), [S('vt#emit'), [S('%list')] + ps], body]
        pi = []
        for p, e in zip(ps, inits):
            pi += [p, e]
        return [S('let-loop'), rec, pi, body]

    # ---- records
    def record(self):
        t = self.t
        n = t.weighted([(1, 0), (2, 1), (4, 2), (4, 3), (2, 5), (1, 9)])
        fields = []
        for _ in range(n):
            f = S(t.pick(FIELDS))
            if f not in [x for x, _, _ in fields]:
                k = t.weighted([(6, 2), (3, 1), (1, 0)])
                fields.append((f, self.fresh('get-') if k else None, self.fresh('set-') if k == 2 else None))
        inits = [f for f, _, _ in fields if t.bool(3, 4)]
        if t.bool(1, 3):
            inits = t.shuffle(inits)
        pred = self.fresh('p?') if t.bool(5, 6) else None
        tn, mk = self.fresh('<t>'), self.fresh('make-')
        self.types.append((mk, inits, pred, fields))
        self.used.add('record')
        self.defs.append([S('define-record'), tn, [mk] + inits, pred or False] + [[x for x in f if x] for f in fields])

    def records(self):
        """A straight-line history over record values -> expression."""
        t = self.t
        vals = []       # (variable, type index, initialised fields)
        steps = []
        binds = []

        def value(d=1):
            k = t.below(6)
            if k == 0 and vals:
                return t.pick(vals)[0]
            return self.exp(self.type(1, False), [], d)

        def make():
            i = t.below(len(self.types))
            mk, inits, pred, fields = self.types[i]
            args = [value() for _ in inits]
            if len(args) > 1 and t.bool(1, 4):
                k = t.between(1, len(args) - 1)
                e = [[mk] + args[:k]] + args[k:]
            else:
                e = [mk] + args
            v = S('r%d' % len(vals))
            return v, i, set(inits), e
        for _ in range(t.between(1, 3)):
            v, i, ini, e = make()
            vals.append((v, i, ini))
            binds += [v, e]
        if t.bool(1, 4):
            v, i, ini = t.pick(vals)
            w = S('r%d' % len(vals))
            vals.append((w, i, ini))
            binds += [w, v]
        for _ in range(t.between(1, 14)):
            k = t.weighted([(5, 'get'), (5, 'set'), (4, 'pred'), (1, 'map')])
            v, i, ini = t.pick(vals)
            mk, inits, pred, fields = self.types[i]
            if k == 'get':
                fs = [f for f in fields if f[0] in ini and f[1]]
                if fs:
                    f = t.pick(fs)
                    steps.append(self.shown([f[1], v]))
            elif k == 'set':
                fs = [f for f in fields if f[2]]
                if fs:
                    f = t.pick(fs)
                    x = value()
                    ini.add(f[0])
                    steps.append([f[2], v, x])
                    # everything else stays
                    w, j, ini2 = t.pick(vals)
                    steps += [self.shown([g[1], w]) for g in self.types[j][3] if g[0] in ini2 and g[1]]
            elif k == 'pred':
                ps = [x[2] for x in self.types if x[2]]
                if ps:
                    p = t.pick(ps)
                    x = t.pick([v, v, t.int(), True, [], b'str', q(S('name')), [S('vector'), t.below(11)], [S('%list'), 1, 2], S('car'), [S('lambda'), [S('x')], S('x')]])
                    if isinstance(x, list) and x[:1] == [S('vector')] and x[1]:
                        x = [S('let'), S('vec'), x, [S('begin'), [S('vector-set!'), S('vec'), 0, t.pick([0, q(S('record'))])], S('vec')]]
                    steps.append([S('vt#emit'), [p, x]])
                    self.used.add('predicate')
            elif k == 'map':
                same = [w for w, j, s in vals if j == i]
                fs = [f for f in fields if f[1] and all(f[0] in s for w, j, s in vals if j == i)]
                if fs:
                    steps.append(self.shown([S('map'), t.pick(fs)[1], [S('%list')] + same]))
        steps.append(q(S('done')))
        return [S('let')] + binds + [[S('begin')] + steps if len(steps) > 1 else steps[0]]

    def shown(self, e):
        return [S('@show'), e]

    def program(self):
        t = self.t
        if t.bool(2, 3):
            for _ in range(t.between(1, 3)):
                self.record()
            # records inside values are shown by their length only
            ps = [x[2] for x in self.types if x[2]]
            self.defs.append([S('defun'), S('@show'), [S('x')], [S('@show-h'), S('x')]])
            self.defs.append([S('defun'), S('@show-h'), [S('x')],
                              [S('cond'), [[S('vector?'), S('x')], [S('vt#emit'), [S('%list'), q(S('record'))] + [[p, S('x')] for p in ps]]],
                               [[S('cons?'), S('x')], [S('do'), [S('@show-h'), [S('car'), S('x')]], [S('@show-h'), [S('cdr'), S('x')]]]],
                               [True, [S('vt#emit'), S('x')]]]])
            body = self.records()
            if t.bool(1, 3):
                body = [S('%list'), body, self.loop(self.type(1, False), [], 4)]
        else:
            for _ in range(t.between(0, 2)):
                self.define()
            body = self.loop(self.type(1, False), [], t.between(3, 5))
        return dict(defs=self.defs, body=body)


def plain(x):
    """The program with both macros written out for the reference."""
    if not isinstance(x, list) or not x:
        return x
    if x[0] == 'quote' and isinstance(x[0], S):
        return x
    if x[0] == 'let-loop' and isinstance(x[0], S):
        rec, pi, body = x[1], x[2], plain(x[3])
        ps, inits = pi[::2], [plain(e) for e in pi[1::2]]
        c = S('%cell')
        f = [S('let'), c, [S('vector'), 1],
             [S('begin'), [S('vector-set!'), c, 0, [S('let'), S('%c'), c, [S('lambda'), ps, [S('let'), rec, [S('vector-ref'), S('%c'), 0], body]]]],
              [S('vector-ref'), c, 0]]]
        return [f] + inits
    return [plain(e) for e in x]


def plain_def(d):
    if d[0] != 'define-record':
        return [plain(d)]
    tn, (mk, *inits), pred, fields = d[1], d[2], d[3], d[4:]
    names = [f[0] for f in fields]
    r = S('%r')
    n = len(fields)
    out = [[S('defun'), mk, inits, [S('let'), r, [S('vector'), n + 1], [S('begin')] + [[S('vector-set!'), r, names.index(f), f] for f in inits] +
                                    [[S('vector-set!'), r, n, q(tn)], r]]]]
    if pred:
        # (a vector is told from a record by its size and mark)
        out.append([S('defun'), pred, [r], [S('if'), [S('vector?'), r], [S('if'), [S('='), [S('vector-length'), r], n + 1],
                                                                       [S('='), [S('vector-ref'), r, n], q(tn)], False], False]])
    for i, f in enumerate(fields):
        if len(f) > 1:
            out.append([S('defun'), f[1], [r], [S('vector-ref'), r, i]])
        if len(f) > 2:
            out.append([S('defun'), f[2], [r, S('%v')], [S('vector-set!'), r, i, S('%v')]])
    return out


class C(LibCheck):
    id = 'C21'
    technique = 'random record definitions with histories of operations, random named loops inside random programs; the reference runs the program with both written out'
    note = ('Record types of up to 9 fields in any mixture of accessors, constructors that take any of the fields in any order, records inside records, aliases, partial '
            'application, predicates asked about any value. Loops of 1 to 4 variables: tail calls, several calls, calls from closures and through map, partial application, loops '
            'inside loops, names that also mean something outside. Not generated: a loop without variables, a loop variable named like its loop, '
            'a field named like a function of the language (the macros are not hygienic). Compiled and interpreted.')
    rule = 'A case is a program. Non-trivial: 20 steps of the reference or more.'
    imports = ('let-loop', 'define-record')
    quick_n = 2400
    thorough_n = 120000
    quick_time = 60
    batch = 30

    def gen(self, t):
        g = G(t, fns=2, maxcost=700, tries=0, effects=2)
        case = g.program()
        ref = dict(defs=[y for d in case['defs'] for y in plain_def(d)], body=plain(case['body']))
        c = sum(cost(d) for d in ref['defs'] if d[0] != 'define-record') + cost(ref['body'])
        if c > 1200:
            raise Discard('large')
        out, m = gen.expected(ref)
        if len(out) > 20000:
            raise Discard('long')
        return dict(src=gen.source(case, 0).replace('k0-', 'kCASE_ID-').replace('(vt#case 0 ', '(vt#case CASE_ID '), expect=out, steps=m.steps, labels=sorted(g.used))

    def nontrivial(self, c):
        return c['steps'] >= 20
