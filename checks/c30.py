"""C30: multiple values, per-thread variables and monads."""
from pbt import gen
from pbt.core import Discard
from pbt.gen import Gen, INT, BOOL, S, q, cost
from pbt.libcheck import LibCheck


class G(Gen):
    def __init__(self, t, **cfg):
        Gen.__init__(self, t, **cfg)
        self.used = set()
        self.keys = {}       # per-thread variable -> type, all set at the beginning
        self.inm = 0

    def more(self, ty, env, d):
        out = [(4, 'values')] if d >= 2 else []
        if d >= 2 and self.inm < 2:
            out += [(2, 'state'), (2, 'cont')]
        if any(u == ty for u in self.keys.values()):
            out.append((4, 'tlget'))
        if d >= 2 and self.keys:
            out.append((2, 'tlset'))
        return out

    # ---- multiple values
    def g_values(self, ty, env, d):
        t = self.t
        self.used.add('values')
        n = t.below(5)
        ps = self.locals(n)
        tys = [self.type(1, False) for _ in ps]

        def prod(d2):
            k = t.below(6)
            vs = [S('values')] + [self.exp(u, env, d2 - 1) for u in tys]
            if k == 0 and d2 > 1:
                return [S('if'), self.exp(BOOL, env, d2 - 2), vs, prod(d2 - 1)]
            if k == 1:
                u = self.type(1, False)
                x = self.local()
                return [S('let'), x, self.exp(u, env, d2 - 2), [S('values')] + [self.exp(v, env + [(x, u)], d2 - 2) for v in tys]]
            return vs
        return [S('let-values'), ps, prod(d - 1), self.exp(ty, env + list(zip(ps, tys)), d - 1)]

    # ---- per-thread variables
    def g_tlget(self, ty, env, d):
        self.used.add('thread-local')
        return [S('thread-local-get'), self.t.pick([k for k, u in self.keys.items() if u == ty])]

    def key(self, k):
        return k

    def g_tlset(self, ty, env, d):
        k = self.t.pick(list(self.keys))
        return [S('begin'), [S('thread-local-set'), k, self.exp(self.keys[k], env, d - 1)], self.exp(ty, env, d - 1)]

    # ---- state monad, over a state of type INT
    def g_state(self, ty, env, d):
        self.used.add('state')
        self.inm += 1
        s, v = self.t.pick([['s', 'v'], ['a', 'b'], ['v', 's'], ['x', 'y']])
        s, v = S(s), S(v)
        e = [[self.state(ty, env, d), self.exp(INT, env, d - 2)], [S('lambda'), [s, v], [S('begin'), [S('vt#emit'), s], v]]]
        self.inm -= 1
        return e

    def state(self, ty, env, d):
        t = self.t
        k = t.weighted([(3, 'return'), (7 if d > 1 else 0, 'bind'), (2, 'get' if ty == INT else 'put'), (2, 'put'), (1 if d > 1 else 0, 'if')])
        if k == 'return':
            return [S('state-return'), self.exp(ty, env, d - 2)]
        if k == 'get':
            return [S('lambda'), [S('st'), S('kk')], [S('kk'), S('st'), S('st')]]
        if k == 'put':
            e = self.exp(INT, env + [(S('st'), INT)], 1)
            return [S('lambda'), [S('st'), S('kk')], [S('kk'), e, self.exp(ty, env + [(S('st'), INT), (S('kk'), 'hidden')], d - 2)]]
        if k == 'if':
            return [S('if'), self.exp(BOOL, env, d - 2), self.state(ty, env, d - 1), self.state(ty, env, d - 1)]
        u = self.type(1, False)
        x = self.local()
        return [S('state-bind'), self.state(u, env, d - 1), [S('lambda'), [x], self.state(ty, env + [(x, u)], d - 1)]]

    # ---- continuation monad; shift drops, repeats or uses its continuation
    def g_cont(self, ty, env, d):
        self.used.add('cont')
        self.inm += 1
        if self.t.bool(1, 3):
            e = [S('cora/lib/monad#reset'), self.cont(ty, env, d, ty)]
        else:
            r = self.type(1, False)
            x = self.local()
            e = [S('cora/lib/monad#run-cc'), self.cont(r, env, d, ty), [S('lambda'), [x], self.exp(ty, env + [(x, r)], d - 1)]]
        self.inm -= 1
        return e

    def cont(self, ty, env, d, ans):
        t = self.t
        k = t.weighted([(3, 'return'), (7 if d > 1 else 0, 'bind'), (4, 'shift')])
        if k == 'return':
            return [S('cora/lib/monad#cont-return'), self.exp(ty, env, d - 2)]
        if k == 'shift':
            c = self.local()
            env2 = env + [(c, 'hidden')]
            m = t.below(4)
            one = [c, self.exp(ty, env2, d - 2)]
            if m == 0:
                body = self.exp(ans, env2, d - 2)
            elif m == 1:
                body = one
            else:
                x, y = self.local([c]), self.local([c])
                body = [S('let'), x, one, y, [c, self.exp(ty, env2 + [(x, ans)], 1)], self.exp(ans, env2 + [(x, ans), (y, ans)], d - 2)]
            return [S('shift'), c, body]
        u = self.type(1, False)
        x = self.local()
        return [S('cora/lib/monad#cont-bind'), self.cont(u, env, d - 1, ans), [S('lambda'), [x], self.cont(ty, env + [(x, u)], d - 1, ans)]]

    def program(self):
        t = self.t
        init = []
        for _ in range(t.below(4)):
            k = t.pick([q(S('@key%d' % t.below(5))), t.below(4), t.pick([b'key', b'', b'k2'])])
            if any(str(k) == str(x[0]) for x in init):
                continue
            init.append((k, self.type(1, False)))
        steps = []
        for k, u in init:
            steps.append([S('thread-local-set'), k, self.lit(u, [], 1)])
        self.keys = Keys(init)
        for _ in range(t.below(2)):
            self.define()
        kinds = ['values', 'state', 'cont'] + (['tlset'] * 2 if init else [])
        parts = [getattr(self, 'g_' + t.pick(kinds))(self.type(1, False), [], self.c['depth']) for _ in range(t.between(1, 3))]
        body = [S('%list')] + parts
        if steps:
            body = [S('begin')] + steps + [body]
        return dict(defs=self.defs, body=body)


class Keys:
    def __init__(self, l):
        self.l = l

    def items(self):
        return self.l

    def values(self):
        return [u for _, u in self.l]

    def __iter__(self):
        return iter([k for k, _ in self.l])

    def __len__(self):
        return len(self.l)

    def __getitem__(self, k):
        return [u for x, u in self.l if x is k][0]


def plain(x):
    if not isinstance(x, list) or not x or (isinstance(x[0], S) and x[0] == 'quote'):
        return x
    if isinstance(x[0], S):
        h = x[0]
        if h == 'values':
            return [S('lambda'), [S('%k')], [S('%k')] + [plain(e) for e in x[1:]]]
        if h == 'let-values':
            return [plain(x[2]), [S('lambda'), x[1], plain(x[3])]]
        if h == 'shift':
            return [S('lambda'), [x[1]], plain(x[2])]
        h2 = {'thread-local-get': '@tlget', 'thread-local-set': '@tlset', 'state-return': '@sret', 'state-bind': '@sbind', 'cora/lib/monad#reset': '@reset',
              'cora/lib/monad#run-cc': '@runcc', 'cora/lib/monad#cont-return': '@cret', 'cora/lib/monad#cont-bind': '@cbind'}.get(h)
        if h2:
            return [S(h2)] + [plain(e) for e in x[1:]]
    return [plain(e) for e in x]


def lam(ps, b):
    return [S('lambda'), [S(p) for p in ps], b]


def call(*xs):
    return [S(x) if isinstance(x, str) else x for x in xs]


REF = [
    [S('def'), S('@tl'), [S('vector'), 1]],
    # a list of (key . value) in a cell, the newest first
    [S('defun'), S('@tlset'), [S('k'), S('v')], call('begin', call('vector-set!', '@tl', 0, call('cons', call('cons', 'k', 'v'), call('vector-ref', '@tl', 0))), True)],
    [S('defun'), S('@tlfind'), [S('k'), S('l')], call('if', call('=', call('car', call('car', 'l')), 'k'), call('cdr', call('car', 'l')), call('@tlfind', 'k', call('cdr', 'l')))],
    [S('defun'), S('@tlget'), [S('k')], call('@tlfind', 'k', call('vector-ref', '@tl', 0))],
    [S('defun'), S('@sret'), [S('x')], lam(['s', 'k'], call('k', 's', 'x'))],
    [S('defun'), S('@sbind'), [S('m'), S('f')], lam(['s', 'k'], call('m', 's', lam(['s1', 'v'], call(call('f', 'v'), 's1', 'k'))))],
    [S('defun'), S('@reset'), [S('m')], call('m', lam(['x'], S('x')))],
    [S('defun'), S('@runcc'), [S('m'), S('k')], call('m', 'k')],
    [S('defun'), S('@cret'), [S('x')], lam(['k'], call('k', 'x'))],
    [S('defun'), S('@cbind'), [S('m'), S('f')], lam(['k'], call('m', lam(['r'], call(call('f', 'r'), 'k'))))],
]


class C(LibCheck):
    id = 'C30'
    technique = 'random programs with multiple values, per-thread variables and computations in two monads; the reference runs them with these written out'
    note = ('0 to 4 values at a time, produced under conditions and bindings; per-thread variables under symbols, numbers and strings, set again anywhere; state computations that '
            'get, put, branch; continuation computations that drop, use or repeat their continuation. Compiled and interpreted. Reading a variable that was '
            'never set is not generated.')
    rule = 'A case is a program. Non-trivial: 20 steps of the reference or more.'
    imports = ('sys', 'monad')
    quick_n = 2400
    thorough_n = 120000
    quick_time = 50
    batch = 30

    def gen(self, t):
        g = G(t, fns=2, maxcost=700, tries=0, effects=2, depth=4)
        case = g.program()
        ref = dict(defs=REF + [plain(d) for d in case['defs']], body=[S('begin'), [S('vector-set!'), S('@tl'), 0, []], plain(case['body'])])
        c = sum(cost(plain(d)) for d in case['defs']) + cost(plain(case['body']))
        if c > 1000:
            raise Discard('large')
        out, m = gen.expected(ref)
        if len(out) > 20000:
            raise Discard('long')
        return dict(src=gen.source(case, 0).replace('k0-', 'kCASE_ID-').replace('(vt#case 0 ', '(vt#case CASE_ID '), expect=out, steps=m.steps, labels=sorted(g.used))

    def nontrivial(self, c):
        return c['steps'] >= 20
