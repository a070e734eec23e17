"""Typed random programs.  A case is {'defs': [...], 'body': exp} over lang's
S-expressions; global names start with @ and get a per-case prefix on output."""
from .core import Discard
from .lang import Sym, Machine, Bad, show, text
from . import lang

S = Sym
INT, BOOL, STR, SYM = 'int', 'bool', 'str', 'sym'


def L(t):
    return ('list', t)


def F(args, ret):
    return ('fn', tuple(args), ret)


def q(x):
    return [S('quote'), x]


LOCALS = ['x', 'y', 'z', 'a', 'b', 'n', 'v', 'l', 'f', 'g', 'k', 'r', 'tmp', 'acc',
          'x1', 'int', 'R', 'co', 'i', 'val', 'ret', 'a-b', 'a?', 'p', 'q', 'Nil',
          'label', 'res', 'else', 'static', 'x_1', 'x->y', 'end!']
SYMS = ['a', 'b', 'foo', 'bar', 'x', 'if', 'quote', 'let', 'lambda', 'A', 'a-b', 'f1',
        'return', 'do', 'cons', '+', '*g*', 'call', 'long-symbol-name-here']
STRS = [b'', b'a', b'foo', b'hello world', b'%d %s', b'x\ty', b'42', b'()', b"it's",
        b'a#b', b'?', b'??/', b'semi;colon', b'#', b'[x]', b'\xc3\xa9', b'\xff\x80']

DEF_CFG = dict(fns=3, depth=5, effects=3, tries=0, macros=True, match=3, globs=True,
               cells=True, vecs=True, hof=True, curry=3, maxcost=900, recur=4,
               let=5, cond=3, quote=2, strs=True, names=None, constp=0, redex=0)


class Gen:
    def __init__(self, t, **cfg):
        self.t = t
        self.c = dict(DEF_CFG)
        self.c.update(cfg)
        self.defs = []
        self.globs = []      # (name, type) immutable globals and functions
        self.mut = []        # (name, type) mutable globals
        self.throwers = []   # (name, type) functions that may throw
        self.nname = 0
        self.in_try = False
        self.no_rec = 0

    def fresh(self, p):
        self.nname += 1
        return S('@%s%d' % (p, self.nname))

    # ---- types
    def type(self, d=2, fn=True):
        t = self.t
        opts = [(6, INT), (3, BOOL), (2, SYM)]
        if self.c['strs']:
            opts.append((2, STR))
        k = t.weighted(opts + ([(4, 'L')] if d > 0 else []) +
                       ([(2, 'F')] if d > 0 and fn and self.c['curry'] else []))
        if k == 'L':
            return L(self.type(d - 1, False))
        if k == 'F':
            return F([self.type(0) for _ in range(t.between(1, 2))], self.type(d - 1))
        return k

    # ---- leaves
    def lit(self, ty, env, d):
        t = self.t
        if ty == INT:
            return t.int()
        if ty == BOOL:
            return t.bool()
        if ty == STR:
            return t.pick(STRS)
        if ty == SYM:
            return q(S(t.pick(SYMS)))
        if ty[0] == 'list':
            n = t.below(4)
            if ty[1] in (INT, SYM, BOOL, STR) and t.bool(1, 3):
                return q([self.datum(ty[1]) for _ in range(n)])
            if n == 0:
                return []
            return [S('%list')] + [self.lit(ty[1], env, d) for _ in range(n)]
        if ty[0] == 'fn':
            return self.lam(ty, env, d)
        raise AssertionError(ty)

    def datum(self, ty):
        if ty == INT:
            return self.t.int()
        if ty == BOOL:
            return self.t.bool()
        if ty == STR:
            return self.t.pick(STRS)
        return S(self.t.pick(SYMS))

    def vars(self, ty, env):
        out = []
        seen = set()
        for n, vt in reversed(env):
            if n in seen:
                continue
            seen.add(n)
            if vt == ty:
                out.append(n)
        for n, vt in self.globs:
            if vt == ty:
                out.append(n)
        return out

    def local(self, avoid=()):
        for _ in range(50):
            n = S(self.t.pick(self.c['names'] or LOCALS))
            if n not in avoid:
                return n
        raise Discard

    def locals(self, k):
        out = []
        for _ in range(k):
            out.append(self.local(out))
        return out

    def lam(self, ty, env, d):
        """A lambda of type ty."""
        args, ret = list(ty[1]), ty[2]
        # sometimes take part of the curried arguments only
        if ret[0] == 'fn' and self.t.bool(1, 3):
            args, ret = args + list(ret[1]), ret[2]
        elif len(args) > 1 and self.t.bool(1, 4):
            k = self.t.between(1, len(args) - 1)
            args, ret = args[:k], F(args[k:], ret)
        ps = self.locals(len(args))
        sv, self.in_try = self.in_try, False
        body = self.exp(ret, env + list(zip(ps, args)), d - 1)
        self.in_try = sv
        return [S('lambda'), ps, body]

    # ---- expressions
    def exp(self, ty, env, d):
        t = self.t
        if d <= 0:
            vs = self.vars(ty, env)
            if vs and t.bool(3, 4):
                return t.pick(vs)
            return self.lit(ty, env, d)
        c = self.c
        if c['constp'] and t.bool(c['constp'], 20):
            return self.lit(ty, env, d)
        opts = [(3, 'leaf'), (4, 'var')]
        opts += [(5, 'op')]
        opts += [(3, 'if'), (c['let'], 'let')]
        if self.callables(ty, env):
            opts.append((6, 'call'))
        if c['effects']:
            opts += [(c['effects'], 'emit'), (2, 'begin')]
        if c['cond'] and c['macros']:
            opts.append((c['cond'], 'cond'))
        if c['match'] and c['macros']:
            opts.append((c['match'], 'match'))
        if c['curry']:
            opts.append((c['curry'], 'beta'))
        if c['globs'] and any(vt == ty for _, vt in self.mut):
            opts.append((2, 'getg'))
        if c['cells']:
            opts.append((1, 'cell'))
        if c['vecs']:
            opts.append((1, 'vec'))
        if c['redex']:
            opts.append((c['redex'], 'redex'))
        if c['tries']:
            opts.append((c['tries'], 'try'))
            if self.in_try and ty == INT:
                opts.append((6, 'throw'))
            if self.in_try and any(self.ret_of(vt) == ty for _, vt in self.throwers):
                opts.append((6, 'tcall'))
        opts += self.more(ty, env, d)
        k = t.weighted(opts)
        return getattr(self, 'g_' + k)(ty, env, d)

    def more(self, ty, env, d):
        return []

    def g_leaf(self, ty, env, d):
        return self.lit(ty, env, d)

    def g_var(self, ty, env, d):
        vs = self.vars(ty, env)
        if vs:
            return self.t.pick(vs)
        return self.lit(ty, env, d)

    def g_op(self, ty, env, d):
        t = self.t
        e = lambda ty2: self.exp(ty2, env, d - 1)
        if ty == INT:
            k = t.weighted([(4, '+'), (4, '-'), (2, '*'), (1, '/'), (2, 'length'), (1, 'car')])
            if k in '+-*':
                return [S(k), e(INT), e(INT)]
            if k == '/':
                n = t.pick([1, 2, 3, 7, -2, 10])
                return [S('/'), e(INT), n]
            if k == 'length':
                return [S('length'), e(L(self.type(0)))]
            return self.safe_car(INT, env, d)
        if ty == BOOL:
            k = t.weighted([(3, '<'), (2, '>'), (3, '='), (2, 'not'), (2, 'null?'),
                            (1, 'cons?'), (1, 'elem?'), (2, 'andor'), (1, 'pred'),
                            (1, 'eqany')])
            if k in '<>':
                return [S(k), e(INT), e(INT)]
            if k == '=':
                u = t.pick([INT, SYM, BOOL, L(INT)])
                return [S('='), e(u), e(u)]
            if k == 'eqany':
                u, v = t.pick([INT, SYM, BOOL, L(INT)]), t.pick([INT, SYM, L(INT), L(SYM)])
                return [S('='), e(u), e(v)]
            if k == 'not':
                return [S('not'), e(BOOL)]
            if k == 'null?':
                return [S(t.pick(['null?', 'cons?', 'pair?'])), e(L(self.type(0)))]
            if k == 'cons?':
                u = self.type(1, False)
                return [S('cons?'), e(u)]
            if k == 'elem?':
                u = t.pick([INT, SYM])
                return [S('elem?'), e(u), e(L(u))]
            if k == 'andor':
                if not self.c['macros']:
                    return [S('not'), e(BOOL)]
                n = t.between(1, 3)
                ops = []
                for _ in range(n):
                    ops.append(e(BOOL))
                return [S(t.pick(['and', 'or']))] + ops
            return [S(t.pick(['symbol?', 'string?', 'number?', 'boolean?', 'atom?', 'null?'])),
                    e(self.type(1, False))]
        if ty == STR:
            k = t.below(2)
            if k == 0:
                return [S('string-append'), e(STR), e(STR)]
            return [S('symbol->string'), e(SYM)]
        if ty == SYM:
            if t.bool(1, 3):
                return [S('intern'), [S('string-append'), b's', e(STR)]]
            return self.g_var(ty, env, d)
        if ty[0] == 'list':
            u = ty[1]
            k = t.weighted([(4, 'cons'), (3, 'list'), (2, 'append'), (1, 'reverse'),
                            (3 if self.c['hof'] else 0, 'map'),
                            (2 if self.c['hof'] else 0, 'filter'), (1, 'cdr'),
                            (1, 'dot'), (1 if self.c['macros'] and self.c['quote'] and u in (INT, SYM) else 0, 'bq')])
            if k == 'cons':
                return [S('cons'), e(u), e(ty)]
            if k == 'list':
                h = S('list') if t.bool() else S('%list')
                n = t.between(1, 4)
                return [h] + [self.exp(u, env, d - 2) for _ in range(n)]
            if k == 'dot':
                return [S('%list'), e(u), S('.'), e(ty)]
            if k == 'append':
                return [S('append'), e(ty), e(ty)]
            if k == 'reverse':
                return [S('reverse'), e(ty)]
            if k == 'map':
                s = self.type(0)
                return [S('map'), self.fnarg(F([s], u), env, d), e(L(s))]
            if k == 'filter':
                return [S('filter'), self.fnarg(F([u], BOOL), env, d), e(ty)]
            if k == 'bq':
                items = []
                for _ in range(t.between(1, 4)):
                    if t.bool():
                        items.append([S('unquote'), self.exp(u, env, d - 2)])
                    else:
                        items.append(self.datum(u))
                return [S('backquote'), items]
            x = self.local()
            return [S('let'), x, e(ty), [S('if'), [S('cons?'), x], [S('cdr'), x],
                                         self.exp(ty, env + [(x, ty)], d - 2)]]
        return self.lam(ty, env, d)

    def safe_car(self, ty, env, d):
        lt = L(ty)
        x = self.local()
        return [S('let'), x, self.exp(lt, env, d - 1),
                [S('if'), [S('null?'), x], self.exp(ty, env, d - 2), [S('car'), x]]]

    def fnarg(self, ty, env, d):
        vs = [n for n in self.vars(ty, env)]
        if vs and self.t.bool():
            return self.t.pick(vs)
        if ty == F([INT], INT) and self.t.bool(1, 3):
            return [S(self.t.pick(['+', '-', '*'])), self.exp(INT, env, d - 2)]
        if ty == F([INT], BOOL) and self.t.bool(1, 3):
            return [S(self.t.pick(['<', '>', '='])), self.exp(INT, env, d - 2)]
        if ty == F([INT, INT], INT) and self.t.bool(1, 4):
            return [S(self.t.pick(['+', '-', '*']))]
        return self.lam(ty, env, d - 1)

    def g_if(self, ty, env, d):
        return [S('if'), self.exp(BOOL, env, d - 1), self.exp(ty, env, d - 1),
                self.exp(ty, env, d - 1)]

    def g_cond(self, ty, env, d):
        cl = [[self.exp(BOOL, env, d - 2), self.exp(ty, env, d - 1)]
              for _ in range(self.t.between(1, 3))]
        cl.append([True, self.exp(ty, env, d - 1)])
        return [S('cond')] + cl

    def g_let(self, ty, env, d):
        n = self.t.weighted([(5, 1), (2, 2), (1, 3)]) if self.c['macros'] else 1
        out = [S('let')]
        env = list(env)
        for _ in range(n):
            u = self.type(2)
            x = self.local()
            out += [x, self.exp(u, env, d - 1)]
            env = env + [(x, u)]
        out.append(self.exp(ty, env, d - 1))
        return out

    def noisy(self, u, env, d):
        """An expression of type u, effects below a primitive."""
        t = self.t

        def e(v):
            return [S('vt#emit'), self.exp(v, env, min(d, 2) - 1)] if t.bool(3, 4) else self.exp(v, env, min(d, 2) - 1)
        if d > 2 and t.bool(1, 4):
            e0 = e

            def e(v):
                return self.noisy(v, env, d - 1) if t.bool() else e0(v)
        if u == BOOL:
            k = t.pick(['not', '<', '=', 'cons?', 'null?', 'symbol?', 'if'])
            if k == 'not':
                return [S(k), e(BOOL)]
            if k in '<=':
                return [S(k), e(INT), e(INT)]
            if k == 'if':
                return [S('if'), e(BOOL), e(BOOL), e(BOOL)]
            return [S(k), e(L(INT))]
        if u == INT:
            k = t.pick(['+', '-', '*', 'car', 'if'])
            if k == 'car':
                return [S('car'), [S('cons'), e(INT), e(L(INT))]]
            if k == 'if':
                return [S('if'), e(BOOL), e(INT), e(INT)]
            return [S(k), e(INT), e(INT)]
        if isinstance(u, tuple) and u[0] == 'list':
            k = t.pick(['cons', 'cdr', 'list'])
            if k == 'cons':
                return [S('cons'), e(u[1]), e(u)]
            if k == 'cdr':
                return [S('cdr'), [S('cons'), e(u[1]), e(u)]]
            return [S('cons'), e(u[1]), [S('cons'), e(u[1]), []]]
        return e(u)

    def use(self, x, u, env, d):
        """An effect that shows x, once, twice, never or under some condition."""
        t = self.t
        show = [S('vt#emit'), x]
        k = t.below(9)
        if k == 0:
            return show
        if k == 1:
            return [S('if'), t.bool(), show, self.lit(INT, env, 1)]
        if k == 2:
            return [S('if'), self.exp(BOOL, env, 1), show, show]
        if k == 3:      # a function that shows it, called some times
            f, w = self.local((x,)), self.local((x,))
            if f == w or f == x or w == x:
                return show
            body = self.lit(INT, env, 1)
            for _ in range(t.below(3)):
                body = [S('do'), [f, t.below(9)], body]
            return [S('let'), f, [S('lambda'), [w], show], body]
        if k == 4:      # another variable of the same name
            v = self.noisy(u, env + [(x, u)], d - 1)
            return [S('let'), x, v, show]
        if k == 5:
            v = self.noisy(u, env + [(x, u)], d - 1)
            return [[S('lambda'), [x], show], v]
        if k == 6:
            return [S('do'), show, show]
        if k == 7:
            return [S('vt#emit'), [S('cons'), [S('vt#emit'), 'mark'.encode()], [S('cons'), x, []]]]
        return self.lit(INT, env, 1)

    def g_redex(self, ty, env, d):
        t = self.t
        u = t.pick([INT, BOOL, L(INT), SYM])
        x = self.local()
        v = self.noisy(u, env, d - 1)
        env1 = env + [(x, u)]
        body = self.exp(ty, env1 if t.bool() else env, d - 2)
        body = [S('do'), self.use(x, u, env1, d - 2), body]
        if t.bool():
            body = [S('do'), self.effect(env, d - 2), body]
        if t.bool(1, 3):
            return [[S('lambda'), [x], body], v]
        return [S('let'), x, v, body]

    def g_emit(self, ty, env, d):
        return [S('vt#emit'), self.exp(ty, env, d - 1)]

    def effect(self, env, d):
        t = self.t
        k = t.weighted([(4, 'emit'), (3 if self.mut and self.c['globs'] else 0, 'setg')])
        if k == 'setg':
            n, vt = t.pick(self.mut)
            return [S('set'), q(n), self.exp(vt, env, d - 1)]
        return [S('vt#emit'), self.exp(self.type(1, False), env, d - 1)]

    def g_begin(self, ty, env, d):
        n = self.t.weighted([(4, 1), (2, 2), (1, 3)])
        h = 'begin' if n > 1 or self.t.bool() else 'do'
        if not self.c['macros']:
            h, n = 'do', 1
        return [S(h)] + [self.effect(env, d) for _ in range(n)] + [self.exp(ty, env, d - 1)]

    def g_getg(self, ty, env, d):
        n = self.t.pick([n for n, vt in self.mut if vt == ty])
        return [S('value'), q(n)]

    def g_cell(self, ty, env, d):
        c = self.local()
        u = self.type(1, False)
        x = self.local([c])
        env2 = [(n, vt) for n, vt in env if n != c] + [(c, ('cell', u))]
        get = [S('value'), c]
        steps = [[S('set'), c, self.exp(u, env, d - 1)]]
        if self.t.bool():
            steps.append([S('set'), c, self.exp(u, env2 + [], d - 1)])
        return [S('let'), c, [S('gensym')],
                [S('begin')] + steps +
                [[S('let'), x, get, self.exp(ty, env2 + [(x, u)], d - 1)]]] \
            if self.c['macros'] else self.g_let(ty, env, d)

    def g_vec(self, ty, env, d):
        if not self.c['macros']:
            return self.g_let(ty, env, d)
        t = self.t
        n = t.between(1, 4)
        u = self.type(1, False)
        v = self.local()
        env1 = [(x, vt) for x, vt in env if x != v]
        steps = [[S('vector-set!'), v, i, self.exp(u, env1, d - 2)] for i in t.shuffle(range(n))]
        if t.bool():
            steps.append([S('vector-set!'), v, t.below(n), [S('vector-ref'), v, t.below(n)]])
        x = self.local([v])
        return [S('let'), v, [S('vector'), n],
                [S('begin')] + steps +
                [[S('let'), x, [S('vector-ref'), v, t.below(n)],
                  self.exp(ty, env1 + [(x, u)], d - 1)]]]

    # ---- calls
    def flat(self, vt):
        """Every (args, ret) a value of this type can be called with."""
        out = []
        args = []
        while isinstance(vt, tuple) and vt[0] == 'fn':
            for i, a in enumerate(vt[1]):
                args = args + [a]
                rest = vt[1][i + 1:]
                out.append((args, F(rest, vt[2]) if rest else vt[2]))
            vt = vt[2]
        return out

    def ret_of(self, vt):
        return vt[2]

    def callables(self, ty, env):
        out = []
        seen = set()
        for n, vt in list(reversed(env)) + self.globs:
            if n in seen:
                continue
            seen.add(n)
            if isinstance(vt, tuple) and vt[0] == 'fn':
                for args, ret in self.flat(vt):
                    if ret == ty:
                        out.append((n, args))
        return out

    def group(self, f, args):
        """Apply f to args, cut into several calls."""
        t = self.t
        while args:
            k = len(args) if not self.c['curry'] or t.bool(2, 3) else t.between(1, len(args))
            f = [f] + args[:k]
            args = args[k:]
        return f

    def g_call(self, ty, env, d):
        n, args = self.t.pick(self.callables(ty, env))
        vals = []
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == 'fn':
                vals.append(self.fnarg(a, env, d - 1))
            else:
                vals.append(self.exp(a, env, d - 1))
        if (n, 'fuel') in self.fuel:
            vals[0] = self.t.below(6)
        if self.t.bool(1, 12) and self.c['hof']:
            return [S('apply'), n, [S('%list')] + vals]
        return self.group(n, vals)

    def g_beta(self, ty, env, d):
        k = self.t.between(1, 3)
        tys = [self.type(1) for _ in range(k)]
        f = self.lam(F(tys, ty), env, d)
        return self.group(f, [self.exp(a, env, d - 1) for a in tys])

    # ---- match
    def pattern(self, ty, d, binds, used):
        t = self.t
        k = t.weighted([(4, 'var'), (2, 'lit'), (4 if isinstance(ty, tuple) else 0, 'cons')])
        if d <= 0 and k == 'cons':
            k = 'var'
        if k == 'lit' and ty in (INT, BOOL, SYM, STR):
            if ty == SYM:
                return q(S(t.pick(SYMS[:6])))
            if ty == STR:
                return t.pick(STRS[:4])
            return t.below(3) if ty == INT else t.bool()
        if k == 'lit' and isinstance(ty, tuple) and ty[0] == 'list':
            return []
        if k == 'cons' and ty[0] == 'list':
            u = ty[1]
            h = t.weighted([(3, 'cons'), (3, '%list'), (2, 'dot'), (1, 'list-rest')])
            if h == 'cons':
                return [S('cons'), self.pattern(u, d - 1, binds, used),
                        self.pattern(ty, d - 1, binds, used)]
            n = t.between(1, 3)
            es = [self.pattern(u, d - 1, binds, used) for _ in range(n)]
            if h == '%list':
                return [S('%list')] + es
            tail = self.pattern(ty, d - 2, binds, used)
            if h == 'dot':
                return [S('%list')] + es + [S('.'), tail]
            return [S('list-rest')] + es + [tail]
        if t.bool(1, 4):
            return S('_')
        n = self.local(used)
        used.append(n)
        binds.append((n, ty))
        return n

    def rules(self, tys, ret, env, d):
        """Pattern rules; the last one always matches."""
        out = []
        for _ in range(self.t.between(1, 3)):
            binds, used = [], []
            ps = [self.pattern(u, 2, binds, used) for u in tys]
            e2 = env + binds
            pred = self.exp(BOOL, e2, d - 2) if self.t.bool(1, 3) else None
            out.append((ps, self.exp(ret, e2, d - 1), pred))
        binds, used = [], []
        ps = []
        for u in tys:
            if self.t.bool():
                ps.append(S('_'))
            else:
                n = self.local(used)
                used.append(n)
                binds.append((n, u))
                ps.append(n)
        out.append((ps, self.exp(ret, env + binds, d - 1), None))
        return out

    def g_match(self, ty, env, d):
        t = self.t
        if t.bool(1, 3):
            # a literal list of variables as scrutinee
            n = t.between(1, 3)
            tys = [self.type(1, False) for _ in range(n)]
            sc = []
            for u in tys:
                vs = self.vars(u, env)
                if d > 1 and t.bool(1, 3):
                    sc.append(self.exp(u, env, d - 2))
                else:
                    sc.append(t.pick(vs) if vs else self.simple(u))
            out = [S('match'), [S('%list')] + sc]
            for ps, act, pred in self.rules(tys, ty, env, d):
                out.append([S('%list')] + ps)
                out.append(act if pred is None else [S('where'), pred, act])
            return out
        u = self.type(2, False)
        sc = self.exp(u, env, d - 1)
        out = [S('match'), sc]
        for ps, act, pred in self.rules([u], ty, env, d):
            out.append(ps[0])
            out.append(act if pred is None else [S('where'), pred, act])
        return out

    def simple(self, u):
        if u in (INT, BOOL, STR, SYM):
            return self.lit(u, [], 0)
        return q([self.datum(u[1]) for _ in range(self.t.below(3))]) \
            if not isinstance(u[1], tuple) else []

    # ---- try
    def g_throw(self, ty, env, d):
        return [S('throw'), self.exp(INT, env, d - 1)]

    def g_tcall(self, ty, env, d):
        n, vt = self.t.pick([(n, vt) for n, vt in self.throwers if vt[2] == ty])
        vals = [self.exp(a, env, d - 1) for a in vt[1]]
        if (n, 'fuel') in self.fuel:
            vals[0] = self.t.below(6)
        return [n] + vals

    def g_try(self, ty, env, d):
        t = self.t
        sv, self.in_try = self.in_try, True
        body = self.exp(ty, env, d - 1)
        self.in_try = sv
        v, k = self.locals(2)
        hk = t.weighted([(4, 'resume'), (3, 'drop'), (3, 'wrap'), (2, 'any'), (2, 'maybe')])
        env2 = [(n, vt) for n, vt in env if n != k] + [(v, INT)]
        envk = [(n, vt) for n, vt in env2 if n != k] + [(k, F([INT], ty))]
        if hk == 'resume':
            h = [k, self.exp(INT, env2, d - 2)]
        elif hk == 'drop':
            h = self.exp(ty, env2, d - 1)
        elif hk == 'wrap':
            r = self.local([k])
            h = [S('let'), r, [k, self.exp(INT, env2, d - 2)],
                 self.exp(ty, [(n, vt) for n, vt in env2] + [(r, ty)], d - 1)]
        elif hk == 'maybe':
            h = [S('if'), self.exp(BOOL, env2, d - 2), [k, self.exp(INT, env2, d - 2)],
                 self.exp(ty, env2, d - 2)]
        else:
            h = self.exp(ty, envk, d - 1)
        return [S('try'), [S('lambda'), [], body], [S('lambda'), [v, k], h]]

    # ---- definitions
    fuel = ()

    def define(self):
        t = self.t
        c = self.c
        kinds = [(5, 'fn'), (c['recur'], 'tail'), (c['recur'], 'rec'), (2, 'const')]
        if c['macros'] and c['match']:
            kinds += [(c['match'], 'func'), (c['recur'], 'listrec')]
        if c['globs']:
            kinds.append((2, 'mut'))
        if c['tries']:
            kinds.append((c['tries'], 'thrower'))
        k = t.weighted(kinds)
        d = c['depth'] - 1
        if k == 'const':
            n = self.fresh('c')
            ty = self.type(2)
            self.defs.append([S('def'), n, self.exp(ty, [], d - 1)])
            self.globs.append((n, ty))
            return
        if k == 'mut':
            n = self.fresh('m')
            ty = self.type(1, False)
            self.defs.append([S('def'), n, self.exp(ty, [], d - 2)])
            self.mut.append((n, ty))
            return
        ret = self.type(2)
        if k in ('fn', 'thrower'):
            n = self.fresh('f')
            tys = [self.type(2) for _ in range(t.between(1, 6) if t.bool(1, 5) else t.between(1, 3))]
            ps = self.locals(len(tys))
            self.in_try = k == 'thrower'
            body = self.exp(ret, list(zip(ps, tys)), d)
            self.in_try = False
            if k == 'thrower':
                body = [S('do'), [S('throw'), self.exp(INT, list(zip(ps, tys)), 1)], body] \
                    if t.bool(1, 3) else body
                if not isinstance(ret, tuple) or ret[0] != 'fn':
                    self.throwers.append((n, F(tys, ret)))
                    self.defs.append([S('defun'), n, ps, body])
                    return
            self.defs.append([S('defun'), n, ps, body] if c['macros'] else
                             [S('def'), n, [S('lambda'), ps, body]])
            self.globs.append((n, F(tys, ret)))
        elif k in ('tail', 'rec'):
            n = self.fresh('r')
            if k == 'tail':
                tys = [INT, ret] + [self.type(1, False) for _ in range(t.below(3))]
                ps = self.locals(len(tys))
                env = list(zip(ps, tys))
                args = [[S('-'), ps[0], 1]] + [self.exp(u, env, d - 2) for u in tys[1:]]
                body = [S('if'), [S('<'), ps[0], 1], self.exp(ret, env, 1), [n] + args]
                if t.bool(1, 4):
                    body = [S('if'), self.exp(BOOL, env, d - 2), body,
                            self.exp(ret, env, 1)]
            else:
                tys = [INT] + [self.type(1, False) for _ in range(t.below(3))]
                ps = self.locals(len(tys))
                env = list(zip(ps, tys))
                r = self.local([n])
                rec = [n, [S('-'), ps[0], 1]] + [self.exp(u, env, d - 3) for u in tys[1:]]
                body = [S('if'), [S('<'), ps[0], 1], self.exp(ret, env, 1),
                        [S('let'), r, rec, self.exp(ret, env + [(r, ret)], d - 2)]]
            self.defs.append([S('defun'), n, ps, body] if c['macros'] else
                             [S('def'), n, [S('lambda'), ps, body]])
            self.fuel = tuple(self.fuel) + ((n, 'fuel'),)
            self.globs.append((n, F(tys, ret)))
        elif k == 'func':
            n = self.fresh('u')
            tys = [self.type(2, False) for _ in range(t.between(1, 3))]
            out = [S('func'), n]
            for ps, act, pred in self.rules(tys, ret, [], d):
                out += ps + [S('=>'), act]
                if pred is not None:
                    out += [S('where'), pred]
            self.defs.append(out)
            self.globs.append((n, F(tys, ret)))
        elif k == 'listrec':
            n = self.fresh('w')
            u = self.type(1, False)
            x, y = self.locals(2)
            extra = [self.type(1, False) for _ in range(t.below(2))]
            ps0, ps1 = self.locals(len(extra)), []
            for _ in extra:
                ps1.append(self.local([x, y] + ps1))
            e0 = self.exp(ret, list(zip(ps0, extra)), d - 2)
            env1 = list(zip(ps1, extra)) + [(x, u)]
            r = self.local()
            rec = [n] + [self.exp(v, env1, d - 3) for v in extra] + [y]
            out = [S('func'), n] + ps0 + [[], S('=>'), e0] + ps1 + \
                [[S('%list'), x, S('.'), y], S('=>'),
                 [S('let'), r, rec, self.exp(ret, env1 + [(r, ret)], d - 2)]]
            self.defs.append(out)
            self.globs.append((n, F(extra + [L(u)], ret)))

    def program(self):
        t = self.t
        for _ in range(t.between(0, self.c['fns'])):
            self.define()
        k = t.between(1, 3)
        parts = [self.exp(self.type(2, False), [], self.c['depth']) for _ in range(k)]
        body = parts[0] if k == 1 else [S('%list')] + parts
        return dict(defs=self.defs, body=body)


# ---- output --------------------------------------------------------------

def rename(x, pre):
    if isinstance(x, Sym):
        return Sym(pre + x[1:]) if x.startswith('@') else x
    if isinstance(x, list):
        return [rename(e, pre) for e in x]
    return x


def source(case, idx, thunk=None):
    pre = 'k%d-' % idx
    out = [text(rename(d, pre)) for d in case['defs']]
    out.append('(vt#case %d (lambda () %s))' % (idx, text(rename(case['body'], pre))))
    return '\n'.join(out) + '\n'


def show_case(case):
    return '\n'.join(text(d) for d in case['defs'] + [case['body']])


def expected(case, fuel=60000, depth=3000):
    """-> (events text, machine) or Discard."""
    m = Machine(fuel, depth)
    try:
        for d in case['defs']:
            m.run(d)
        n = len(m.events)
        v = m.run(case['body'])
        out = m.events[n:] + ['=> ' + show(v)]
    except Bad as e:
        raise Discard(str(e))
    except RecursionError:
        raise Discard('recursion')
    return '\n'.join(out) + '\n', m


# ---- the size of the generated C ----------------------------------------

def cost(x, rest=0, cap=1 << 20):
    if rest > cap:
        return rest
    if not isinstance(x, list) or not x:
        return 1 + rest
    h = x[0] if isinstance(x[0], Sym) else None
    if h == 'quote':
        return 1 + rest + len(str(x)) // 8
    if h == 'lambda':
        return 2 + cost(x[2]) + rest
    if h == 'if':
        return cost(x[1], 1 + cost(x[2], rest) + cost(x[3], rest))
    if h in ('and', 'or'):
        r = 1 + rest
        for e in reversed(x[1:]):
            r = cost(e, 2 + r + rest)
        return r
    if h == 'cond':
        r = rest
        for c, e in reversed(x[1:]):
            r = cost(c, 1 + cost(e, rest) + r)
        return r
    if h == 'let':
        r = cost(x[-1], rest)
        i = len(x) - 2
        while i >= 2:
            r = cost(x[i], 1 + r)
            i -= 2
        return r
    if h == 'match':
        tot = 2
        for i in range(2, len(x) - 1, 2):
            act = x[i + 1]
            k = _psize(x[i])
            if isinstance(act, list) and act and act[0] == 'where':
                a = cost(act[1], 1 + cost(act[2], rest if i == 2 else 0) + (rest if i == 2 else 0))
            else:
                a = cost(act, rest if i == 2 else 0)
            tot += a + k * (2 + (rest if i == 2 else 0))
        return cost(x[1], tot)
    if h == 'func':
        n, rules = lang.func_rules(x)
        return 2 + sum(cost(a) + (cost(p) if p is not None else 0) +
                       2 * sum(_psize(q_) for q_ in ps) for ps, a, p in rules)
    if h in ('defun', 'def'):
        return cost(x[-1])
    if h == 'backquote':
        x = lang.bq(x[1])
        return cost(x, rest) if isinstance(x, list) and x[0] != 'backquote' else 1 + rest
    r = 1 + len(x) + rest
    for e in reversed(x):
        r = cost(e, r)
    return r


def _psize(p):
    if not isinstance(p, list):
        return 0 if isinstance(p, Sym) else 1
    if p and p[0] == 'quote':
        return 1
    return 1 + sum(_psize(e) for e in p[1:])


def program(t, maxcost=900, need=None, **cfg):
    g = Gen(t, maxcost=maxcost, **cfg)
    case = g.program()
    c = sum(cost(d) for d in case['defs']) + cost(case['body'])
    if c > maxcost:
        raise Discard('large')
    out, m = expected(case)
    if len(out) > 30000:
        raise Discard('long')
    case['expect'] = out
    case['stat'] = m.stat
    case['steps'] = m.steps
    case['cost'] = c
    return case


def pcost(x):
    """The work of the partial evaluator, which visits an applied lambda twice."""
    if not isinstance(x, list) or not x:
        return 1
    h = x[0]
    if isinstance(h, Sym):
        if h == 'quote':
            return 1
        return 1 + sum(pcost(e) for e in x[1:])
    return 1 + 2 * pcost(h) + sum(pcost(e) for e in x[1:])
