"""C04: any grouping of arguments is the same application."""
from pbt import gen
from pbt.core import Discard
from pbt.lang import Sym as S
from pbt.progcheck import ProgCheck


class G:
    def __init__(self, t):
        self.t = t
        self.n = 0
        self.defs = []
        self.funs = []      # (name, arity)
        self.budget = 26

    def var(self):
        self.n += 1
        return S('v%d' % self.n)

    def int(self, env):
        t = self.t
        k = t.weighted([(3, 'lit'), (4, 'var'), (4, 'emit'), (1, 'call'), (1, 'op')])
        if k == 'var' and env:
            return t.pick(env)
        if k == 'emit':
            return [S('vt#emit'), t.below(100)]
        if k == 'op':
            return [S(t.pick(['+', '-', '*'])), t.below(9), self.int(env)]
        if k == 'call' and self.budget > 0:
            self.budget -= 3
            return [S('length'), self.app(self.fn(2, env, lst=True), [self.int(env), self.int(env)])]
        return t.below(50)

    def fn(self, n, env, d=3, lst=False):
        """An expression for a curried function of n integers; with lst it
        returns a list, otherwise an integer or a list."""
        t = self.t
        self.budget -= 1
        leaf = d <= 0 or self.budget <= 0
        opts = [(6, 'lam')]
        have = [f for f, a, l in self.funs if a == n and (l or not lst)]
        if have:
            opts.append((6, 'var'))
        if not lst and n == 2:
            opts.append((4, 'prim'))
        if n == 2:
            opts.append((2, 'cons'))
        if not lst and n == 1 and not leaf:
            opts.append((3, 'primpart'))
        if not leaf:
            opts += [(4, 'cur'), (2, 'id'), (2, 'if'), (2, 'let')]
        k = t.weighted(opts)
        if k == 'var':
            return t.pick(have)
        if k == 'prim':
            f = S(t.pick(['+', '-', '*', '<', '=']))
            return [f] if t.bool(1, 5) else f
        if k == 'cons':
            f = S('cons')
            return f
        if k == 'primpart':
            return [S(t.pick(['+', '-', '*', '<', '>'])), self.int(env)]
        if k == 'cur':
            j = t.between(1, 3)
            return self.app(self.fn(n + j, env, d - 1, lst), [self.int(env) for _ in range(j)])
        if k == 'id':
            x = self.var()
            return [[S('lambda'), [x], x], self.fn(n, env, d - 1, lst)]
        if k == 'if':
            return [S('if'), [S('<'), self.int(env), self.int(env)], self.fn(n, env, d - 1, lst),
                    self.fn(n, env, d - 1, lst)]
        if k == 'let':
            x = self.var()
            return [S('let'), x, self.int(env), self.fn(n, env + [x], d - 1, lst)]
        # nested lambdas over a random composition of n
        groups = []
        left = n
        while left > 0:
            g = left if t.bool(1, 2) else t.between(1, left)
            groups.append([self.var() for _ in range(g)])
            left -= g
            if t.bool(1, 12):
                groups.append([])
        ps = [p for g in groups for p in g]
        e2 = env + ps
        body = self.body(ps, e2, d - 1, lst)
        for i, g in enumerate(reversed(groups)):
            body = [S('lambda'), g, body]
            if i + 1 < len(groups) and t.bool(1, 4):
                body = [S('do'), [S('vt#emit'), t.below(100)], body]
        return body

    def body(self, ps, env, d, lst):
        t = self.t
        k = t.weighted([(5, 'list'), (4 if d > 0 and self.budget > 0 else 0, 'call'),
                        (1, 'list2'), (1 if d > 0 and self.budget > 0 else 0, 'try')])
        if k == 'list':
            return [S('%list')] + list(t.shuffle(ps))
        if k == 'list2':
            return [S('%list')] + ps + [self.int(env)]
        m = t.between(1, 5)
        c = self.app(self.fn(m, env, d, True), [t.pick(ps) if t.bool() else self.int(env)
                                                for _ in range(m)])
        if k == 'try':
            return [S('try'), [S('lambda'), [], c],
                    [S('lambda'), [self.var(), self.var()], 0]]
        return c

    def app(self, f, args):
        t = self.t
        args = list(args)
        while args:
            k = t.between(0, len(args)) if t.bool(2, 3) else len(args)
            g, args = args[:k], args[k:]
            how = t.weighted([(8, 'call'), (1, 'apply'), (1, 'applyp')])
            if isinstance(f, S) and f in ('+', '-', '*', '<', '=', '>', 'cons'):
                how = 'call' if len(g) <= 2 else 'apply'
            if how == 'call' or not g:
                f = [f] + g
            elif how == 'apply':
                f = [S('apply'), f, [S('%list')] + g]
            else:
                f = [[S('apply'), f], [S('%list')] + g]
        return f

    def program(self):
        t = self.t
        for _ in range(t.between(0, 3)):
            n = t.between(1, 9) if t.bool(1, 3) else t.between(1, 4)
            lst = t.bool()
            self.budget = 12
            nm = S('@f%d' % len(self.funs))
            # by way of a thunk: a branch at the toplevel of a file copies the rest of it
            self.defs.append([S('defun'), S(nm + 't'), [], self.fn(n, [], 3, lst)])
            self.defs.append([S('def'), nm, [S(nm + 't')]])
            self.funs.append((nm, n, lst))
        parts = []
        for _ in range(t.between(1, 3)):
            self.budget = 16
            n = t.between(1, 12) if t.bool(1, 3) else t.between(1, 5)
            f = self.fn(n, [])
            if t.bool():
                x = self.var()
                e = [S('let'), x, f, self.app(x, [self.int([]) for _ in range(n)])]
            else:
                e = self.app(f, [self.int([]) for _ in range(n)])
            if t.bool(1, 4):
                x = self.var()
                e = [[S('lambda'), [x], e], 0]
            parts.append(e)
        return dict(defs=self.defs, body=parts[0] if len(parts) == 1 else [S('%list')] + parts)


class C(ProgCheck):
    id = 'C04'
    technique = 'random curried functions and random cuts of their argument lists, against a reference'
    note = ('Functions of 1 to 12 arguments as nested lambdas, primitives, partial applications and '
            'values of let/if; their arguments are applied in random groups, some through apply, in '
            'tail and operand position, compiled and interpreted, and compared with the reference, '
            'which gives every grouping the same meaning. Too many arguments in one call of an '
            'inline primitive are outside the language.')
    rule = ('A case is a random program of curried functions applied in random argument groups. '
            'Non-trivial: a partial application or an over-application happens.')
    quick_n = 2600
    thorough_n = 50000
    batch = 26
    quick_time = 50

    def gen(self, t):
        case = G(t).program()
        if sum(gen.cost(x) for x in case['defs'] + [case['body']]) > 900:
            raise Discard('large')
        if sum(gen.pcost(x) for x in case['defs'] + [case['body']]) > 1500:
            raise Discard('slow')
        out, m = gen.expected(case)
        case.update(expect=out, stat=m.stat, steps=m.steps)
        return case

    def nontrivial(self, c):
        return bool(c['stat'].get('partial') or c['stat'].get('overapply'))
