"""C09: user macros expand like functions over source."""
import re
from pbt import gen, lang
from pbt.core import Discard
from pbt.gen import INT, L
from pbt.lang import Sym as S
from pbt.prog import judge
from pbt.progcheck import ProgCheck

PRE = re.compile(r'\bk\d+-')


class MGen(gen.Gen):
    """gen.Gen with uses of macros defined first."""

    def __init__(self, t, **cfg):
        gen.Gen.__init__(self, t, **cfg)
        self.macros = []        # (name, kind, nargs)
        self.mdefs = []

    # ---- definitions
    def tmpl(self, args, d, bound):
        """A template: ('arg', i) and source."""
        t = self.t
        if d <= 0 or t.bool(1, 4):
            k = t.weighted([(5, 'arg'), (2, 'lit'), (2 if bound else 0, 'var')])
            if k == 'arg' and args:
                return ('arg', t.pick(args))
            if k == 'var':
                return t.pick(bound)
            return t.below(20)
        k = t.weighted([(4, 'op'), (2, 'if'), (2, 'let'), (1, 'beta'), (1, 'emit'), (1, 'cond'),
                        (1, 'match'), (3 if self.macros else 0, 'macro'), (1, 'do')])
        r = lambda b=(): self.tmpl(args, d - 1, bound + list(b))
        if k == 'op':
            return [S(t.pick('+-')), r(), r()]
        if k == 'if':
            return [S('if'), [S('<'), r(), r()], r(), r()]
        x = self.local() if t.bool(1, 3) else S('m%d' % t.below(5))
        if k == 'let':
            return [S('let'), x, r(), r([x])]
        if k == 'beta':
            return [[S('lambda'), [x], r([x])], r()]
        if k == 'emit':
            return [S('vt#emit'), r()]
        if k == 'do':
            return [S('begin'), [S('vt#emit'), t.below(9)], r()]
        if k == 'cond':
            return [S('cond'), [[S('='), r(), r()], r()], [True, r()]]
        if k == 'match':
            return [S('match'), r(), t.below(5), r(), x, r([x])]
        ms = [m for m in self.macros if m[1] == 'int']
        if not ms:
            return ('arg', t.pick(args)) if args else 1
        n, _, k = t.pick(ms)
        return [n] + [r() for _ in range(t.below(4) if k < 0 else k)]

    def quasi(self, x, style):
        """Code that builds the template."""
        if isinstance(x, tuple):
            return x[1] if style != 'bq' else [S('unquote'), x[1]]
        if style == 'bq':
            return [self.quasi(y, style) for y in x] if isinstance(x, list) else x
        if isinstance(x, S):
            return [S('quote'), x]
        if isinstance(x, list):
            h = S('list') if style == 'list' else S('%list')
            return [h] + [self.quasi(y, style) for y in x] if x else []
        return x

    def defmacro(self):
        t = self.t
        k = t.weighted([(6, 'tmpl'), (2, 'fold'), (1, 'lit'), (1, 'quote'), (1, 'pat'), (1, 'with'),
                        (1, 'fn'), (1, 'rev'), (1, 'count')])
        n = S('@q%d' % len(self.macros))
        e = S('exp')
        I = S
        if k == 'tmpl':
            a = t.below(4)
            names = [S('arg%d' % i) for i in range(a)]
            body = self.tmpl(names, 3, [])
            style = t.pick(['bq', 'list', 'br'])
            code = self.quasi(body, style)
            if style == 'bq':
                code = [S('backquote'), code]
            if t.bool() and a:
                code = [S('match'), e, [S('%list'), S('_')] + names, code]
            else:
                for i in reversed(range(a)):
                    acc = [S('cdr'), e]
                    for _ in range(i):
                        acc = [S('cdr'), acc]
                    code = [S('let'), names[i], [S('car'), acc], code]
            kind = 'int'
        elif k == 'fold':
            # recursive and variadic
            op = t.pick(['+', '-', 'let', 'if'])
            x, r = S('x'), S('r')
            step = {'+': [S('%list'), [S('quote'), S('+')], x, [S('cons'), [S('quote'), n], r]],
                    '-': [S('%list'), [S('quote'), S('-')], [S('cons'), [S('quote'), n], r], x],
                    'let': [S('%list'), [S('quote'), S('let')], [S('quote'), S('acc')], x,
                            [S('%list'), [S('quote'), S('+')], [S('quote'), S('acc')],
                             [S('cons'), [S('quote'), n], r]]],
                    'if': [S('%list'), [S('quote'), S('if')], [S('%list'), [S('quote'), S('>')], x, 5], x,
                           [S('cons'), [S('quote'), n], r]]}[op]
            code = [S('match'), [S('cdr'), e], [], t.below(9), [S('cons'), x, r], step]
            kind, a = 'int', -1
        elif k == 'lit':
            # looks at its argument
            x = S('x')
            code = [S('let'), x, [S('cadr'), e],
                    [S('cond'), [[S('number?'), x], [S('+'), x, 100]],
                     [[S('symbol?'), x], [S('list'), [S('quote'), S('+')], x, 1]],
                     [[S('cons?'), x], [S('list'), [S('quote'), S('+')], 2, x]],
                     [True, 7]]]
            kind, a = 'int', 1
        elif k == 'quote':
            code = t.pick([[S('list'), [S('quote'), S('quote')], [S('cadr'), e]],
                           [S('list'), [S('quote'), S('quote')], e],
                           [S('list'), [S('quote'), S('quote')], [S('reverse'), [S('cdr'), e]]]])
            kind, a = 'quote', 1
        elif k == 'pat':
            code = t.pick([[S('list'), [S('quote'), S('cons')], [S('cadr'), e], [S('caddr'), e]],
                           [S('backquote'), [S('list'), [S('unquote'), [S('cadr'), e]], [S('unquote'), [S('caddr'), e]]]],
                           [S('list'), [S('quote'), S('list-rest')], 1, [S('cadr'), e], [S('caddr'), e]]])
            kind, a = 'pat', 2
        elif k == 'with':
            code = [S('list'), [S('quote'), S('let')], [S('cadr'), e], [S('caddr'), e], [S('cadddr'), e]]
            kind, a = 'with', 3
        elif k == 'fn':
            code = [S('list'), [S('quote'), S('lambda')], [S('cadr'), e], [S('caddr'), e]]
            kind, a = 'fn', 2
        elif k == 'count':
            code = [S('length'), e]
            kind, a = 'int', -1
        else:
            code = [S('cons'), [S('quote'), S('-')], [S('reverse'), [S('cdr'), e]]]
            kind, a = 'int', 2
        self.mdefs.append([S('defmacro'), n, [e], code])
        self.macros.append((n, kind, a))

    # ---- uses
    def more(self, ty, env, d):
        return [(18, 'macro')] if ty == INT and self.macros else []

    def g_macro(self, ty, env, d):
        t = self.t
        n, k, a = t.pick(self.macros)
        if k == 'int':
            return [n] + [self.exp(INT, env, d - 1) for _ in range(t.below(4) if a < 0 else a)]
        if k == 'quote':
            x = t.pick([[n, t.below(9)], [n, [S(t.pick(['a', 'if', 'f', 'let'])), t.below(3), [n, 1]]],
                        [n, [t.pick(self.macros)[0], 1, S('b')]]])
            return [S('do'), [S('vt#emit'), x], self.exp(INT, env, d - 1)]
        if k == 'pat':
            lst = self.exp(L(INT), env, d - 1)
            v, w = self.locals(2)
            return [S('match'), lst, [n, v, w], self.exp(INT, env + [(v, INT)], d - 1),
                    S('_'), self.exp(INT, env, d - 2)]
        if k == 'with':
            v = self.local()
            return [n, v, self.exp(INT, env, d - 1), self.exp(INT, env + [(v, INT)], d - 1)]
        vs = self.locals(t.between(1, 2))
        return [[n, vs, self.exp(INT, env + [(v, INT) for v in vs], d - 1)]] + \
            [self.exp(INT, env, d - 2) for _ in vs]


def full(m, x):
    """x with every user macro expanded (for its size only)."""
    for _ in range(200):
        if isinstance(x, list) and x and isinstance(x[0], S) and str(x[0]) in m.macros:
            x = m.expand(x)
        else:
            break
    if isinstance(x, list) and x and isinstance(x[0], S):
        if x[0] == 'quote' or len(x) < 3 and x[0] == 'lambda':
            return x
        if x[0] == 'lambda':
            return [x[0], x[1], full(m, x[2])]
    return [full(m, y) for y in x] if isinstance(x, list) else x


class C(ProgCheck):
    id = 'C09'
    technique = 'random macro definitions and uses, against a reference expander and evaluator'
    note = ('Random template, recursive, variadic, argument-inspecting, quoting, binding, pattern '
            'and lambda macros, written with backquote, list and match, are used in random '
            'programs, inside each other and inside quotes; effects and values must equal those '
            'of a reference that expands a form when it meets it. Interpreted, and compiled with '
            'the macros loaded beforehand.')
    rule = ('A case is one to four macros and a program using them. Non-trivial: at least two '
            'expansions.')
    quick_n = 3000
    thorough_n = 30000
    batch = 24
    quick_time = 50

    def gen(self, t):
        g = MGen(t, fns=2, depth=3, match=1, cells=False, vecs=False, globs=False, strs=False)
        for _ in range(t.between(1, 4)):
            g.defmacro()
        case = g.program()
        if t.bool(1, 3):
            case['body'] = [S('do'), [S('vt#emit'), [S('quote'), [t.pick(g.macros)[0], 1, [t.pick(g.macros)[0], 2]]]],
                            case['body']]
        case['macros'] = g.mdefs
        m = lang.Machine(60000, 2000)
        try:
            for d in g.mdefs:
                m.run(d)
            c = 0
            for x in case['defs'] + [case['body']]:
                c += gen.cost(full(m, x))
                if c > 900:
                    raise Discard('large')
            for d in case['defs']:
                m.run(d)
            n = len(m.events)
            v = m.run(case['body'])
        except lang.Bad as e:
            raise Discard(str(e))
        except RecursionError:
            raise Discard('recursion')
        if not m.stat.get('expand'):
            raise Discard('no macro')
        out = '\n'.join(m.events[n:] + ['=> ' + lang.show(v)]) + '\n'
        if len(out) > 20000:
            raise Discard('long')
        case.update(expect=out, stat=dict(m.stat), steps=m.steps, kinds=[k for _, k, _ in g.macros])
        return case

    def macro_text(self, c, idx):
        return ''.join(lang.text(gen.rename(d, 'k%d-' % idx)) + '\n' for d in c['macros'])

    def run(self, cases):
        out = [None] * len(cases)
        for mode in ('eval', 'compiled'):
            ids = [i for i, r in enumerate(out) if r is None]
            r = self.runner.run(lambda i, j: gen.source(cases[ids[i]], j), len(ids), mode=mode,
                                macros=lambda i, j: self.macro_text(cases[ids[i]], j))
            for i, (st, got) in zip(ids, r):
                m = judge(cases[i]['expect'], (st, got if st == 'bad' else PRE.sub('@', got)))
                if m is not None:
                    k, _, rest = m.partition(':')
                    out[i] = '%s (%s):%s' % (k, mode, rest)
        return out

    def nontrivial(self, c):
        return c['stat'].get('expand', 0) >= 2

    def labels(self, c):
        return ['macro ' + k for k in c['kinds']] + \
            ['expansions>=%d' % (10 ** (len(str(c['stat'].get('expand', 0))) - 1))]

    def show(self, c):
        return '\n'.join(lang.text(d) for d in c['macros']) + '\n' + ProgCheck.show(self, c)

    def key(self, c):
        return self.show(c)
