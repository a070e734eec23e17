"""C17: names and literals survive compilation."""
from pbt import sexp
from pbt.core import Discard
from pbt.lang import Sym
from pbt.libcheck import LibCheck, blit

RESERVED = set('''name defmacro-macro defun let cond or and list-rest match func begin backquote fold-apply package
    defmacro list quote if lambda do def import export unquote where => _ set car cdr cons cons? + - * / = > < gensym
    symbol? not integer? string? macro-expand debug-eval eval value true false try throw apply null? map append
    -> values let-values intern vt#case vt#emit vt#bytes macroexpand error *package* . vector vector-ref vector-set! load reverse filter'''.split())
BASES = ['a', 'b', 'x', 'foo', 'x-y', 'foo-bar', 'foo_bar', 'a_2db', 'a-b', '_', '__', 'v', 'v_', 'v_a', 'x1', 'X', 'A-B',
         'int', 'return', 'struct', 'for', 'while', 'char', 'static', 'default', 'sizeof', 'NULL', 'main', 'entry', 'co',
         'R', 'label', 'Obj', 'Nil', 'True', 'False', 'makeNumber', 'coraCall', 'coraReturn', 'errno', 'stdin',
         '__LINE__', 'unix', 'linux', 'I', 'asm', 'clofun0', 'clofun1', 'reg0', 'x?', 'x!', '->x', 'x->y', '*x*', '%', '%d',
         '$', '&a', '|', '~', '^', '@', '{', '}', '<=', '>=', '!=', '==', '1+', 'a.b', '..', '...', 'a/b', 'a:b', ':k',
         'a#b', '#a', '#1', '-x', '--', '+x', 'a\\n', '\\', '\xe9', '\xff\xfe', 'co-res', 'stack', 'closureRef', 'this',
         'printf', 'exit', 'abort', 'k', 'n', 'res', 'tmp', 'ret', 'gensym1', 'oid', 'olatile', '#g1', 'e9', '0x'[1:], 'v230']


def name(t, pool):
    k = t.below(8)
    if k < 3:
        s = t.pick(BASES)
    elif k < 6 and pool:
        s = t.pick(pool)
        m = t.below(10)
        if m == 0:
            s = s + t.pick(['1', '_', '-', '?', "a", 'A', '2d', '\x01', '\x7f'])
        elif m == 1:
            s = s.replace('-', '_') if '-' in s else s.replace('_', '-')
        elif m == 2:
            s = s.replace('-', '_2d').replace('_', '_5f', 1)
        elif m == 3:
            s = s.swapcase() if s.isascii() else s + 'x'
        elif m == 4:
            s = 'v_' + s
        elif m == 5:
            s = s.replace('_', '__')
        elif m == 6:
            s = s[:-1] or 'q'
        elif m == 7:
            s = s + 'x' * t.pick([60, 200, 256, 300]) + t.pick(['', 'y', 'z'])
        elif m == 8:
            s = '-' + s
        else:
            i = t.below(len(s))
            s = s[:i] + chr(t.pick(sexp.IDCH)) + s[i + 1:]
    else:
        s = str(sexp.symbol(t))
    if s in RESERVED or s[0].isdigit() or s.startswith('vt#') or (s[0] == '-' and s[1:].isdigit()) or s[0] == '.' or len(s) > 1500:
        s = 'w' + t.pick(['', '-', '_', '1'])
    return s


def lit_string(t):
    if t.bool():
        return sexp.string(t)
    return b''.join(t.pick([b'??=', b'??/', b'*/', b'//', b'/*', b'\\', b'\\x41', b'\\101', b'\x01', b'1', b'\0', b'0', b'7', b'\x1f',
                            b'8', b'%d%s%n', b'"', b'\r\n', b'\n', b'\t', b'\x7f', b'\x80', b'\xff', b'a', b'u8', b'\\u0041',
                            b'\x1a', b"'", b'\x0b', b'\x08', b'\\0', b'\\n', b'"; } /*']) for _ in range(t.size(14)))


class G:
    def __init__(self, t):
        self.t = t
        self.pool = []
        self.globals = {}       # name -> value (datum) or ('fn', params, template)
        self.kinds = set()
        for _ in range(t.between(2, 8)):
            n = name(t, self.pool)
            if n not in self.pool:
                self.pool.append(n)

    def datum(self):
        t = self.t
        k = t.below(5)
        if k == 0:
            self.kinds.add('number')
            v = sexp.number(t)
            return str(v), v
        if k == 1:
            self.kinds.add('string')
            v = lit_string(t)
            return sexp.write(t, v) if t.bool() else blit(v), v
        if k == 2:
            self.kinds.add('symbol')
            n = t.pick(self.pool)
            return '(quote %s)' % n, Sym(n)
        if k == 3:
            self.kinds.add('datum')
            v = sexp.datum(t, t.below(3))
            return "(quote %s\n)" % sexp.write(t, v), v
        self.kinds.add('list of names')
        v = [Sym(t.pick(self.pool)) for _ in range(t.between(1, 4))]
        return "(quote (%s))" % ' '.join(map(str, v)), v

    def names(self, n):
        t = self.t
        out = []
        for _ in range(n):
            x = t.pick(self.pool)
            if x not in out:
                out.append(x)
        return out

    def expr(self, env, d):
        """-> (source, value)"""
        t = self.t
        refs = list(env) + [g for g in self.globals if g not in env and not isinstance(self.globals[g], tuple)]
        k = t.weighted([(2, 'lit')] + ([(4, 'ref')] if refs else []) +
                       ([(2, 'let'), (2, 'lam'), (2, 'clo'), (3, 'list'), (2, 'call')] if d > 0 else []))
        if k == 'call':
            fs = [g for g, v in self.globals.items() if isinstance(v, tuple) and g not in env]
            if not fs:
                k = 'list'
            else:
                f = t.pick(fs)
                _, ps, mk = self.globals[f]
                es = [self.expr(env, d - 1) for _ in ps]
                self.kinds.add('global function')
                return '(%s %s)' % (f, ' '.join(e for e, _ in es)), mk([v for _, v in es])
        if k == 'lit':
            return self.datum()
        if k == 'ref':
            n = t.pick(refs)
            self.kinds.add('variable' if n in env else 'global')
            return n, env[n] if n in env else self.globals[n]
        if k == 'let':
            n = t.pick(self.pool)
            s1, v1 = self.expr(env, d - 1)
            if t.bool(1, 3):
                m = t.pick(self.pool)
                e1 = dict(env)
                e1[n] = v1
                s2, v2 = self.expr(e1, d - 1)
                e1[m] = v2
                s3, v3 = self.expr(e1, d - 1)
                return '(let %s %s %s %s\n %s)' % (n, s1, m, s2, s3), v3
            e1 = dict(env)
            e1[n] = v1
            s2, v2 = self.expr(e1, d - 1)
            return '(let %s %s\n %s)' % (n, s1, s2), v2
        if k in ('lam', 'clo'):
            ns = self.names(t.between(1, 4))
            es = [self.expr(env, d - 1) for _ in ns]
            e1 = dict(env)
            for n, (_, v) in zip(ns, es):
                e1[n] = v
            b, v = self.expr(e1, d - 1)
            if k == 'lam' or len(ns) == 1:
                return '((lambda (%s)\n %s) %s)' % (' '.join(ns), b, ' '.join(s for s, _ in es)), v
            i = t.between(1, len(ns) - 1)
            return '(((lambda (%s) (lambda (%s)\n %s)) %s) %s)' % (
                ' '.join(ns[:i]), ' '.join(ns[i:]), b, ' '.join(s for s, _ in es[:i]), ' '.join(s for s, _ in es[i:])), v
        es = [self.expr(env, d - 1) for _ in range(t.between(1, 5))]
        return '(list %s)' % ' '.join(s for s, _ in es), [v for _, v in es]


class C(LibCheck):
    id = 'C17'
    technique = 'random programs over hostile names and literals, against the values a direct evaluation gives'
    note = ('Programs that use two to eight identifiers of any accepted spelling (C keywords and identifiers of the generated '
            'code, spellings one character or one encoding step apart, up to 600 characters, any bytes) as parameters, let '
            'variables, captured variables, globals, functions and quoted symbols, and literals (integers to 2^53, strings of '
            'any bytes, escapes, trigraphs, comment marks, quoted data) in every position. Compiled and interpreted. '
            'Names of macros, special forms and used builtins are not rebound.')
    rule = 'A case is one program. Non-trivial: at least two variables are used and one literal that is not a small number.'
    quick_n = 4000
    thorough_n = 120000
    quick_time = 35
    batch = 40

    def gen(self, t):
        g = G(t)
        out = []
        for _ in range(t.below(4)):
            n = t.pick(g.pool)
            if n in g.globals:
                continue
            if t.bool():
                s, v = g.expr({}, 2)
                out.append('(def %s (%s\n))\n' % (n, 'car (cons %s ())' % s))
                g.globals[n] = v
            else:
                ps = g.names(t.between(1, 3))
                if n in ps:
                    continue
                order = t.shuffle(ps)
                quoted = t.bool()
                s, c = g.datum()
                out.append('(defun %s (%s)\n (list %s %s (quote %s)))\n' % (n, ' '.join(ps), ' '.join(order), s, n))

                def mk(vs, ps=ps, order=order, c=c, n=n):
                    e = dict(zip(ps, vs))
                    return [e[o] for o in order] + [c, Sym(n)]
                g.globals[n] = ('fn', ps, mk)
        s, v = g.expr({}, t.between(1, 5))
        src = ''.join(out) + '(vt#case CASE_ID (lambda () %s))\n' % s
        if len(src) > 12000:
            raise Discard
        try:
            want = sexp.canon(v)
        except sexp.Deep:
            raise Discard
        if len(want) > 60000:
            raise Discard
        return dict(src=src, expect='=> %s\n' % want, labels=sorted(g.kinds), pool=g.pool,
                    nt=len(g.kinds & {'variable', 'global', 'global function'}) > 0 and len(g.kinds & {'string', 'symbol', 'datum', 'list of names', 'number'}) > 0)

    def nontrivial(self, c):
        return c['nt']

    def labels(self, c):
        return c['labels'] + ['long name' for n in c['pool'][:] if len(n) > 100][:1] + ['high bytes' for n in c['pool'] if not n.isascii()][:1]
