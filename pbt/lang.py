"""Reference semantics of the language: a small CEK machine over S-expressions.

It is written from the documentation and the observable behaviour of the
language, not from the compiler: call by value, operator first and arguments
left to right, every function curried, `if` takes its first branch only for
true, one flat namespace of globals, deep one-shot delimited continuations.

Programs are nested Python lists.  Sym is a symbol, bytes a string, bool and int
themselves, [] is ().  Macro forms (and, or, cond, begin, list, match, func,
backquote, let with many bindings) are interpreted directly here, so that their
expansion is part of what is checked.
"""


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return 'Sym(%s)' % str(self)


class Bad(Exception):
    """The program is outside the defined language (type error, overflow ...)."""


MAXINT = 1 << 53


class Cons:
    __slots__ = ('a', 'd')

    def __init__(self, a, d):
        self.a = a
        self.d = d


class Nil_:
    __slots__ = ()


NIL = Nil_()


class Vec:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class UndefT:
    pass


UNDEF = UndefT()


class Gensym:
    __slots__ = ('val',)

    def __init__(self):
        self.val = NIL


class Fn:
    __slots__ = ()


class Clo(Fn):
    __slots__ = ('params', 'body', 'env')

    def __init__(self, params, body, env):
        self.params = params
        self.body = body
        self.env = env

    @property
    def arity(self):
        return len(self.params)


class Prim(Fn):
    __slots__ = ('name', 'arity', 'fn')

    def __init__(self, name, arity, fn):
        self.name = name
        self.arity = arity
        self.fn = fn


class Curry(Fn):
    __slots__ = ('f', 'args')

    def __init__(self, f, args):
        self.f = f
        self.args = args

    @property
    def arity(self):
        return self.f.arity - len(self.args)


class Kont(Fn):
    __slots__ = ('frames', 'used')
    arity = 1

    def __init__(self, frames):
        self.frames = frames
        self.used = False


class Env:
    __slots__ = ('name', 'val', 'up')

    def __init__(self, name, val, up):
        self.name = name
        self.val = val
        self.up = up


def plist(l, tail=NIL):
    r = tail
    for x in reversed(l):
        r = Cons(x, r)
    return r


def unlist(v):
    out = []
    while isinstance(v, Cons):
        out.append(v.a)
        v = v.d
        if len(out) > 100000:
            raise Bad('long list')
    if v is not NIL:
        raise Bad('improper list')
    return out


def from_sexp(x):
    """A quoted datum as a value."""
    if isinstance(x, list):
        if len(x) >= 3 and x[-2] == '.' and isinstance(x[-2], Sym):
            return plist([from_sexp(e) for e in x[:-2]], from_sexp(x[-1]))
        return plist([from_sexp(e) for e in x])
    return x


def show_str(b):
    out = ['"']
    for c in b:
        if c in (34, 92):
            out.append('\\' + chr(c))
        elif 32 <= c < 127:
            out.append(chr(c))
        else:
            out.append('\\x%02x' % c)
    out.append('"')
    return ''.join(out)


def show(v, depth=100000):
    """The text the driver prints for a value."""
    out = []
    _show(v, out, 0)
    return ''.join(out)


def _show(v, out, d):
    if d > 400:
        raise Bad('deep value')
    if len(out) > 400000:
        raise Bad('large value')
    if v is True:
        out.append('true')
    elif v is False:
        out.append('false')
    elif isinstance(v, int):
        out.append(str(v))
    elif v is NIL:
        out.append('()')
    elif v is UNDEF:
        out.append('#undef')
    elif isinstance(v, Sym):
        out.append(str(v))
    elif isinstance(v, bytes):
        out.append(show_str(v))
    elif isinstance(v, Fn):
        out.append('#fn')
    elif isinstance(v, Gensym):
        out.append('#g')
    elif isinstance(v, Vec):
        out.append('#(')
        for i, e in enumerate(v.v):
            if i:
                out.append(' ')
            _show(e, out, d + 1)
        out.append(')')
    elif isinstance(v, Cons):
        out.append('(')
        first = True
        while True:
            if not first:
                out.append(' ')
            first = False
            _show(v.a, out, d + 1)
            v = v.d
            if v is NIL:
                break
            if not isinstance(v, Cons):
                out.append(' . ')
                _show(v, out, d + 1)
                break
        out.append(')')
    else:
        raise AssertionError(v)


def equal(a, b):
    while True:
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, Sym) or isinstance(b, Sym):
            return isinstance(a, Sym) and isinstance(b, Sym) and str(a) == str(b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if isinstance(a, Cons) and isinstance(b, Cons):
            if not equal(a.a, b.a):
                return False
            a, b = a.d, b.d
            continue
        if isinstance(a, Vec) and isinstance(b, Vec):
            return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Fn) or isinstance(b, Fn):
            if a is b:
                return True
            if isinstance(a, Fn) and isinstance(b, Fn):
                raise Bad('comparison of functions')
            return False
        return a is b


# ---- text ---------------------------------------------------------------

def text(x):
    """Source text of an S-expression."""
    out = []
    _text(x, out)
    return ''.join(out)


class Raw(str):
    """Source text copied literally; only for the printer."""


def _text(x, out):
    if isinstance(x, Raw):
        out.append(str(x))
    elif x is True:
        out.append('true')
    elif x is False:
        out.append('false')
    elif isinstance(x, int):
        out.append(str(x))
    elif isinstance(x, Sym):
        out.append(str(x))
    elif isinstance(x, bytes):
        out.append('"')
        out.append(x.decode('latin-1'))
        out.append('"')
    elif isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], Sym) and x[0] == 'quote':
            out.append("'")
            _text(x[1], out)
            return
        if x and isinstance(x[0], Sym) and x[0] == '%list':
            # ['%list', a, b ...] is [a b ...]
            out.append('[')
            for i, e in enumerate(x[1:]):
                if i:
                    out.append(' ')
                _text(e, out)
            out.append(']')
            return
        out.append('(')
        for i, e in enumerate(x):
            if i:
                out.append(' ')
            _text(e, out)
        out.append(')')
    else:
        raise AssertionError(x)


S = Sym
S_TRUE = Sym('true')


def num(v):
    if isinstance(v, bool) or not isinstance(v, int):
        raise Bad('not a number')
    return v


def chk(n):
    if not -MAXINT < n < MAXINT:
        raise Bad('overflow')
    return n


def _div(a, b):
    num(a), num(b)
    if b == 0:
        raise Bad('division by zero')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _car(x):
    if not isinstance(x, Cons):
        raise Bad('car')
    return x.a


def _cdr(x):
    if not isinstance(x, Cons):
        raise Bad('cdr')
    return x.d


def _not(x):
    if not isinstance(x, bool):
        raise Bad('not')
    return not x


def _vec(n):
    if num(n) < 0 or n > 100000:
        raise Bad('vector')
    return Vec([UNDEF] * n)


def _vref(v, i):
    if not isinstance(v, Vec) or not 0 <= num(i) < len(v.v):
        raise Bad('vector-ref')
    return v.v[i]


def _vset(v, i, x):
    if not isinstance(v, Vec) or not 0 <= num(i) < len(v.v):
        raise Bad('vector-set!')
    v.v[i] = x
    return v


def _vlen(v):
    if not isinstance(v, Vec):
        raise Bad('vector-length')
    return len(v.v)


def _sapp(a, b):
    if not isinstance(a, bytes) or not isinstance(b, bytes):
        raise Bad('string-append')
    if len(a) + len(b) > 100000:
        raise Bad('long string')
    return a + b


def _rev(l):
    return plist(unlist(l)[::-1])


def _append(a, b):
    return plist(unlist(a), b)


def _elem(x, l):
    while isinstance(l, Cons):
        if equal(l.a, x):
            return True
        l = l.d
    return False


def _intern(s):
    if not isinstance(s, bytes) or not s:
        raise Bad('intern')
    return Sym(s.decode('latin-1'))


def _symstr(s):
    if not isinstance(s, Sym):
        raise Bad('symbol->string')
    return s.encode('latin-1')


PURE = {
    '+': (2, lambda a, b: chk(num(a) + num(b))),
    '-': (2, lambda a, b: chk(num(a) - num(b))),
    '*': (2, lambda a, b: chk(num(a) * num(b))),
    '/': (2, _div),
    '<': (2, lambda a, b: num(a) < num(b)),
    '>': (2, lambda a, b: num(a) > num(b)),
    '=': (2, equal),
    'cons': (2, Cons),
    'car': (1, _car),
    'cdr': (1, _cdr),
    'cons?': (1, lambda x: isinstance(x, Cons)),
    'pair?': (1, lambda x: isinstance(x, Cons)),
    'atom?': (1, lambda x: not isinstance(x, Cons)),
    'null?': (1, lambda x: x is NIL),
    'not': (1, _not),
    'symbol?': (1, lambda x: isinstance(x, (Sym, Gensym))),
    'string?': (1, lambda x: isinstance(x, bytes)),
    'number?': (1, lambda x: isinstance(x, int) and not isinstance(x, bool)),
    'boolean?': (1, lambda x: isinstance(x, bool)),
    'cadr': (1, lambda x: _car(_cdr(x))),
    'caar': (1, lambda x: _car(_car(x))),
    'cdar': (1, lambda x: _cdr(_car(x))),
    'cddr': (1, lambda x: _cdr(_cdr(x))),
    'caddr': (1, lambda x: _car(_cdr(_cdr(x)))),
    'cdddr': (1, lambda x: _cdr(_cdr(_cdr(x)))),
    'cadddr': (1, lambda x: _car(_cdr(_cdr(_cdr(x))))),
    'reverse': (1, _rev),
    'append': (2, _append),
    'length': (1, lambda l: len(unlist(l))),
    'elem?': (2, _elem),
    'vector': (1, _vec),
    'vector-ref': (2, _vref),
    'vector-set!': (3, _vset),
    'vector-length': (1, _vlen),
    'vector?': (1, lambda x: isinstance(x, Vec)),
    'string-append': (2, _sapp),
    'intern': (1, _intern),
    'symbol->string': (1, _symstr),
}

# primitives the compiler knows inline; a call with too many arguments is a
# compile time error for them
INLINE = {'+', '-', '*', '/', '<', '>', '=', 'cons', 'car', 'cdr', 'cons?', 'not',
          'symbol?', 'string?', 'set', 'gensym'}


class Machine:
    """Evaluates programs; records vt#emit events."""

    render = staticmethod(show)     # how vt#emit writes a value

    def __init__(self, fuel=60000, depth=4000):
        self.globals = {}
        self.events = []
        self.fuel = fuel
        self.maxdepth = depth
        self.steps = 0
        self.stat = {}
        self.macros = {}
        for n, (a, f) in PURE.items():
            self.globals[n] = Prim(n, a, f)
        for n, a in (('apply', 2), ('try', 2), ('throw', 1), ('map', 2), ('filter', 2),
                     ('value', 1), ('value-or', 2), ('set', 2), ('gensym', 0),
                     ('vt#emit', 1)):
            self.globals[n] = Prim(n, a, None)

    def count(self, k):
        self.stat[k] = self.stat.get(k, 0) + 1

    # frames are tuples (kind, ...); the stack is a Python list
    def run(self, exp, env=None):
        st = []
        val = None
        mode = 0   # 0 eval exp in env, 1 return val, 2 apply f to args
        f = args = None
        while True:
            self.steps += 1
            if self.steps > self.fuel:
                raise Bad('out of fuel')
            if len(st) > self.maxdepth:
                raise Bad('too deep')
            if mode == 0:
                x = exp
                if isinstance(x, bool) or isinstance(x, int) or isinstance(x, bytes):
                    val = x
                    mode = 1
                    continue
                if isinstance(x, Sym):
                    val = self.lookup(x, env)
                    mode = 1
                    continue
                if not x:
                    val = NIL
                    mode = 1
                    continue
                op = x[0]
                if isinstance(op, Sym) and not self.bound(op, env):
                    if op in self.macros:
                        exp = self.expand(x)
                        continue
                    h = getattr(self, 'f_' + FORMS.get(str(op), '?'), None)
                    if h is not None:
                        r = h(x, env, st)
                        if r[0] == 0:
                            _, exp, env = r
                        else:
                            mode, val = r
                        continue
                st.append(('args', x, 1, env, []))
                exp = op
                continue
            if mode == 1:
                if not st:
                    return val
                fr = st.pop()
                k = fr[0]
                if k == 'args':
                    _, x, i, env, acc = fr
                    acc = acc + [val]
                    if i < len(x):
                        st.append(('args', x, i + 1, env, acc))
                        exp = x[i]
                        mode = 0
                    else:
                        f, args = acc[0], acc[1:]
                        mode = 2
                        self.call(x, acc)
                elif k == 'if':
                    _, x, env = fr
                    exp = x[2] if val is True else x[3]
                    mode = 0
                elif k == 'seq':
                    _, x, i, env = fr
                    if i + 1 < len(x):
                        st.append(('seq', x, i + 1, env))
                    exp = x[i]
                    mode = 0
                elif k == 'let':
                    _, x, i, env = fr
                    env = Env(x[i], val, env)
                    i += 2
                    if i + 1 < len(x):
                        st.append(('let', x, i, env))
                        exp = x[i + 1]
                    else:
                        exp = x[i]
                    mode = 0
                elif k == 'or':
                    _, x, i, env = fr
                    if val is True:
                        continue
                    val = None
                    if i < len(x):
                        st.append(('or', x, i + 1, env))
                        exp = x[i]
                        mode = 0
                    else:
                        val = False
                elif k == 'and':
                    _, x, i, env = fr
                    if val is not True:
                        val = False
                        continue
                    if i < len(x):
                        st.append(('and', x, i + 1, env))
                        exp = x[i]
                        mode = 0
                    else:
                        val = True
                elif k == 'cond':
                    _, x, i, env = fr
                    if val is True:
                        exp = x[i][1]
                    else:
                        i += 1
                        if i >= len(x):
                            raise Bad('no cond match')
                        st.append(('cond', x, i, env))
                        exp = x[i][0]
                    mode = 0
                elif k == 'match':
                    _, x, env = fr
                    exp, env = self.match_step(val, x, 2, env, st)
                    mode = 0
                elif k == 'where':
                    _, v, x, i, env, env0 = fr
                    if val is True:
                        exp = x[i + 1][2]
                    else:
                        exp, env = self.match_step(v, x, i + 2, env0, st)
                    mode = 0
                elif k == 'fmatch':
                    raise AssertionError
                elif k == 'def':
                    self.globals[fr[1]] = val
                elif k == 'rest':
                    f, args = val, fr[1]
                    mode = 2
                elif k == 'try':
                    pass
                elif k == 'map':
                    _, g, l, acc = fr
                    acc = acc + [val]
                    if isinstance(l, Cons):
                        st.append(('map', g, l.d, acc))
                        f, args, mode = g, [l.a], 2
                    else:
                        val = plist(acc)
                elif k == 'filter':
                    _, g, l, acc, cur = fr
                    if val is True:
                        acc = acc + [cur]
                    if isinstance(l, Cons):
                        st.append(('filter', g, l.d, acc, l.a))
                        f, args, mode = g, [l.a], 2
                    else:
                        val = plist(acc)
                elif k == 'bq':
                    _, ks, i, acc, x, env = fr
                    raise AssertionError
                else:
                    raise AssertionError(k)
                continue
            # mode 2: apply
            if isinstance(f, Curry):
                self.count('curry-call')
                f, args = f.f, f.args + args
            if not isinstance(f, Fn):
                raise Bad('call of a non-function')
            n = f.arity
            if len(args) < n:
                if n == 0:
                    raise AssertionError
                if isinstance(f, Kont):
                    raise Bad('resume of nothing')
                val = Curry(f, args)
                mode = 1
                self.count('partial')
                continue
            if len(args) > n:
                st.append(('rest', args[n:]))
                args = args[:n]
                self.count('overapply')
            if isinstance(f, Clo):
                env = f.env
                for p, a in zip(f.params, args):
                    env = Env(p, a, env)
                exp = f.body
                mode = 0
                continue
            if isinstance(f, Kont):
                if f.used:
                    raise Bad('continuation resumed twice')
                f.used = True
                self.count('resume')
                st.extend(f.frames)
                val = args[0]
                mode = 1
                continue
            nm = f.name
            if f.fn is not None:
                val = f.fn(*args)
                mode = 1
                continue
            if nm == 'apply':
                f, args = args[0], unlist(args[1])
                mode = 2
                self.count('apply')
            elif nm == 'vt#emit':
                self.events.append(self.render(args[0]))
                if len(self.events) > 2000:
                    raise Bad('too many events')
                val = args[0]
                mode = 1
            elif nm == 'try':
                self.count('try')
                st.append(('try', args[1]))
                f, args = args[0], []
            elif nm == 'throw':
                i = len(st) - 1
                while i >= 0 and st[i][0] != 'try':
                    i -= 1
                if i < 0:
                    raise Bad('uncaught throw')
                self.count('throw')
                if len(st) - i > 2:
                    self.count('throw-deep')
                k = Kont(st[i:])
                f = st[i][1]
                del st[i:]
                args = [args[0], k]
            elif nm == 'map':
                g, l = args
                if isinstance(l, Cons):
                    st.append(('map', g, l.d, []))
                    f, args = g, [l.a]
                else:
                    val = NIL
                    mode = 1
            elif nm == 'filter':
                g, l = args
                if isinstance(l, Cons):
                    st.append(('filter', g, l.d, [], l.a))
                    f, args = g, [l.a]
                else:
                    val = NIL
                    mode = 1
            elif nm == 'set':
                s, v = args
                if isinstance(s, Gensym):
                    s.val = v
                elif isinstance(s, Sym):
                    self.globals[str(s)] = v
                else:
                    raise Bad('set')
                val = v
                mode = 1
            elif nm == 'value':
                s = args[0]
                if isinstance(s, Gensym):
                    val = s.val
                elif isinstance(s, Sym) and str(s) in self.globals:
                    val = self.globals[str(s)]
                else:
                    raise Bad('value')
                mode = 1
            elif nm == 'value-or':
                s = args[0]
                if isinstance(s, Gensym):
                    val = s.val
                elif isinstance(s, Sym):
                    val = self.globals.get(str(s), args[1])
                else:
                    raise Bad('value-or')
                mode = 1
            elif nm == 'gensym':
                val = Gensym()
                mode = 1
            else:
                raise AssertionError(nm)

    def expand(self, x):
        """One expansion of a user macro: a function over the form as data."""
        self.count('expand')
        clo = self.macros[str(x[0])]
        v = self.run(clo.body, Env(clo.params[0], from_sexp(desugar(x)), None))
        return to_sexp(v)

    def f_defmacro(self, x, env, st):
        self.macros[str(x[1])] = Clo(x[2], x[3], None)
        return 1, NIL

    def call(self, x, acc):
        """A call form with its evaluated operator and operands."""
        op = x[0]
        if isinstance(op, Sym) and isinstance(acc[0], Prim) and str(op) in INLINE \
                and acc[0].name == str(op) and len(acc) - 1 > acc[0].arity:
            raise Bad('inline primitive with too many arguments')

    def bound(self, name, env):
        while env is not None:
            if env.name == name:
                return True
            env = env.up
        return False

    def lookup(self, name, env):
        while env is not None:
            if env.name == name:
                return env.val
            env = env.up
        try:
            return self.globals[str(name)]
        except KeyError:
            raise Bad('unbound ' + name)

    # special forms: return (0, exp, env) or (1, val)
    def f_quote(self, x, env, st):
        return 1, from_sexp(x[1])

    def f_if(self, x, env, st):
        st.append(('if', x, env))
        return 0, x[1], env

    def f_seq(self, x, env, st):
        if len(x) > 2:
            st.append(('seq', x, 2, env))
        return 0, x[1], env

    def f_let(self, x, env, st):
        self.count('let')
        st.append(('let', x, 1, env))
        return 0, x[2], env

    def f_lambda(self, x, env, st):
        return 1, Clo(x[1], x[2], env)

    def f_list(self, x, env, st):
        st.append(('args', x, 1, env, []))
        # [a b . c]
        if len(x) >= 4 and isinstance(x[-2], Sym) and x[-2] == '.':
            y = [Sym('%lst')] + x[1:-2] + [x[-1]]
            st[-1] = ('args', y, 1, env, [])
            n = len(y) - 1
            f = Prim('list*', n, lambda *a: plist(list(a[:-1]), a[-1]))
        else:
            n = len(x) - 1
            if n == 0:
                st.pop()
                return 1, NIL
            f = Prim('list', n, lambda *a: plist(list(a)))
        return 1, f

    def f_or(self, x, env, st):
        if len(x) == 1:
            return 1, False
        st.append(('or', x, 2, env))
        return 0, x[1], env

    def f_and(self, x, env, st):
        if len(x) == 1:
            return 1, True
        st.append(('and', x, 2, env))
        return 0, x[1], env

    def f_cond(self, x, env, st):
        if len(x) == 1:
            raise Bad('no cond match')
        st.append(('cond', x, 1, env))
        return 0, x[1][0], env

    def f_match(self, x, env, st):
        st.append(('match', x, env))
        return 0, x[1], env

    def f_bq(self, x, env, st):
        return 0, bq(x[1]), env

    def f_def(self, x, env, st):
        st.append(('def', str(x[1])))
        return 0, x[2], env

    def f_defun(self, x, env, st):
        self.globals[str(x[1])] = Clo(x[2], x[3], env)
        return 1, self.globals[str(x[1])]

    def f_func(self, x, env, st):
        # (func name p1 p2 => body [where pred] ...)
        n, rules = func_rules(x)
        params = [Sym('%%p%d' % i) for i in range(n)]
        body = [Sym('match'), [Sym('list')] + params]
        for pats, act, pred in rules:
            body.append([Sym('list')] + pats)
            body.append(act if pred is None else [Sym('where'), pred, act])
        self.globals[str(x[1])] = Clo(params, body, None)
        return 1, self.globals[str(x[1])]

    def match_step(self, v, x, i, env, st):
        while i + 1 < len(x):
            e = self.pmatch(x[i], v, env)
            act = x[i + 1]
            if e is not False:
                if isinstance(act, list) and len(act) == 3 and act[0] == 'where' \
                        and isinstance(act[0], Sym):
                    self.count('where')
                    st.append(('where', v, x, i, e, env))
                    return act[1], e
                self.count('match')
                return act, e
            self.count('match-miss')
            i += 2
        raise Bad('no match')

    def pmatch(self, p, v, env):
        if isinstance(p, Sym):
            return Env(p, v, env)
        if isinstance(p, (bool, int, bytes)):
            return env if equal(p, v) else False
        if p == []:
            return env if v is NIL else False
        h = p[0]
        if h == 'quote':
            return env if equal(from_sexp(p[1]), v) else False
        if h == 'cons':
            if not isinstance(v, Cons):
                return False
            env = self.pmatch(p[1], v.a, env)
            if env is False:
                return False
            return self.pmatch(p[2], v.d, env)
        if h in ('list', '%list', 'list-rest'):
            es = p[1:]
            tail = []
            if h == 'list-rest':
                es, tail = es[:-1], es[-1]
            elif len(es) >= 2 and isinstance(es[-2], Sym) and es[-2] == '.':
                es, tail = es[:-2], es[-1]
            for q in es:
                if not isinstance(v, Cons):
                    return False
                env = self.pmatch(q, v.a, env)
                if env is False:
                    return False
                v = v.d
            return self.pmatch(tail, v, env)
        if isinstance(h, Sym) and str(h) in self.macros:
            return self.pmatch(self.expand(p), v, env)
        raise Bad('pattern')


def desugar(x):
    """What the reader makes of the bracket abbreviation: [a b . c] is (list a b . c)
    in the text of a form, but a dotted bracket is (list-rest a b c)."""
    if isinstance(x, list):
        x = [desugar(e) for e in x]
        if x and isinstance(x[0], Sym) and x[0] == '%list':
            if len(x) >= 4 and isinstance(x[-2], Sym) and x[-2] == '.':
                return [Sym('list-rest')] + x[1:-2] + [x[-1]]
            return [Sym('list')] + x[1:]
    return x


def to_sexp(v):
    if isinstance(v, Cons) or v is NIL:
        return [to_sexp(e) for e in unlist(v)]
    if isinstance(v, (Fn, Vec, Gensym)):
        raise Bad('macro result')
    return v


def bq(x):
    if isinstance(x, Sym):
        return [Sym('quote'), x]
    if isinstance(x, list) and x:
        if x[0] == 'unquote' and isinstance(x[0], Sym) and len(x) == 2:
            return x[1]
        return [Sym('list')] + [bq(e) for e in x]
    return x


def func_rules(x):
    rules = []
    cur = []
    i = 2
    n = None
    while i < len(x):
        if isinstance(x[i], Sym) and x[i] == '=>':
            act = x[i + 1]
            i += 2
            pred = None
            if i < len(x) and isinstance(x[i], Sym) and x[i] == 'where':
                pred = x[i + 1]
                i += 2
            rules.append((cur, act, pred))
            n = len(cur)
            cur = []
        else:
            cur.append(x[i])
            i += 1
    return n, rules


FORMS = {'quote': 'quote', 'if': 'if', 'do': 'seq', 'begin': 'seq', 'let': 'let',
         'lambda': 'lambda', 'list': 'list', '%list': 'list', 'or': 'or', 'and': 'and',
         'cond': 'cond', 'match': 'match', 'backquote': 'bq', 'def': 'def',
         'defun': 'defun', 'func': 'func', 'defmacro': 'defmacro'}
