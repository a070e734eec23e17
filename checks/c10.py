"""C10: packages keep their names apart and load once."""
import os
import subprocess
import tempfile

from pbt import build, gen, lang
from pbt.build import Tree
from pbt.core import Check, Discard
from pbt.lang import Sym as S
from pbt.prog import Runner, judge, parse_results

NAMES = ['f', 'g', 'h', 'i', 'x', 'y', 'length', 'filter', 'f1', 'elem?', 'make-it', 'v!']
LOC = ['x', 'y', 'z', 'f', 'g', 'n']
# what cora/init exports and the generator may redefine, with a model value
INIT = {'length': 'length', 'filter': 'filter', 'elem?': 'elem?'}
PRIMS = {'+', '-', '*', '<', '=', 'not', 'cons', 'car', 'cdr', 'set'}


class G:
    def __init__(self, t):
        self.t = t

    def exp(self, env, d, calls):
        t = self.t
        calls = [c for c in calls if c[0] not in env]
        k = t.weighted([(2, 'lit'), (3 if env else 0, 'var'), (3 if d > 0 else 0, 'op'),
                        (9 if calls and d > 0 else 0, 'call'), (1 if d > 0 else 0, 'let'),
                        (1 if d > 0 else 0, 'beta'), (1 if d > 0 else 0, 'sym'), (1 if d > 0 else 0, 'if')])
        if k == 'lit':
            return t.below(50)
        if k == 'var':
            return t.pick(env)
        if k == 'op':
            return [S(t.pick('+-')), self.exp(env, d - 1, calls), self.exp(env, d - 1, calls)]
        if k == 'call':
            n, a = t.pick(calls)
            if a < 0:
                return S(n)
            return [S(n)] + [self.exp(env, d - 1, calls) for _ in range(a)]
        x = S(t.pick(LOC))
        if k == 'let':
            return [S('let'), x, self.exp(env, d - 1, calls), self.exp(env + [x], d - 1, calls)]
        if k == 'beta':
            return [[S('lambda'), [x], self.exp(env + [x], d - 1, calls)], self.exp(env, d - 1, calls)]
        if k == 'if':
            return [S('if'), [S('<'), self.exp(env, d - 1, calls), self.exp(env, d - 1, calls)],
                    self.exp(env, d - 1, calls), self.exp(env, d - 1, calls)]
        y = S(t.pick(NAMES))
        z = y if t.bool() else S(t.pick(NAMES))
        return [S('if'), [S('='), [S('quote'), y], [S('quote'), z]],
                self.exp(env, d - 1, calls), self.exp(env, d - 1, calls)]


def resolve(x, env, own, imports, exports):
    """The names of a form as full names."""
    if isinstance(x, S):
        s = str(x)
        if x in env or s in PRIMS or '#' in s:
            return x
        for p in imports:
            if s in exports.get(p, ()):
                return S(p + '#' + s)
        if s in INIT:
            return x
        return S(own + '#' + s) if own else x
    if not isinstance(x, list) or not x:
        return x
    h = x[0]
    r = lambda y, e=env: resolve(y, e, own, imports, exports)
    if isinstance(h, S):
        if h == 'quote':
            return x
        if h == 'if' or h == 'do':
            return [h] + [r(y) for y in x[1:]]
        if h == 'lambda':
            return [h, x[1], r(x[2], env + x[1])]
        if h == 'let':
            return [h, x[1], r(x[2]), r(x[3], env + [x[1]])]
    return [r(y) for y in x]


class C(Check):
    id = 'C10'
    technique = 'random package graphs, compiled and imported, against a model of name resolution and loading'
    note = ('Each case is an acyclic graph of two to six packages with clashing private names, '
            'exports (of names of the standard library too), several imports exporting the same '
            'name, shadowing locals, quoted symbols, full names, state and repeated imports. Every '
            'package is compiled by the real compiler and imported; the order of loading and every '
            'value must be those of the model.')
    rule = ('A case is a package graph and a program importing it. Non-trivial: at least two '
            'packages, one import edge between them and one imported name used.')
    quick_n = 900
    thorough_n = 12000
    batch = 12
    quick_time = 45

    def setup(self, work):
        self.tree = Tree(work)

    def gen(self, t):
        g = G(t)
        n = t.between(2, 5)
        pk, exports, defs_of = [], {}, {}
        used = 0
        for i in range(n + 1):
            main = i == n
            prev = [p['name'] for p in pk]
            name = '@@/' + ('main' if main else t.pick(['p%d', 'sub/p%d', 'p-%d']) % i)
            if prev and not main and t.bool():
                # related to the name of another package
                b = t.pick(prev)[3:]
                name = '@@/' + t.pick([b + '%d' % i, b + '/x%d' % i, b + 'a', b[:-1], b.split('/')[-1], 'main%d' % i, 'p/' + b, b.upper()])
                if name in prev or name == '@@/main' or name == '@@/sub' or name.endswith('/'):
                    raise Discard('name')
            imps = []
            for p in prev:
                if t.bool(1, 2) or (main and t.bool(1, 2)):
                    imps.append(p)
            if main and not imps:
                imps = [prev[-1]]
            imps = t.shuffle(imps)
            if imps and t.bool(1, 6):
                imps = imps + [t.pick(imps)]
            order = list(reversed(imps))          # the latest first
            loaded = self.closure(pk, imps)
            # names visible
            mine = {}
            forms = []
            if not main or t.bool(1, 3):
                forms.append([S('vt#emit'), [S('quote'), S('load-%d' % i)]])
            for _ in range(t.between(2, 6) if not main else t.between(3, 9)):
                calls = []
                seen = set()
                for p in order:
                    for e in exports[p]:
                        if e not in seen:
                            seen.add(e)
                            calls.append((e, defs_of[p][e]))
                for e, a in mine.items():
                    if e not in seen and e not in INIT:
                        seen.add(e)
                        calls.append((e, a))
                full = [(p + '#' + e, a) for p in loaded for e, a in defs_of[p].items()]
                if full and t.bool(1, 3):
                    calls = calls + full
                if main or t.bool(1, 5):
                    e = self.thunk(forms, g.exp([], 3, calls))
                    forms.append([S('vt#emit'), e])
                    continue
                k = t.weighted([(4, 'fun'), (2, 'const'), (1, 'state')])
                nm = t.pick(NAMES)
                if nm in mine:
                    continue
                if k == 'const':
                    forms.append([S('def'), S(nm), self.thunk(forms, g.exp([], 2, calls))])
                    mine[nm] = -1
                elif k == 'state':
                    # a counter kept in the package
                    c = name + '#' + nm + '-c'
                    forms.append([S('set'), [S('quote'), S(c)], t.below(9)])
                    forms.append([S('defun'), S(nm), [S('n')],
                                  [S('do'), [S('set'), [S('quote'), S(c)], [S('+'), S(c), S('n')]], S(c)]])
                    mine[nm] = 1
                else:
                    ps = []
                    for _ in range(t.between(1, 3)):
                        p = S(t.pick(LOC))
                        if p not in ps:
                            ps.append(p)
                    forms.append([S('defun'), S(nm), ps, g.exp(list(ps), 3, calls)])
                    if gen.cost(forms[-1]) > 300:
                        raise Discard('large')
                    mine[nm] = len(ps)
            if main:
                for p in loaded:
                    if t.bool(1, 3):
                        j = t.below(len(forms) + 1)
                        forms.insert(j, [S('import'), p.encode()])
            ex = [e for e in mine if t.bool(2, 3)]
            if ex and t.bool(1, 8):
                ex = ex + ['not-there']
            exports[name] = [e for e in ex if e in mine]
            defs_of[name] = mine
            pk.append(dict(name=name, imps=imps, ex=ex, forms=forms))
        case = dict(pk=pk, expect=self.model(pk, exports))
        return case

    def thunk(self, forms, e):
        # a branch at the toplevel copies the rest of the file in the generated C
        n = S('t-%d' % len(forms))
        forms.append([S('defun'), n, [], e])
        if gen.cost(e) > 300:
            raise Discard('large')
        return [n]

    def closure(self, pk, imps):
        byname = {p['name']: p for p in pk}
        out = []

        def go(p):
            if p in out:
                return
            for q in byname[p]['imps']:
                go(q)
            out.append(p)
        for p in imps:
            go(p)
        return out

    def model(self, pk, exports):
        m = lang.Machine(20000, 500)
        byname = {p['name']: p for p in pk}
        done = set()
        self.used = 0

        def load(name):
            if name in done:
                return
            done.add(name)
            p = byname[name]
            for q in p['imps']:
                load(q)
            order = list(reversed(p['imps']))
            for f in p['forms']:
                if f[0] == 'import':
                    # in scope for the forms after it, the latest first
                    q = f[1].decode()
                    load(q)
                    order = [q] + order
                    continue
                if f[0] in ('def', 'defun'):
                    full = S(name + '#' + f[1])
                    if f[0] == 'def':
                        g = [S('def'), full, resolve(f[2], [], name, order, exports)]
                    else:
                        g = [S('def'), full, resolve([S('lambda'), f[2], f[3]], [], name, order, exports)]
                else:
                    g = resolve(f, [], name, order, exports)
                m.run(g)
        try:
            load('@@/main')
            n = len(m.events)
            for p in pk:            # the others are loaded by the compiler
                load(p['name'])
        except lang.Bad as e:
            raise Discard(str(e))
        except RecursionError:
            raise Discard('recursion')
        return '\n'.join(m.events[:n]) + '\n'

    def text(self, p, idx):
        out = ['(package "%s"' % p['name']]
        for q in p['imps']:
            out.append('  (import "%s")' % q)
        if p['ex']:
            out.append('  (export %s)' % ' '.join(p['ex']))
        for f in p['forms']:
            out.append('  ' + lang.text(f))
        return ('\n'.join(out) + ')\n').replace('@@', 'k%d' % idx)

    def batch_run(self, cases):
        t = self.tree
        d = tempfile.mkdtemp(dir=t.base, prefix='b')
        try:
            os.mkdir(d + '/pkg')
            os.symlink(t.dir, d + '/pkg/cora')
            env = dict(CORAPATH=d + '/')
            levels = {}
            for idx, c in enumerate(cases):
                lv = {}
                for p in c['pk']:
                    lv[p['name']] = 1 + max([lv[q] for q in p['imps']] + [-1])
                    for f in p['forms']:
                        if f[0] == 'import':
                            lv[p['name']] = max(lv[p['name']], 1 + lv[f[1].decode()])
                    base = '%s/pkg/%s' % (d, p['name'].replace('@@', 'k%d' % idx))
                    os.makedirs(os.path.dirname(base), exist_ok=True)
                    open(base + '.cora', 'w').write(self.text(p, idx))
                    levels.setdefault(lv[p['name']], []).append(base)
            for l in sorted(levels):
                rc, out = t.drive([['compile', b + '.cora', b + '.c'] for b in levels[l]],
                                  timeout=120, cwd=d, env=env)
                if rc != 0:
                    return None, 'compile: the compiler ends with %s: %s' % (rc, out[-1500:])
                ps = []
                for b in levels[l]:
                    ps.append(subprocess.Popen(
                        'gcc -w -O0 -shared -fPIC -I%s/src %s.c -o %s.so -L%s/src -lcora' % (t.dir, b, b, t.dir),
                        shell=True, env=t.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
                    if len(ps) % 3 == 0:
                        ps[-1].wait()
                bad = None
                for p in ps:
                    o, _ = p.communicate()
                    if p.returncode != 0:
                        bad = o.decode('latin-1')[:1500]
                if bad:
                    return None, 'gcc: ' + bad
            with open(d + '/run.cora', 'w') as f:
                for idx in range(len(cases)):
                    f.write('(vt#case %d (lambda () (import "k%d/main")))\n' % (idx, idx))
            res = d + '/res'
            rc, out = t.drive([['limit', '10', '30'], ['eval', d + '/run.cora']], results=res,
                              timeout=200, cwd=d, env=env)
            r = parse_results(res)
            if 'done' not in r:
                return None, 'load: the program ends with %s: %s' % (rc, out[-1500:])
            return [r.get(str(i), ('missing', b'')) for i in range(len(cases))], None
        finally:
            build.cleanup(d)

    def run(self, cases):
        if not cases:
            return []
        r, err = self.batch_run(cases)
        if err is None:
            out = []
            for c, (st, data) in zip(cases, r):
                got = data.decode('latin-1')
                got = '\n'.join(l for l in got.split('\n') if not l.startswith('=> '))
                out.append(judge(c['expect'], (st, got)))
            return out
        if len(cases) == 1:
            return [err]
        h = len(cases) // 2
        return self.run(cases[:h]) + self.run(cases[h:])

    def nontrivial(self, c):
        return len(c['pk']) >= 3 and any(p['imps'] for p in c['pk'][:-1]) and len(c['expect']) > 20

    def labels(self, c):
        out = ['packages=%d' % len(c['pk'])]
        if any(f[0] == 'import' for p in c['pk'] for f in p['forms']):
            out.append('repeated import')
        if any(set(p['ex']) & set(INIT) for p in c['pk']):
            out.append('exports a library name')
        ex = [e for p in c['pk'] for e in p['ex']]
        if len(ex) != len(set(ex)):
            out.append('same name exported twice')
        return out

    def show(self, c):
        return ''.join(self.text(p, 0) for p in c['pk']) + ';; expect\n' + c['expect']
