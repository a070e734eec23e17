"""C33: the compiler reproduces itself and is deterministic."""
import importlib
import os
import re
import tempfile
from pbt import build, gen
from pbt.build import BootCrash, Tree
from pbt.core import Check, Discard

LIBS = ['lib/%s.cora' % x for x in ('async', 'chan', 'cml', 'define-record', 'eval', 'hash', 'infer', 'let-loop', 'monad', 'parallel', 'peg',
                                    'peval', 'queue', 'sxml', 'sys', 'toc', 'ukanren')] + ['init.cora']
GENSYM = re.compile(r'(?<![A-Za-z0-9_])v(?!_)[A-Za-z]*[0-9]{6,}(?![0-9])')


def norm(c):
    """The C text with the generated names numbered in order of appearance."""
    names = {}
    return GENSYM.sub(lambda m: names.setdefault(m[0], 'g%d' % len(names)), c)


class C(Check):
    id = 'C33'
    technique = ('random programs compiled repeatedly, in other orders and processes, under random collections and by a compiler built from its own '
                 'output: differential comparison of the generated C')
    note = ('Programs of the generators of C01, C08, C09 and C17, and every library of the repository with the compiler itself. Each is compiled in '
            'one process after others, again in another process in another order, in a third one that collects garbage at random '
            'moments, and by a second compiler: init.cora and lib/toc.cora compiled by the first one, built, and put in its place. All C texts have to be equal up to '
            'the generated names. That a program compiles at all is the matter of C01.')
    rule = ('A case is a program. Non-trivial: a library, or at least 15 applications or special forms.')
    quick_n = 6000
    thorough_n = 150000
    batch = 24
    quick_time = 35

    def setup(self, work):
        self.t1 = Tree(work)
        d = self.t1.base
        for src, c in (('lib/toc.cora', 'toc2.c'), ('init.cora', 'init2.c')):
            rc, out = self.t1.compile('%s/%s' % (self.t1.dir, src), '%s/%s' % (d, c))
            if rc != 0 or not os.path.exists('%s/%s' % (d, c)):
                raise BootCrash('compiling %s ends with %s: %s' % (src, rc, out[-1500:]))

        def patch(to):
            for a, b in (('toc2.c', 'lib/toc.c'), ('init2.c', 'init.c')):
                with open('%s/%s' % (d, a)) as f, open('%s/%s' % (to, b), 'w') as g:
                    g.write(f.read())
        try:
            self.t2 = Tree(work, name='second', patch=patch)
        except RuntimeError as e:
            raise BootCrash('the second compiler: %s' % e)
        self.t3 = Tree(work, 'stress')
        self.subs = [importlib.import_module('checks.' + x).C() for x in ('c08', 'c09', 'c17')]

    def gen(self, t):
        k = t.weighted([(30, 'program'), (10, 'match'), (10, 'macro'), (10, 'names'), (1, 'library')])
        if k == 'library':
            case = dict(lib=t.pick(LIBS))
        elif k == 'program':
            c = gen.program(t, depth=t.between(2, 4), fns=t.between(0, 4), maxcost=1200, tries=t.pick([0, 0, 2]))
            case = dict(src=gen.source(c, 1))
        else:
            s = self.subs[('match', 'macro', 'names').index(k)]
            c = s.gen(t)
            case = dict(src=s.source(c, 1))
        case['kind'] = k
        case['gc'] = [t.pick([200, 1000, 4000, 30000]), t.pick([1, 7, 30, 200]), t.below(2)]
        return case

    def compile(self, tree, d, files, tag, pre=()):
        """Compile the files in one process, in halves if it fails. -> normalised texts"""
        out = {}

        def go(ids):
            cmds = list(pre) + [['compile', files[i], '%s/%s%d.c' % (d, tag, i)] for i in ids]
            rc, o = tree.drive(cmds, timeout=60 + 5 * len(ids))
            if rc != 0 and len(ids) > 1:
                go(ids[:len(ids) // 2])
                go(ids[len(ids) // 2:])
                return
            for i in ids:
                p = '%s/%s%d.c' % (d, tag, i)
                if rc == 0 and os.path.exists(p):
                    with open(p, encoding='latin-1') as f:
                        out[i] = norm(f.read())
                else:
                    out[i] = 'no code'
        go(sorted(files, reverse=tag in 'bs'))
        return out

    def run(self, cases):
        d = tempfile.mkdtemp(dir=self.t1.base, prefix='c')
        try:
            files = {}
            for i, c in enumerate(cases):
                files[i] = '%s/%d.cora' % (d, i)
                if 'lib' in c:
                    if not os.path.exists('%s/%s' % (self.t1.dir, c['lib'])):
                        c['lib'] = 'init.cora'
                    with open('%s/%s' % (self.t1.dir, c['lib']), encoding='latin-1') as f:
                        s = f.read()
                else:
                    s = c['src']
                with open(files[i], 'w', encoding='latin-1') as f:
                    f.write(s)
            a = self.compile(self.t1, d, files, 'a')
            r = [('again in another order', self.compile(self.t1, d, files, 'b')),
                 ('by the compiler it makes of itself', self.compile(self.t2, d, files, 'c')),
                 ('with collections at %s' % cases[0]['gc'], self.compile(self.t3, d, files, 's', [['gclimit'] + [str(x) for x in cases[0]['gc']]]))]
            out = [None] * len(cases)
            for i, c in enumerate(cases):
                for how, b in r:
                    if a[i] != b[i]:
                        out[i] = 'different: compiled %s, %s' % (how, self.diff(a[i], b[i]))
                        break
            return out
        finally:
            build.cleanup(d)

    @staticmethod
    def diff(a, b):
        x, y = a.split('\n'), b.split('\n')
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return 'line %d is %r instead of %r' % (i + 1, q[:200], p[:200])
        return '%d instead of %d lines' % (len(y), len(x))

    def nontrivial(self, c):
        if 'lib' in c:
            return True
        return c['src'].count('(') >= 15

    def labels(self, c):
        return [c['kind']] + ([c['lib']] if 'lib' in c else [])

    def show(self, c):
        return ';; collections: %s\n%s' % (c['gc'], c.get('src') or c['lib'])

    def key(self, c):
        return c.get('src') or c['lib']
