"""Base of the checks of library functions: cases are programs that report what
the functions return; a model in Python says what they have to."""
import zlib

from .build import BootCrash, Tree
from .prog import Runner
from .progcheck import ProgCheck
from .lang import show_str


def blit(b):
    """A string constant (latin-1 source text)."""
    out = ['"']
    for c in b:
        if c in (34, 92):
            out.append('\\' + chr(c))
        else:
            out.append(chr(c))
    return ''.join(out) + '"'


class LibCheck(ProgCheck):
    libs = ()
    imports = ()
    pre = ''            # definitions every case of a batch shares
    extra = False
    batch = 40
    fast = False        # compile `pre` once; cases only apply it to quoted data

    def setup(self, work):
        base = ('eval', 'peval', 'sys')
        self.tree = Tree(work, self.kind, libs=base + tuple(x for x in self.libs if x not in base), extra=self.extra)
        self.runner = Runner(self.tree)
        self.head = ''.join('(import "cora/lib/%s")\n' % x for x in self.imports) + self.pre
        if self.fast:
            self.pre_so = self.compile_pre()

    def compile_pre(self):
        d = self.tree.base
        with open(d + '/pre.cora', 'wb') as f:
            f.write(self.head.encode('latin-1'))
        rc, out = self.tree.drive([['compile', d + '/pre.cora', d + '/pre.c']], timeout=120)
        if rc != 0:
            raise BootCrash('compiling the driver of this check ends with %s: %s' % (rc, out[-1500:]))
        rc, out = self.tree.gcc(d + '/pre.c', d + '/pre.so')
        if rc != 0:
            raise BootCrash('the C generated from the driver of this check does not compile: %s' % out[-1500:])
        return d + '/pre.so'

    def interpreted(self, case):
        return not case.get('compiled') and zlib.crc32(case['src'].encode('latin-1')) % 8 == 0

    def run(self, cases):
        out = [None] * len(cases)
        if self.fast:
            for mode in ('compiled', 'eval'):
                # the driver compiled for all cases, interpreted for every eighth
                ids = [i for i, r in enumerate(out) if r is None and (mode == 'compiled' or self.interpreted(cases[i]))]
                kw = dict(cmds=list(self.cmds) + [['loadso', self.pre_so]]) if mode == 'compiled' else \
                    dict(cmds=self.cmds, pre=self.head)
                r = self.runner.run(lambda i, j: self.source(cases[ids[i]], j), len(ids), mode='eval', limit=self.limit, **kw)
                for i, x in zip(ids, r):
                    m = self.judge(cases[i], x)
                    if m is not None:
                        k, _, rest = m.partition(':')
                        out[i] = '%s (%s):%s' % (k, mode, rest)
            return out
        for mode in self.modes:
            ids = [i for i, r in enumerate(out) if r is None]
            r = self.runner.run(lambda i, j: self.source(cases[ids[i]], j), len(ids), mode=mode,
                                cmds=self.cmds, limit=self.limit, pre=self.head)
            for i, x in zip(ids, r):
                m = self.judge(cases[i], x)
                if m is not None:
                    k, _, rest = m.partition(':')
                    out[i] = '%s (%s):%s' % (k, mode, rest)
        return out

    def source(self, case, idx):
        return case['src'].replace('CASE_ID', str(idx))

    def nontrivial(self, c):
        return True

    def labels(self, c):
        return c.get('labels', ())

    def show(self, c):
        return c['src'] + '\n;; expect\n' + c['expect']

    def key(self, c):
        return c['src']


def lst(xs, tail='()'):
    s = tail
    for x in reversed(xs):
        s = '(cons %s %s)' % (x, s)
    return s


__all__ = ['LibCheck', 'blit', 'lst', 'show_str']
