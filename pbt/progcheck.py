"""Base of the checks whose cases are programs compared with the reference."""
from . import gen
from .build import Tree
from .core import Check
from .prog import Runner, judge


class ProgCheck(Check):
    """gen() -> a case dict of gen.program's shape; run in every mode."""
    modes = ('compiled', 'eval')
    kind = 'plain'
    cmds = ()
    limit = (10, 30)

    def setup(self, work):
        self.tree = Tree(work, self.kind)
        self.runner = Runner(self.tree)

    def source(self, case, idx):
        return gen.source(case, idx)

    def judge(self, case, res):
        return judge(case['expect'], res)

    def run(self, cases):
        out = [None] * len(cases)
        for mode in self.modes:
            ids = [i for i, r in enumerate(out) if r is None]
            r = self.runner.run(lambda i, j: self.source(cases[ids[i]], j), len(ids),
                                mode=mode.split('-')[0], level0=mode.endswith('-0'),
                                cmds=self.cmds, limit=self.limit)
            for i, x in zip(ids, r):
                m = self.judge(cases[i], x)
                if m is not None:
                    k, _, rest = m.partition(':')
                    out[i] = '%s (%s):%s' % (k, mode, rest)
        return out

    def nontrivial(self, c):
        return c['steps'] >= 20 and bool(c['stat'])

    def labels(self, c):
        return list(c['stat']) + ['steps>=%d' % (10 ** (len(str(c['steps'])) - 1))]

    def show(self, c):
        return gen.show_case(c) + '\n;; expect\n' + c['expect']

    def key(self, c):
        return gen.show_case(c)
