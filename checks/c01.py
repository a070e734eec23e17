"""C01: compiled programs compute what the language defines."""
from pbt import gen
from pbt.build import Tree
from pbt.core import Check
from pbt.prog import Runner, judge


class C(Check):
    id = 'C01'
    technique = 'random typed programs, compiled and run, against a reference interpreter'
    note = ('Every generated program is compiled by the real compiler and gcc; its effect log and '
            'value must equal those of an independent reference interpreter. Trusts that interpreter '
            'and gcc; explores programs of bounded size.')
    rule = ('A case is a random typed program (functions, recursion, closures, currying, let, '
            'cond, match, func, vectors, cells, globals, HOFs) compiled by the real compiler and '
            'gcc and run; its effect log and value are compared with a reference interpreter. '
            'Non-trivial: at least 20 evaluation steps and one call, match or binding.')
    quick_n = 4500
    thorough_n = 40000
    batch = 28
    quick_time = 50

    def setup(self, work):
        self.tree = Tree(work)
        self.runner = Runner(self.tree)

    def gen(self, t):
        d = t.weighted([(3, 3), (2, 4)])
        return gen.program(t, depth=d, fns=t.between(1, 4), maxcost=1200)

    def run(self, cases):
        r = self.runner.run(lambda i, j: gen.source(cases[i], j), len(cases))
        return [judge(c['expect'], x) for c, x in zip(cases, r)]

    def nontrivial(self, c):
        return c['steps'] >= 20 and bool(c['stat'])

    def labels(self, c):
        return list(c['stat']) + ['defs=%d' % len(c['defs']),
                                  'steps>=%d' % (10 ** (len(str(c['steps'])) - 1))]

    def show(self, c):
        return gen.show_case(c) + '\n;; expect\n' + c['expect']

    def key(self, c):
        return gen.show_case(c)
