"""C02: the interpreter agrees with the language."""
from pbt import gen
from pbt.prog import judge
from . import c01


class C(c01.C):
    id = 'C02'
    technique = 'random typed programs, interpreted form by form, against a reference interpreter'
    note = ('Every generated program is read, expanded and evaluated by the interpreter of the REPL, '
            'and its effect log and value compared with an independent reference interpreter '
            '(C01 compares the compiler with the same one). Trusts that reference; programs of '
            'bounded size.')
    rule = ('A case is a random typed program (as in C01, plus try/throw) evaluated form by form by '
            'the interpreter; its effect log and value are compared with a reference interpreter. '
            'Non-trivial: at least 20 evaluation steps and one call, match or binding.')
    quick_n = 6000
    thorough_n = 100000
    batch = 40

    def gen(self, t):
        d = t.weighted([(3, 3), (2, 4)])
        tries = t.weighted([(3, 0), (1, 3)])
        return gen.program(t, depth=d, fns=t.between(1, 4), maxcost=5000, tries=tries)

    def run(self, cases):
        r = self.runner.run(lambda i, j: gen.source(cases[i], j), len(cases), mode='eval')
        return [judge(c['expect'], x) for c, x in zip(cases, r)]
