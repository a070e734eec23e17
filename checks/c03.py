"""C03: partial evaluation never changes behaviour."""
from pbt import gen
from pbt.progcheck import ProgCheck


class C(ProgCheck):
    id = 'C03'
    technique = 'random programs, compiled with and without the partial evaluator, and a reference interpreter'
    note = ('Each program is compiled with the partial evaluator loaded and with a compiler booted '
            'without it; both effect logs and values must equal the reference. The generator is '
            'biased to what the evaluator rewrites: constant operands and conditions, unused and '
            'once-used lets, applied lambdas, four variable names only, effects everywhere.')
    rule = ('A case is a random typed program rich in constants, shadowing and effects, compiled with '
            'and without the partial evaluator; both runs are compared with the reference. '
            'Non-trivial: at least 20 evaluation steps and one call, match or binding.')
    modes = ('compiled', 'compiled-0')
    quick_n = 2200
    thorough_n = 40000
    batch = 28
    quick_time = 45

    def gen(self, t):
        d = t.weighted([(3, 3), (2, 4), (1, 5)])
        return gen.program(t, depth=d, fns=t.between(0, 2), maxcost=1200, constp=t.pick([2, 4, 7]),
                           names=['x', 'y', 'a', 'b', 'z'][:t.between(2, 5)], let=8,
                           curry=6, effects=t.pick([2, 5]), vecs=False,
                           cells=False, recur=1, redex=t.pick([0, 4, 12]))
