"""C12: the heap keeps what is reachable (C interface against a shadow graph)."""
import os
import tempfile
from pbt import build
from pbt.build import Tree
from pbt.core import Check
from pbt.prog import parse_results

ROOTS = 12
CLASSES = [16, 24, 32, 40, 48, 56, 64, 96, 128, 192, 256, 384, 512, 768, 1024, 1536, 2048, 4096]


class G:
    def __init__(self, t):
        self.t = t
        self.mem = 0
        self.ops = []

    def root(self):
        return self.t.below(ROOTS)

    def value(self):
        t = self.t
        if t.bool(1, 4):
            return str(t.below(1000))
        p = 'r%d' % self.root()
        for _ in range(t.weighted([(4, 0), (3, 1), (2, 2), (1, 4)])):
            p += '.%d' % t.below(6)
        return p

    def bytelen(self):
        t = self.t
        k = t.below(10)
        if k < 4:
            return max(0, t.pick(CLASSES) - 13 + t.between(-2, 2))
        if k < 7:
            return t.size(300)
        if k < 9:
            n = t.pick([1, 1, 2, 3, 5, 8, 17]) * 4096 - 13 + t.between(-2, 2)
            return n
        return t.size(1500000)

    def alloc(self, r=None):
        t = self.t
        r = self.root() if r is None else r
        k = t.weighted([(6, 'cons'), (4, 'bytes'), (4, 'vec'), (3, 'cell'), (3, 'clo')])
        p = q = 0
        kind = dict(cons=0, bytes=1, vec=2, cell=3, clo=4)[k]
        if k == 'bytes':
            p, q = self.bytelen(), t.below(2)
            self.mem += p
        elif k == 'vec':
            j = t.below(8)
            p = t.size(12) if j < 4 else (self.bytelen() // 8 if j < 7 else t.pick([505, 507, 509, 511, 512, 1020, 1024]))
            q = t.below(4) if t.bool() else 0
            self.mem += 8 * p
        elif k == 'clo':
            p = t.below(6)
        self.ops.append('A %d %d %d %d %d %s %s %s' % (r, kind, p, q, t.below(256),
                                                       self.value(), self.value(), self.value()))

    def garbage(self):
        t = self.t
        kind = t.below(3)
        size = self.bytelen() if kind else 0
        n = t.pick([1, 8, 40, 200])
        while n * size > 400000 and n > 1:
            n //= 4
        self.mem += n * size // 16
        self.ops.append('G %d %d %d' % (kind, size, max(n, 1)))

    def op(self):
        t = self.t
        k = t.weighted([(8, 'A'), (8, 'S'), (4, 'P'), (4, 'M'), (2, 'D'), (3, 'G'), (6, 'T'), (1, 'H'), (1, 'W'), (1, 'L')])
        if k == 'A':
            self.alloc()
        elif k == 'S':
            self.ops.append('S %s %d %s' % (self.target(), t.below(40), self.value()))
        elif k == 'P':
            for _ in range(t.pick([1, 1, 2, 6])):
                self.ops.append('P %d %s %s' % (self.root(), self.target(), self.value()))
        elif k == 'M':
            self.ops.append('M %d %s' % (self.root(), self.value()))
        elif k == 'D':
            self.ops.append('M %d 0' % self.root())
        elif k == 'G':
            self.garbage()
        elif k == 'T':
            self.ops.append('T %d %s' % (t.pick([1, 1, 2, 5]), self.value()))
        elif k == 'W':
            self.ops.append('W %d %d %d' % (self.root(), t.pick([20, 300, 700, 1500]), t.below(3)))
            self.mem += 60000
        elif k == 'L':
            self.ops.append('L %d %d %s' % (self.root(), t.pick([10, 200, 2000]), self.value()))
            self.mem += 60000
        else:
            self.hook()

    def target(self):
        p = 'r%d' % self.root()
        for _ in range(self.t.weighted([(5, 0), (3, 1), (1, 2)])):
            p += '.%d' % self.t.below(6)
        return p

    def hook(self):
        t = self.t
        self.ops.append('H %d %d %d' % (t.pick([1, 200, 1500, 6000, 0]), t.pick([1, 2, 5, 20, 0]),
                                        t.below(2)))

    def program(self):
        t = self.t
        self.hook()
        for _ in range(t.size(24)):
            self.alloc()
        for _ in range(t.size(30, 1)):
            # a phase: a short pattern repeated, with verification in between
            start = len(self.ops)
            for _ in range(t.between(1, 10)):
                self.op()
            body = self.ops[start:]
            mem0 = self.mem
            n = t.pick([1, 1, 2, 5, 20])
            cost = sum(1 for _ in body)
            while n > 1 and (self.mem > 6000000 or cost * n > 160):
                n //= 2
            for _ in range(n - 1):
                self.ops += body
            if t.bool(2, 3):
                self.ops.append('V')
            self.ops.append('T 1 0')
            if self.mem > 20000000:
                break
        return self.ops


class C(Check):
    id = 'C12'
    technique = ('model-based random histories of the C heap interface against a shadow object graph, '
                 'under random collection schedules')
    note = ('Objects of all kinds and size classes (and large ones up to 1.5 MB, one case up to the arena '
            'size) are created, linked, mutated, appended to and dropped through the C interface; all '
            'reachable objects are compared with the shadow graph for identity, type, size, contents and '
            'overlap. Collections start at calls, as in the real system.')
    rule = ('A case is one operation history. Non-trivial: at least two collections completed and at least '
            '50 object comparisons (taken from the run itself).')
    quick_n = 20000
    thorough_n = 60000
    batch = 60
    quick_time = 45
    thorough_time = 3000
    assumptions = ['Objects are reachable from a global before the next call from C, as the collector '
                   'does not scan the C stack.']

    def setup(self, work):
        self.tree = Tree(work, 'stress', libs=())

    def gen(self, t):
        g = G(t)
        return dict(ops=g.program())

    def fixed_cases(self):
        out = []
        big = ['H 0 0 0', 'A 0 1 67108000 0 3 0 0 0', 'T 3 0', 'A 1 1 33554000 1 5 0 0 0', 'T 3 0',
               'A 2 1 33554000 0 7 0 0 0', 'M 0 0', 'T 3 0', 'G 1 40000000 6', 'A 0 1 50000000 0 3 0 0 0', 'T 2 0', 'V']
        out.append(('arena-sized objects', dict(ops=big)))
        gen = ['H 1 0 1', 'A 0 2 8 0 0 1 2 3', 'A 1 3 0 0 0 5 0 0'] + ['T 1 0', 'G 0 0 40'] * 30
        for i in range(60):
            gen += ['A 2 0 0 0 0 %d r0' % i, 'S r0 %d r2' % (i % 8), 'S r1 0 r2', 'M 2 0', 'G 0 0 40', 'T 1 0', 'V']
        out.append(('old vector and cell, young values', dict(ops=gen)))
        lng = ['H 1 0 1', 'A 0 2 8 0 0 1 2 3']
        for i in range(120):
            lng += ['A 1 1 %d 0 %d 0 0 0' % (i * 37 % 9000, i), 'S r0 %d r1' % (i * 5 % 8), 'G 1 %d 3' % (i * 101 % 9000),
                    'G 0 0 20', 'T 1 0', 'V']
        out.append(('hundreds of cycles', dict(ops=lng)))
        return out

    def run(self, cases):
        d = tempfile.mkdtemp(dir=self.tree.base, prefix='b')
        try:
            cmds = [['limit', '20', '40']]
            for i, c in enumerate(cases):
                with open('%s/%d' % (d, i), 'w') as f:
                    f.write('\n'.join(c['ops']) + '\n')
                cmds.append(['heap', str(i), '%s/%d' % (d, i)])
            rc, o = self.tree.drive(cmds, results=d + '/res', cwd=d)
            r = parse_results(d + '/res')
            out = []
            for i, c in enumerate(cases):
                st, data = r.get(str(i), ('missing', b''))
                data = data.decode('latin-1')
                c['end'] = data
                if st != 'exit:0':
                    out.append('crash: %s %s' % (st, data))
                elif data.startswith('OK'):
                    out.append(None)
                else:
                    out.append('heap: ' + data.strip())
            return out
        finally:
            build.cleanup(d)

    def stats(self, c):
        w = c.get('end', '').split()
        return (int(w[1]), int(w[3])) if w[:1] == ['OK'] else (0, 0)

    def nontrivial(self, c):
        cy, ck = self.stats(c)
        return cy >= 2 and ck >= 50

    def labels(self, c):
        cy, ck = self.stats(c)
        k = {'A': 'alloc', 'S': 'store', 'P': 'append', 'M': 'move', 'G': 'garbage', 'T': 'call', 'W': 'wide', 'L': 'long'}
        out = {k[o[0]] for o in c['ops'] if o[0] in k}
        out.add('cycles>=%d' % (10 ** (len(str(cy)) - 1) if cy else 0))
        return sorted(out)

    def show(self, c):
        return '\n'.join(c['ops'])
