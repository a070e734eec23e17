"""C14: printed data reads back as itself; the source notation denotes the data written."""
import tempfile
from pbt import build, sexp
from pbt.core import Check
from pbt.build import Tree
from pbt.prog import Runner, parse_results, judge


class C(Check):
    id = 'C14'
    technique = 'random data in random spellings: value read against the datum written, and print-then-read round trip'
    note = ('Data of integers up to 2^53, booleans, symbols of any bytes, strings of any bytes and lists, '
            'written with random abbreviations, leading zeros, escapes, blanks and comments. The C reader '
            'must give the datum, its printed form must read as the datum, and as a quoted constant '
            'interpreted and compiled programs must see it. Pairs that are not lists have no notation.')
    rule = 'A case is a sequence of one to four data. Non-trivial: at least ten atoms or three levels in all.'
    quick_n = 20000
    thorough_n = 600000
    batch = 80
    quick_time = 35

    def setup(self, work):
        self.tree = Tree(work, 'plain', libs=('eval', 'peval', 'sys'))
        self.runner = Runner(self.tree)

    def gen(self, t):
        data = [sexp.datum(t, t.below(6)) for _ in range(t.between(1, 4))]
        text = ''
        for d in data:
            s = sexp.write(t, d)
            if text and ord(text[-1]) not in sexp.NONID:
                s = ' ' + s
            text += s
        text += t.pick(['', '\n', ' ', ';x', '\n;y\n'])
        return dict(data=data, text=text, prog=t.bool(1, 5))

    def fixed_cases(self):
        q = b'ab"\\' * 50000
        return [('long list', dict(data=[list(range(150000))], prog=False,
                                   text='(' + ' '.join(map(str, range(150000))) + ')')),
                ('long string', dict(data=[q], prog=False, text='"' + 'ab\\"\\\\' * 50000 + '"')),
                ('long symbol', dict(data=[sexp.Sym('s' * 100000)], prog=False, text='s' * 100000))]

    def run(self, cases):
        d = tempfile.mkdtemp(dir=self.tree.base, prefix='b')
        out = []
        try:
            cmds = [['limit', '20', '40']]
            for i, c in enumerate(cases):
                with open('%s/%d' % (d, i), 'wb') as f:
                    f.write(c['text'].encode('latin-1'))
                cmds.append(['read', str(i), '%s/%d' % (d, i), 'back'])
            rc, o = self.tree.drive(cmds, results=d + '/res', cwd=d)
            r = parse_results(d + '/res')
            for i, c in enumerate(cases):
                want = ''.join('datum %s\n' % sexp.canon(x) for x in c['data']) + 'end\n'
                st, got = r.get(str(i), ('missing', b''))
                out.append(judge(want, (st, got.decode('latin-1'))))
        finally:
            build.cleanup(d)
        ids = [i for i, c in enumerate(cases) if c['prog'] and out[i] is None]
        for mode in ('eval', 'compiled'):
            ids = [i for i in ids if out[i] is None]

            def src(k, j):
                c = cases[ids[k]]
                return '(vt#case %d (lambda () (quote (%s\n))))\n' % (j, c['text'])
            for i, x in zip(ids, self.runner.run(src, len(ids), mode=mode)):
                m = judge('=> %s\n' % sexp.canon(cases[i]['data']), x)
                if m:
                    k, _, rest = m.partition(':')
                    out[i] = '%s (quoted, %s):%s' % (k, mode, rest)
        return out

    def nontrivial(self, c):
        def atoms(v):
            return sum(map(atoms, v)) if isinstance(v, list) else 1

        def depth(v):
            return 1 + max(map(depth, v), default=0) if isinstance(v, list) else 0
        return atoms(c['data']) >= 10 or depth(c['data']) > 3

    def labels(self, c):
        out = set()

        def go(v):
            if isinstance(v, list):
                out.add('list')
                for e in v:
                    go(e)
            else:
                out.add(type(v).__name__)
        go(c['data'])
        if c['prog']:
            out.add('quoted in programs')
        return sorted(out)

    def show(self, c):
        return c['text']

    def key(self, c):
        return c['text']
