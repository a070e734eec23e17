"""C15: the reader survives any input."""
import tempfile
from pbt import build, sexp
from pbt.core import Check
from pbt.build import Tree
from pbt.prog import parse_results

TOK = ['(', ')', '[', ']', "'", '`', ',', ';', '"', '\\', '.', ' . ', ' ', '\n', '\r', '\t', '\0', '-', '-1', '0', '00',
       '9007199254740992', '9007199254740993', '99999999999999999999999', '-9223372036854775809', '1a', '-1a', '\\n',
       'true', 'false', 'a', 'abc', '\xff', '\x80', '#', ';\n', '""', '()', '[]', "'()", '[a . b]', '[. a]', '[a . b c]',
       '[.a]', '(. a)', '"\\"', '"a\\', '%s%n', 'x' * 300, '7' * 300, '-' + '7' * 40]


class C(Check):
    id = 'C15'
    technique = ('generated and mutated byte sequences read under AddressSanitizer, against an independent reader of the '
                 'notation')
    note = ('Byte sequences: written data with bytes and tokens inserted, deleted, replaced or swapped, cut short, or random '
            'tokens and bytes; with nesting and tokens up to 200,000 long as fixed cases. The process must end '
            'by itself without a memory error, all data before the malformed part must be as an independent reader finds them, '
            'and of well-formed text nothing may be missing, added or refused.')
    rule = ('A case is one byte sequence. Non-trivial: it is malformed or cut short, after at least one complete '
            'datum or five opened tokens.')
    quick_n = 20000
    thorough_n = 800000
    batch = 150
    quick_time = 35

    def setup(self, work):
        self.tree = Tree(work, 'asan', libs=())

    def gen(self, t):
        k = t.below(4)
        if k == 0:
            b = ''.join(t.pick(TOK) for _ in range(t.size(60)))
            return b.encode('latin-1')
        if k == 1 and t.bool(1, 3):
            return bytes(t.below(256) for _ in range(t.size(300)))
        s = ''
        for _ in range(t.between(1, 4)):
            s += sexp.write(t, sexp.datum(t, t.below(5))) + ' '
        b = bytearray(s.encode('latin-1'))
        for _ in range(t.below(4)):
            i = t.below(len(b) + 1)
            j = min(len(b), i + t.between(1, 3))
            m = t.below(6)
            if m == 0:
                del b[i:j]
            elif m == 1:
                b[i:i] = t.pick(TOK).encode('latin-1')
            elif m == 2:
                b[i:j] = t.pick(TOK).encode('latin-1')
            elif m == 3:
                b[i:i] = bytes([t.below(256)])
            elif m == 4:
                del b[i:]
            else:
                p = t.below(len(b) + 1)
                b[i:i] = b[p:p + t.size(60)]
        return bytes(b)

    def fixed_cases(self):
        n = 200000
        out = []
        for name, b in (('open', b'(' * n), ('nested', b'(' * n + b')' * n), ('brackets', b'[' * n),
                        ('brackets nested', b'[' * n + b']' * n), ('quotes', b"'" * n), ('backquotes', b'`' * n),
                        ('unquotes', b',' * n + b'a'), ('mixed', b"([',`" * n), ('digits', b'1' * n), ('minus digits', b'-' + b'1' * n),
                        ('symbol', b'a' * n), ('string', b'"' + b'a' * n + b'"'), ('open string', b'"' + b'\\a' * n),
                        ('comment', b';' * n), ('blanks', b' \n' * n), ('list', b'(' + b'1 ' * n + b')'),
                        ('nested 5000', b'(' * 5000 + b'1' + b')' * 5000)):
            out.append((name, b))
        return out

    def run(self, cases):
        d = tempfile.mkdtemp(dir=self.tree.base, prefix='b')
        out = []
        try:
            cmds = [['limit', '20', '60']]
            for i, c in enumerate(cases):
                with open('%s/%d' % (d, i), 'wb') as f:
                    f.write(c)
                cmds.append(['read', str(i), '%s/%d' % (d, i)])
            self.tree.drive(cmds, results=d + '/res', cwd=d)
            r = parse_results(d + '/res')
            for i, c in enumerate(cases):
                st, got = r.get(str(i), ('missing', b''))
                out.append(self.judge(c, st, got.decode('latin-1')))
        finally:
            build.cleanup(d)
        return out

    @staticmethod
    def judge(c, st, got):
        data, how = sexp.Reader(c).all()
        want = ''.join('datum %s\n' % sexp.canon(x) for x in data)
        if st.startswith('timeout'):
            return 'timeout: the reader does not end'
        if st not in ('exit:0', 'exit:1'):
            return 'crash: %s after %r' % (st, got[-300:])
        if 'toomany\n' in got:
            return 'runaway: more data than bytes'
        if not got.startswith(want):
            return 'wrong: expected %r first, got %r' % (want[-300:], got[:300])
        if how == 'end' and (got != want + 'end\n' or st != 'exit:0'):
            return 'wrong: expected %r, got %s %r' % (want[-200:] + 'end\n', st, got[-300:])
        return None

    def nontrivial(self, c):
        r = sexp.Reader(c)
        data, how = r.all()
        cut = how == 'end' and r.cut
        return (how != 'end' or cut) and (len(data) > 0 or sum(c.count(x) for x in b'([\'`,"') >= 5)

    def labels(self, c):
        r = sexp.Reader(c)
        data, how = r.all()
        return [how if how != 'end' else 'cut' if r.cut else 'well-formed']

    def show(self, c):
        return repr(c)
