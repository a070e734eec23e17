"""C28: native strings, maps and vectors are what their names say."""
import os
import shlex
import subprocess
import tempfile
from pbt import build, sexp
from pbt.core import Check
from pbt.prog import judge

NR = 6


def sub(b, i, j):
    n = len(b)

    def at(i):
        if i >= 0:
            return i if i <= n else None
        return n + i if n + i >= 0 else None
    p, q = at(i), at(j)
    if p is None or q is None or p >= q:
        return b''
    return b[p:q]


class G:
    def __init__(self, t):
        self.t = t
        self.r = [b''] * NR
        self.ops, self.out = [], []
        self.kinds = set()
        self.m1, self.m2, self.m3 = {}, {}, {}
        self.keys1, self.keys2 = [], []
        self.v = []         # (char/int view, val, ptr)
        self.minit = self.vinit = False

    def bytes(self, hi=60):
        t = self.t
        k = t.below(6)
        if k == 0:
            return b''
        if k == 1:
            return bytes(t.pick(b'ab') for _ in range(t.size(20)))
        if k == 2:
            s = t.pick(self.r)
            i = t.below(len(s) + 1)
            return s[i:i + t.size(20)]
        if k == 3:
            return bytes(t.below(256) for _ in range(t.size(hi)))
        if k == 4:
            return bytes([t.below(256)]) * t.size(300)
        s = t.pick(self.r)
        return s + bytes([t.below(256)]) if t.bool() else s[:-1]

    def op(self, s, data=None):
        if data is not None:
            s += " '" + data.hex() + "'"
        self.ops.append(s)

    def show(self, r, b):
        self.r[r] = b
        self.out.append('"%s"' % b.hex())

    def e(self, s):
        self.out.append(str(s))

    def idx(self, n):
        t = self.t
        return t.pick([0, n, t.below(n + 1), t.below(n + 1), -t.below(n + 2), n + 1 + t.below(3), -n - 1 - t.below(3), -1])

    def string(self):
        t = self.t
        k = t.weighted([(3, 'blk'), (2, 'new'), (2, 'cstr'), (2, 'dup'), (3, 'cpy'), (3, 'cpyr'), (5, 'cat'), (4, 'catr'), (4, 'app'),
                        (2, 'many'), (4, 'shrink'), (2, 'reserve'), (3, 'sub'), (2, 'subx'), (3, 'str'), (2, 'strr'), (2, 'strx'), (2, 'chr'),
                        (2, 'rchr'), (3, 'cmp'), (1, 'len')])
        self.kinds.add(k)
        r, q = t.below(NR), t.below(NR)
        a, b = self.r[r], self.r[q]
        s = self.bytes()
        if len(a) > 12000 or len(b) > 12000:
            k = 'shrink'
        if k == 'blk':
            self.op('blk %d' % r, s)
            self.show(r, s)
        elif k == 'new':
            self.op('new %d %d' % (r, t.pick([1, 2, 3, 15, 16, 17, 100])))
            self.show(r, b'')
        elif k == 'cstr':
            s = s.replace(b'\0', b'')
            self.op('cstr %d' % r, s)
            self.e(len(s))
            self.show(r, s)
        elif k == 'dup':
            self.op('dup %d %d' % (r, q))
            self.show(r, b)
        elif k == 'cpy':
            self.op('cpy %d' % r, s)
            self.show(r, s)
        elif k == 'cpyr':
            if r == q:
                return
            self.op('cpyr %d %d' % (r, q))
            self.show(r, b)
        elif k == 'cat':
            self.op('cat %d' % r, s)
            self.show(r, a + s)
        elif k == 'catr':
            if r == q:
                return
            self.op('catr %d %d' % (r, q))
            self.show(r, a + b)
        elif k == 'app':
            self.op('app %d' % r, s)
            self.show(r, a + s)
        elif k == 'many':
            n, c, d = t.pick([1, 5, 14, 15, 16, 17, 40, 200, 1100, 2600]), t.below(256), t.below(8)
            self.op('many %d %d %d %d' % (r, n, c, d))
            self.show(r, a + bytes((c + i * d) & 255 for i in range(n)))
        elif k == 'shrink':
            n = t.pick([0, 1, len(a), len(a) + 1, t.below(len(a) + 1), t.below(len(a) + 1)])
            self.op('shrink %d %d' % (r, n))
            self.show(r, b'' if n >= len(a) else a[:len(a) - n])
        elif k == 'reserve':
            n = t.pick([1, len(a) + 1, len(a) + 2, 2 * len(a) + 1, 64])
            self.op('reserve %d %d' % (r, n))
            self.show(r, a)
        elif k in ('sub', 'subx'):
            x = a if k == 'sub' else s
            i, j = self.idx(len(x)), self.idx(len(x))
            self.op('%s %d %d %d' % (k, r, i, j), None if k == 'sub' else s)
            self.e('"%s"' % sub(x, i, j).hex())
        elif k == 'str':
            self.op('str %d' % r, s)
            self.e(a.find(s))
        elif k == 'strr':
            self.op('strr %d %d' % (r, q))
            self.e(a.find(b))
        elif k == 'strx':
            i, j = self.idx(len(a)), self.idx(len(a))
            x = sub(a, i, j)
            if t.bool() and x:
                p = t.below(len(x))
                s = x[p:] if t.bool() else x[p:] + b'a'
            self.op('strx %d %d %d' % (r, i, j), s)
            self.e(x.find(s))
        elif k in ('chr', 'rchr'):
            c = t.pick(s) if s and t.bool() else t.below(256)
            self.op('%s 0 %d' % (k, c), s)
            self.e(s.find(bytes([c])) if k == 'chr' else s.rfind(bytes([c])))
        elif k == 'cmp':
            self.op('cmp %d' % r, s)
            x = (a > s) - (a < s)
            self.e('%d %d' % (x, -x))
        else:
            self.op('len', s)
            self.e(len(s))

    def map(self):
        t = self.t
        if not self.minit:
            self.minit = True
            self.op('minit %d' % t.below(3))
        k = t.weighted([(12, 'm'), (12, 's'), (8, 'i'), (1, 'mm')])
        self.kinds.add('map ' + k)
        put = t.bool()
        if k == 'mm':
            # many keys, most on one path
            h = t.pick([0, 5, 1 << 62, 7 << 30, t.below(1 << 63)])
            n = t.pick([5, 33, 40, 80])
            ks = []
            for i in range(n):
                j = 100 + t.below(200)
                x = h if not t.bool(1, 8) else h ^ (1 << t.below(62))
                key = next((y for y in self.keys1 if y[1] == j), (x, j))
                if key not in self.keys1:
                    self.keys1.append(key)
                v, w = t.below(1000), t.below(1 << 40)
                self.op('mset %d %d %d %d' % (key + (v, w)))
                self.m1[j] = 'v %d %d %d' % (v, ~v, w)
                ks.append(key)
            for key in t.shuffle(ks)[:t.pick([3, 80])]:
                self.op('mget %d %d' % key)
                self.e(self.m1[key[1]])
            return
        if k == 'm':
            if self.keys1 and t.bool(2, 3):
                key = t.pick(self.keys1)
            else:
                h = t.pick([0, 1, 1 << 62, -1, t.below(16) << 60, t.below(1 << 20) << 44]) if t.bool() or not self.keys1 else t.pick(self.keys1)[0]
                h = h - (1 << 64) if h >= 1 << 63 else h
                key = (h, t.below(40))
                key = next((x for x in self.keys1 if x[1] == key[1]), key)
                if key not in self.keys1:
                    self.keys1.append(key)
            if put:
                v, w = t.below(1000), t.below(1 << 40)
                self.op('mset %d %d %d %d' % (key + (v, w)))
                self.m1[key[1]] = 'v %d %d %d' % (v, ~v, w)
            else:
                self.op('mget %d %d' % key)
                self.e(self.m1.get(key[1], 'none'))
        elif k == 's':
            key = t.pick(self.keys2) if self.keys2 and t.bool(2, 3) else self.bytes(12)
            self.keys2.append(key)
            if put:
                d = t.below(10)
                self.op('sset %d' % d, key)
                self.m2[key] = key + b'%d' % d
            else:
                self.op('sget 0', key)
                self.e('"%s"' % self.m2[key].hex() if key in self.m2 else 'none')
        else:
            key = t.below(12) - 6
            if put:
                v = t.below(1000) - 500
                self.op('iset %d %d' % (key, v))
                self.m3[key] = v
            else:
                self.op('iget %d' % key)
                self.e(self.m3.get(key, 'none'))

    def vec(self):
        t = self.t
        if not self.vinit:
            self.vinit = True
            self.op('vinit %d' % t.pick([0, 1, 2, 3, 8]))
        k = t.weighted([(8, 'app'), (2, 'set'), (2, 'ref'), (3, 'pop'), (3, 'get'), (1, 'len'), (1, 'free'), (2, 'apps')])
        self.kinds.add('vector ' + k)

        def view(x):
            c = x['c'] & 255
            return '%d %d %s %d %d %d %d' % (c - 256 if c > 127 else c, x['i'], x['t'], x['a'], 3 * x['a'], -x['a'], x['p'])
        if k in ('app', 'apps'):
            for _ in range(t.pick([3, 10, 40]) if k == 'apps' else 1):
                a = t.below(1000)
                self.op('vapp %d' % a)
                self.v.append(dict(c=a, i=a, t='w', a=a, p=a))
        elif k == 'len':
            self.op('vlen')
            n = len(self.v)
            self.e('%d %d %d %d 1' % (n, n, n, n))
        elif k == 'free':
            self.op('vfree')
            if t.bool():
                self.op('vinit %d' % t.pick([0, 1, 4]))
            self.v = []
        elif self.v:
            i = t.below(len(self.v))
            if k == 'set':
                b = t.below(1000)
                self.op('vset %d %d' % (i, b))
                self.v[i] = dict(c=b, i=b, t='s', a=b, p=b)
            elif k == 'ref':
                self.op('vref %d' % i)
                self.v[i] = dict(self.v[i], i=self.v[i]['i'] + 1, p=self.v[i]['p'] + 1)
            elif k == 'get':
                self.op('vget %d' % i)
                self.e(view(self.v[i]))
            else:
                self.op('vpop')
                self.e(view(self.v.pop()))


class C(Check):
    id = 'C28'
    technique = 'random operation sequences on the C containers under AddressSanitizer, against sequence and finite-map models'
    note = ('Sequences of up to 80 operations on six byte strings (all functions of str.h, exact-size operands), on three maps '
            '(keys whose hashes collide in some or all digits, value types of 2, 8 and 32 bytes) and on vectors of four '
            'element sizes, compiled with AddressSanitizer and UBSan from the working tree. Every result and final content is '
            'compared. A string appended to itself is outside the domain.')
    rule = 'A case is an operation sequence. Non-trivial: at least ten operations of five kinds.'
    quick_n = 16000
    thorough_n = 600000
    batch = 100
    quick_time = 30

    def setup(self, work):
        self.work = work
        self.exe = work + '/cont'
        src = build.REPO + '/src'
        build.sh(['gcc'] + shlex.split(build.cflags('asan')) + ['-w', '-I' + src, build.ROOT + '/driver/cont.c', src + '/str.c', '-o', self.exe])

    def gen(self, t):
        g = G(t)
        mode = t.below(4)
        for _ in range(t.between(1, 80)):
            k = mode if mode < 3 else t.below(3)
            (g.string, g.map, g.vec)[k]()
        for b in g.r:
            g.e('"%s"' % b.hex())
        g.e('end')
        return dict(src=''.join(o + '\n' for o in g.ops), expect='\n'.join(g.out) + '\n', kinds=sorted(g.kinds), nops=len(g.ops))

    def run(self, cases):
        d = tempfile.mkdtemp(dir=self.work, prefix='b')
        try:
            fs = []
            for i, c in enumerate(cases):
                with open('%s/%d' % (d, i), 'w') as f:
                    f.write(c['src'])
                fs.append('%s/%d' % (d, i))
            env = dict(PATH=build.ENVPATH, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
            subprocess.run([self.exe] + fs, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            out = []
            for i, c in enumerate(cases):
                try:
                    st = open('%s/%d.st' % (d, i)).read()
                    got = open('%s/%d.out' % (d, i)).read()
                    m = judge(c['expect'], (st, got))
                    if m and m.startswith('crash'):
                        m += open('%s/%d.err' % (d, i), errors='replace').read()[:1500]
                    out.append(m)
                except FileNotFoundError:
                    out.append('crash: no result')
            return out
        finally:
            build.cleanup(d)

    def nontrivial(self, c):
        return c['nops'] >= 10 and len(c['kinds']) >= 5

    def labels(self, c):
        return c['kinds']

    def show(self, c):
        return c['src'] + ';; expect\n' + c['expect']

    def key(self, c):
        return c['src']
