"""C18: string functions agree with a byte-string model."""
from pbt import sexp
from pbt.libcheck import LibCheck, blit, show_str

NREG = 5
MAXLEN = 20000

PRE = '''
(defun str-sym (s) (symbol->string (intern s)))
(defun str-get (v i) (vector-ref v i))
(defun str-put (v r x) (do (vt#emit x) (vector-set! v r x)))
(defun str-sign (n) (if (> n 0) 1 (if (< n 0) -1 0)))
(defun str-blit (b off l) (if (null? l) b (let s (car (car l)) o (cadr (car l)) n (caddr (car l))
   (do (cora/lib/string#memcpy b off s o n) (str-blit b (+ off n) (cdr l))))))
(defun str-pieces (v l) (map (lambda (p) (cons (str-get v (car p)) (cdr p))) l))
(func str-op
  v ['lit r s] => (str-put v r s)
  v ['bytes r s] => (str-put v r (vt#bytes s))
  v ['append r i j] => (str-put v r (string-append (str-get v i) (str-get v j)))
  v ['slice r i b e] => (str-put v r (cora/lib/string#string-slice (str-get v i) b e))
  v ['index r i k] => (str-put v r (cora/lib/string#string-index (str-get v i) k))
  v ['replace r i j k] => (str-put v r (cora/lib/string#string-replace (str-get v i) (str-get v j) (str-get v k)))
  v ['split i j] => (vt#emit (cora/lib/string#string-split (str-get v i) (str-get v j)))
  v ['part r i j k] => (str-put v r (str-nth k (cora/lib/string#string-split (str-get v i) (str-get v j))))
  v ['compare i j] => (vt#emit (str-sign (cora/lib/string#compare (str-get v i) (str-get v j))))
  v ['prefix i j] => (vt#emit (cora/lib/string#has-prefix? (str-get v i) (str-get v j)))
  v ['contain i j] => (vt#emit (cora/lib/string#string-contain? (str-get v i) (str-get v j)))
  v ['eq i j] => (vt#emit (= (str-get v i) (str-get v j)))
  v ['len i] => (vt#emit (list (cora/lib/string#string-length (str-get v i)) (bytes-length (str-get v i)) (string? (str-get v i))))
  v ['ref i k] => (vt#emit (cora/lib/string#byte-ref (str-get v i) k))
  v ['list i] => (vt#emit (cora/lib/string#string->list (str-get v i)))
  v ['num r n] => (str-put v r (cora/lib/string#number->string n))
  v ['sym r i] => (str-put v r (str-sym (str-get v i)))
  v ['blit r n ps] => (str-put v r (str-blit (bytes n) 0 (str-pieces v ps))))
(defun str-nth (k l) (if (= k 0) (car l) (str-nth (- k 1) (cdr l))))
(defun str-run (v ops) (if (null? ops) v (do (str-op v (car ops)) (str-run v (cdr ops)))))
(defun str-dump (v i) (if (= i (vector-length v)) () (cons (vector-ref v i) (str-dump v (+ i 1)))))
(defun str-start (i v) (if (< i 0) v (do (vector-set! v i "") (str-start (- i 1) v))))
(defun str-case (ops) (str-dump (str-run (str-start %d (vector %d)) ops) 0))
''' % (NREG - 1, NREG)


def sym_bytes(b):
    return 0 not in b


class G:
    def __init__(self, t):
        self.t = t
        self.r = [b''] * NREG
        self.out = []
        self.ops = []
        self.kinds = set()

    def reg(self):
        return self.t.below(NREG)

    def put(self, r, b):
        self.r[r] = b
        self.out.append(show_str(b) + '\n')

    def emit(self, s):
        self.out.append(s + '\n')

    def new(self):
        t = self.t
        k = t.below(6)
        if k == 0:
            return b''
        if k == 1:
            return bytes([t.below(256)]) * t.size(40)
        if k == 2:
            return bytes(t.pick(b'aab\0') for _ in range(t.size(40)))
        if k == 3:
            s = self.r[self.reg()]
            i = t.below(len(s) + 1)
            return s[i:i + t.size(8)]
        if k == 4:
            return bytes(t.below(256) for _ in range(t.size(120)))
        return sexp.string(t)[:300]

    def step(self, first=False):
        t = self.t
        k = 'lit' if first else t.weighted([(5, 'lit'), (3, 'bytes'), (6, 'append'), (5, 'slice'), (2, 'index'), (6, 'replace'), (4, 'split'),
                        (2, 'part'), (3, 'compare'), (3, 'prefix'), (3, 'contain'), (2, 'eq'), (2, 'len'), (2, 'ref'), (2, 'list'),
                        (2, 'num'), (2, 'sym'), (3, 'blit')])
        r, i, j, m = self.reg(), self.reg(), self.reg(), self.reg()
        a, b, c = self.r[i], self.r[j], self.r[m]
        op = None
        if k == 'lit':
            s = self.new()
            op = '(lit %d %s)' % (r, blit(s))
            self.put(r, s)
        elif k == 'bytes':
            s = self.new()[:60]
            op = '(bytes %d (%s))' % (r, ' '.join(map(str, s)))
            self.put(r, s)
        elif k == 'append':
            if len(a) + len(b) > MAXLEN:
                return
            op = '(append %d %d %d)' % (r, i, j)
            self.put(r, a + b)
        elif k == 'slice':
            n = len(a)
            e = t.pick([n, t.below(n + 1), t.below(n + 1), -t.below(n + 3), n + 1 + t.below(3)])
            lo = t.pick([0, t.below(n + 1), t.below(n + 1), -t.below(n + 3), n + t.below(3)])
            p = lo if lo >= 0 else n + lo
            q = e if e >= 0 else n + e
            op = '(slice %d %d %d %d)' % (r, i, lo, e)
            self.put(r, b'' if p < 0 or q > n or q < p else a[p:q])
        elif k == 'index':
            if not a:
                return
            x = t.below(len(a))
            op = '(index %d %d %d)' % (r, i, x)
            self.put(r, a[x:x + 1])
        elif k == 'replace':
            if len(a) + len(c) > MAXLEN:
                return
            op = '(replace %d %d %d %d)' % (r, i, j, m)
            x = a.find(b)
            self.kinds.add('found' if x >= 0 else 'not found')
            self.put(r, a if x < 0 else a[:x] + c + a[x + len(b):])
        elif k in ('split', 'part'):
            parts = a.split(b) if b else [a]
            if len(parts) > 400:
                return
            self.kinds.add('split into %s' % ('1' if len(parts) == 1 else '2+'))
            if k == 'split':
                op = '(split %d %d)' % (i, j)
                self.emit('(%s)' % ' '.join(map(show_str, parts)))
            else:
                x = t.below(len(parts))
                op = '(part %d %d %d %d)' % (r, i, j, x)
                self.put(r, parts[x])
        elif k == 'compare':
            op = '(compare %d %d)' % (i, j)
            self.emit(str((a > b) - (a < b)))
        elif k == 'prefix':
            op = '(prefix %d %d)' % (i, j)
            self.emit(str(a.startswith(b)).lower())
        elif k == 'contain':
            op = '(contain %d %d)' % (i, j)
            self.emit(str(b in a).lower())
        elif k == 'eq':
            op = '(eq %d %d)' % (i, j)
            self.emit(str(a == b).lower())
        elif k == 'len':
            op = '(len %d)' % i
            self.emit('(%d %d true)' % (len(a), len(a)))
        elif k == 'ref':
            if not a:
                return
            x = t.below(len(a))
            op = '(ref %d %d)' % (i, x)
            self.emit(str(a[x]))
        elif k == 'list':
            if len(a) > 500:
                return
            op = '(list %d)' % i
            self.emit('(%s)' % ' '.join(map(str, a)) if a else '()')
        elif k == 'num':
            v = sexp.number(t)
            op = '(num %d %d)' % (r, v)
            self.put(r, str(v).encode())
        elif k == 'sym':
            if 0 in a or len(a) > 3000:
                return
            op = '(sym %d %d)' % (r, i)
            self.put(r, a)
        elif k == 'blit':
            ps, res = [], b''
            for _ in range(t.between(1, 4)):
                x = self.reg()
                s = self.r[x]
                o = t.below(len(s) + 1)
                n = t.below(len(s) - o + 1)
                ps.append('(%d %d %d)' % (x, o, n))
                res += s[o:o + n]
            if not 0 < len(res) <= MAXLEN:
                return
            op = '(blit %d %d (%s))' % (r, len(res), ' '.join(ps))
            self.put(r, res)
        if op:
            self.kinds.add(k)
            self.ops.append(op)


class C(LibCheck):
    id = 'C18'
    technique = 'random sequences of string operations over registers, against a model on byte sequences'
    note = ('Sequences of up to 40 operations over five string registers: literals and runtime strings of any bytes (NUL '
            'included), string-append, string-slice (also negative and outside), string-index, string-replace, string-split, '
            'compare, has-prefix?, string-contain?, =, lengths, byte-ref, string->list, number->string, intern with '
            'symbol->string, bytes with memcpy. Every result and at the end every register is compared. Strings reach '
            '20,000 bytes; index arguments of string-index, byte-ref and memcpy are within the string.')
    rule = 'A case is an operation sequence. Non-trivial: at least eight operations of four kinds, with a string of ten bytes.'
    libs = ()
    imports = ('string',)
    pre = PRE
    fast = True
    quick_n = 16000
    thorough_n = 1000000
    quick_time = 30
    batch = 40

    def gen(self, t):
        g = G(t)
        n = t.between(1, 40)
        big = 0
        for i in range(n):
            g.step(i < 3)
            big = max([big] + [len(x) for x in g.r])
        src = "(vt#case CASE_ID (lambda () (str-case '(%s))))\n" % '\n '.join(g.ops)
        exp = ''.join(g.out) + '=> (%s)\n' % ' '.join(map(show_str, g.r))
        if len(exp) > 200000:
            from pbt.core import Discard
            raise Discard
        return dict(src=src, expect=exp, labels=sorted(g.kinds), nt=len(g.ops) >= 8 and len(g.kinds) >= 4 and big >= 10)

    def nontrivial(self, c):
        return c['nt']
