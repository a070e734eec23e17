"""C36: numbers are integers, and every value has one type."""
from pbt.lang import show_str
from pbt.libcheck import LibCheck, blit

PRE = '''
(defun ty-1 (x) (list (number? x) (integer? x) (string? x) (symbol? x) (cons? x) (null? x) (boolean? x) (vector? x) (atom? x)))
(defun ty-if (x) (if (number? x) 'number (if (string? x) 'string (if (symbol? x) 'symbol (if (cons? x) 'cons (if (null? x) 'null (if (boolean? x) 'boolean (if (vector? x) 'vector 'other))))))))
(defun ty-apply (p x) (p x))
(defun ty-2 (x) (map (lambda (p) (p x)) (list number? integer? string? symbol? cons? null? boolean? vector? atom?)))
(defun ty-3 (x) (list (ty-apply number? x) (ty-apply symbol? x) (apply vector? (list x)) (apply string? (list x)) (not (not (ty-apply cons? x)))))
(func ty-pat
  [a . b] => 'cons
  [] => 'null
  true => 'boolean
  false => 'boolean
  x => 'other)
(func ty-op
  ['+ a b] => (+ a b)
  ['- a b] => (- a b)
  ['* a b] => (* a b)
  ['/ a b] => (/ a b)
  ['mod a b] => (- a (* b (/ a b))))
(func ty-cmp
  ['= a b] => (= a b)
  ['< a b] => (< a b)
  ['> a b] => (> a b))
(defun ty-call (op a b) (op a b))
(func ty-fun '+ => + '- => - '* => * '/ => / 'mod => (lambda (a b) (- a (* b (/ a b)))) '= => = '< => < '> => >)
(defun ty-see (x) (do (vt#emit x) (do (vt#emit (ty-if x)) (do (vt#emit (ty-1 x)) (do (vt#emit (ty-2 x)) (do (vt#emit (ty-3 x)) (do (vt#emit (ty-pat x)) x)))))))
(defun ty-reg (v i) (if (cons? i) (car i) (vector-ref v i)))
(func ty-step
  v ['see i] => (ty-see (vector-ref v i))
  v ['cmp op i j] => (let a (ty-reg v i) b (ty-reg v j) (vt#emit (list (ty-cmp (list op a b)) (ty-call (ty-fun op) a b))))
  v ['ar op d i j] => (let a (ty-reg v i) b (ty-reg v j) r (ty-op (list op a b)) (do (vector-set! v d r) (vt#emit (list r (ty-call (ty-fun op) a b) ((ty-fun op a) b) (= r (ty-op (list op a b))))))))
(defun ty-steps (v ops) (if (null? ops) 'done (do (ty-step v (car ops)) (ty-steps v (cdr ops)))))
(defun ty-init (v i xs) (if (null? xs) v (do (vector-set! v i (car xs)) (ty-init v (+ i 1) (cdr xs)))))
(defun ty-case (xs ops) (ty-steps (ty-init (vector (length xs)) 0 xs) ops))
(defun ty-f2 (a b) (+ a b))
'''
NR = 8
LIM = 2 ** 53


def ints(t):
    return max(-LIM, min(LIM, ints1(t)))


def ints1(t):
    k = t.below(8)
    if k == 0:
        return t.below(70)
    if k == 1:
        return t.pick([1, -1]) * t.below(1 << t.between(1, 53))
    if k == 2:
        return t.pick([1, -1]) * (2 ** t.below(54) + t.pick([-1, 0, 0, 1])) if t.bool() else t.pick([LIM, -LIM, LIM - 1, 1 - LIM])
    if k == 3:      # few significant bits: every pattern at the top of the fraction
        return t.pick([1, -1]) * (t.below(32) + 32) << t.below(48)
    if k == 4:
        return t.pick([2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 0, 1, -1])
    if k == 5:
        return -t.below(70)
    return t.below(1 << 20) - (1 << 19)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': tdiv, 'mod': lambda a, b: a - b * tdiv(a, b)}
CMP = {'=': lambda a, b: a == b, '<': lambda a, b: a < b, '>': lambda a, b: a > b}
TYPES = ('number', 'number', 'string', 'symbol', 'cons', 'null', 'boolean', 'vector')


def tf(b):
    return 'true' if b else 'false'


class C(LibCheck):
    id = 'C36'
    technique = 'random values and arithmetic histories, against integer arithmetic and a table of types'
    note = ('Integers of every magnitude to 2^53 and both signs, in particular every pattern of the leading bits, and the results of '
            'up to 30 additions, subtractions, multiplications, truncating divisions, remainders and comparisons of them; strings, symbols, gensyms, '
            'pairs, vectors, booleans, (), functions and partial applications. Every operation inline, as a function value and '
            'partially applied; every type test in an `if`, inline, mapped, applied and as a pattern. Results beyond 2^53 and division by 0 are outside.')
    rule = 'A case is eight values and a history. Non-trivial: at least three operations, one on a number beyond 2^20 or a value that is no number.'
    libs = ()
    imports = ()
    pre = PRE
    fast = True
    quick_n = 16000
    thorough_n = 1000000
    quick_time = 30
    batch = 60

    def value(self, t):
        """-> (source, type, printed, number)"""
        if t.bool(3, 4):
            n = ints(t)
            return str(n), 'number', str(n), n
        k = t.below(11)
        if k == 0:
            b = bytes(t.below(128) for _ in range(t.below(6))).replace(b'\0', b'a').replace(b'\\', b'/').replace(b'\n', b'n')
            return blit(b), 'string', show_str(b), None
        if k == 1:
            s = t.pick(['a', 'foo', 'x1', '-', '+a', 'if', 'b/c'])
            return "'" + s, 'symbol', s, None
        if k == 2:
            return '(gensym)', 'symbol', '#g', None
        if k == 3:
            n = ints(t)
            return '(cons %d %d)' % (n, n), 'cons', '(%d . %d)' % (n, n), None
        if k == 4:
            return "'(1 (2) \"x\")", 'cons', '(1 (2) "x")', None
        if k == 5:
            return '()', 'null', '()', None
        if k == 6:
            return t.pick([('true', 'boolean', 'true', None), ('false', 'boolean', 'false', None)])
        if k == 7:
            n = t.below(3)
            return '(let v (vector 2) (do (vector-set! v 0 %d) (do (vector-set! v 1 ()) v)))' % n, 'vector', '#(%d ())' % n, None
        if k == 8:
            return t.pick(['(lambda (x) x)', 'ty-f2', '(ty-f2 1)', '(+ 1)', '(lambda () 1)', 'car', '(vector-ref)', 'number?']), 'other', '#fn', None
        if k == 9:
            return '(bytes 0)', 'string', '""', None
        return '(- 0 0)', 'number', '0', 0

    def gen(self, t):
        vs = [self.value(t) for _ in range(NR)]
        nums = {i: v[3] for i, v in enumerate(vs) if v[3] is not None}
        show = {i: v[2] for i, v in enumerate(vs)}
        typ = {i: v[1] for i, v in enumerate(vs)}
        ops, out, labels = [], [], set()
        big = False
        for _ in range(t.between(1, 30)):
            k = t.below(5)
            if k == 0 or not nums:
                i = t.below(NR)
                ty = typ[i]
                ops.append('(see %d)' % i)
                row = [tf(x == ty) for x in TYPES] + [tf(ty != 'cons')]
                one = {x: tf(x == ty) for x in ('number', 'symbol', 'vector', 'string', 'cons')}
                out += [show[i], ty, '(%s)' % ' '.join(row), '(%s)' % ' '.join(row),
                        '(%s)' % ' '.join(one[x] for x in ('number', 'symbol', 'vector', 'string', 'cons')),
                        ty if ty in ('cons', 'null', 'boolean') else 'other']
                labels.add('see ' + ty)
                big |= ty != 'number' or abs(nums[i]) > 1 << 20
                continue

            def operand():
                if t.bool(1, 4):
                    n = ints(t)
                    return '(%d)' % n, n
                i = t.pick(sorted(nums))
                return str(i), nums[i]
            (i, a), (j, b) = operand(), operand()
            if k == 1:
                op = t.pick(sorted(CMP))
                ops.append('(cmp %s %s %s)' % (op, i, j))
                r = tf(CMP[op](a, b))
                out.append('(%s %s)' % (r, r))
            else:
                op = t.pick(sorted(OPS))
                if op in '/mod' and b == 0:
                    continue
                r = OPS[op](a, b)
                if abs(r) > LIM:
                    continue
                if op == 'mod' and abs(b * tdiv(a, b)) > LIM:
                    continue
                d = t.below(NR)
                ops.append('(ar %s %d %s %s)' % (op, d, i, j))
                nums[d], show[d], typ[d] = r, str(r), 'number'
                out.append('(%d %d %d true)' % (r, r, r))
                big |= abs(r) > 1 << 20
            labels.add(op)
        src = "(vt#case CASE_ID (lambda () (ty-case (list %s) '(%s))))\n" % (' '.join(v[0] for v in vs), ' '.join(ops))
        return dict(src=src, expect='\n'.join(out) + ('\n' if out else '') + '=> done\n', labels=sorted(labels), nt=big and len(ops) >= 3)

    def nontrivial(self, c):
        return c['nt']
