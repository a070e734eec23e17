"""C19: hash tables are finite maps."""
from pbt import sexp
from pbt.lang import Sym
from pbt.libcheck import LibCheck

PRE = '''
(defun hm-get (h k) (let r (cora/lib/hash#hash-get h k) (if (null? r) 'none (if (= k (car r)) (cdr r) 'wrong-key))))
(func hm-op
  v ['set t k x] => (do (cora/lib/hash#hash-set! (vector-ref v t) k x) (cora/lib/hash#hash-count (vector-ref v t)))
  v ['cat t k j x] => (do (cora/lib/hash#hash-set! (vector-ref v t) (string-append k j) x) (cora/lib/hash#hash-count (vector-ref v t)))
  v ['del t k] => (do (cora/lib/hash#hash-del! (vector-ref v t) k) (cora/lib/hash#hash-count (vector-ref v t)))
  v ['get t k] => (hm-get (vector-ref v t) k)
  v ['new t n] => (do (vector-set! v t (cora/lib/hash#hash-make n)) 0)
  v ['mod a b] => (cora/lib/hash-h#mod a b))
(defun hm-run (v ops) (if (null? ops) 0 (do (vt#emit (hm-op v (car ops))) (hm-run v (cdr ops)))))
(defun hm-keys (v t ks) (if (null? ks) () (cons (hm-get (vector-ref v t) (car ks)) (hm-keys v t (cdr ks)))))
(defun hm-case (ops keys) (let v (vector 3) (do (hm-run v ops) (list (hm-keys v 0 keys) (hm-keys v 1 keys) (hm-keys v 2 keys)))))
'''


def near(t, k):
    """A key that tends to fall into the same bucket."""
    if isinstance(k, bool) or not k:
        return t.pick([True, False, [], 17, 37, 41, 47, 42, b'', Sym('*')])
    if isinstance(k, int):
        return t.pick([-k, k + 1, k + 1 << 32 if abs(k) < 1000 else k, Sym('a'), [k], [k, k]])
    if isinstance(k, Sym):
        b = [c for c in str(k)]
        return t.pick([Sym(''.join(t.shuffle(b))) if not b[0].isdigit() else k, k.encode('latin-1'), sum(map(ord, b))])
    if isinstance(k, bytes):
        return t.pick([bytes(t.shuffle(list(k))), k + b'\0', k + b'\0a', b'\0' + k, k[::-1], 7671 + sum(k)])
    return t.pick([k[::-1], [k], k[1:], k + [0], [[]] + k, t.shuffle(k)])


def canon_key(k):
    return sexp.canon(k)


class C(LibCheck):
    id = 'C19'
    technique = 'random histories of operations on hash tables, against a finite-map model'
    note = ('Histories of up to 60 operations (hash-make, hash-set!, replacement, hash-del! of present and absent keys, '
            'hash-get, hash-count) on three tables of 1 to 100 buckets, with keys that are integers to 2^53 of both signs, '
            'booleans, symbols, strings of any bytes, lists, and keys made to fall into the same bucket. After the history '
            'every table is asked for every key. Also hash-h#mod on integers.')
    rule = 'A case is a history. Non-trivial: a key is replaced or deleted, and two different keys share a bucket or a table holds three keys.'
    libs = ('hash',)
    imports = ('hash',)
    pre = PRE
    fast = True
    quick_n = 16000
    thorough_n = 800000
    quick_time = 30

    def gen(self, t):
        pool = [t.int() if t.bool() else sexp.datum(t, t.below(3))]
        while len(pool) < t.between(2, 12):
            k = t.below(4)
            if k == 0:
                pool.append(sexp.datum(t, t.below(3)))
            elif k == 1:
                pool.append(t.pick([0, 1, -1, 3, -3, 7, 10, 100, -100]))
            else:
                pool.append(near(t, t.pick(pool)))
        def ok(k):
            if isinstance(k, int):
                return abs(k) <= 1 << 50
            if isinstance(k, bytes):
                return len(k) < 300
            if isinstance(k, Sym):
                s = str(k)
                return len(s) < 300 and s not in ('true', 'false', '.') and s[0:1] and not s[0].isdigit() and \
                    not (s[0] == '-' and s[1:].isdigit()) and s[0] != '.'
            return all(ok(x) for x in k)
        pool = [k for k in pool if ok(k)] or [0]
        txt = [sexp.write(t, k) for k in pool]
        ks = [canon_key(k) for k in pool]
        tabs = [{}, {}, {}]
        caps = [0, 0, 0]
        ops, out = [], []
        seen = set()
        for i in range(3):
            caps[i] = t.pick([1, 1, 2, 3, 4, 7, 16, 64, 100])
            ops.append('(new %d %d)' % (i, caps[i]))
            out.append('0')
        for _ in range(t.between(1, 60)):
            x = t.pick([0, 0, 0, 1, 2])
            i = t.below(len(pool))
            k = t.weighted([(5, 'set'), (3, 'get'), (3, 'del'), (1, 'mod'), (1, 'cat')])
            if k == 'mod':
                a, b = t.int(), t.int() or 1
                ops.append('(mod %d %d)' % (a, b))
                out.append(str(a % b))
                continue
            if k == 'set':
                v = len(ops)
                if ks[i] in tabs[x]:
                    seen.add('replace')
                tabs[x][ks[i]] = v
                ops.append('(set %d %s %d)' % (x, txt[i] + '\n', v))
                out.append(str(len(tabs[x])))
            elif k == 'cat' and isinstance(pool[i], bytes):
                j = t.below(len(pool[i]) + 1)
                v = len(ops)
                tabs[x][ks[i]] = v
                ops.append('(cat %d %s %s %d)' % (x, sexp.write(t, pool[i][:j]), sexp.write(t, pool[i][j:]), v))
                out.append(str(len(tabs[x])))
            elif k == 'del':
                seen.add('delete' if ks[i] in tabs[x] else 'delete absent')
                tabs[x].pop(ks[i], None)
                ops.append('(del %d %s)' % (x, txt[i] + '\n'))
                out.append(str(len(tabs[x])))
            else:
                seen.add('hit' if ks[i] in tabs[x] else 'miss')
                ops.append('(get %d %s)' % (x, txt[i] + '\n'))
                out.append(str(tabs[x].get(ks[i], 'none')))
        end = ' '.join('(%s)' % ' '.join(str(d.get(k, 'none')) for k in ks) for d in tabs)
        src = "(vt#case CASE_ID (lambda () (hm-case '(%s) '(%s\n))))\n" % ('\n '.join(ops), ' '.join(s + '\n' for s in txt))
        return dict(src=src, expect='\n'.join(out) + '\n=> (%s)\n' % end, labels=sorted(seen),
                    nt=bool(seen & {'replace', 'delete'}) and max(len(d) for d in tabs) >= 3)

    def nontrivial(self, c):
        return c['nt']
