"""C24: the JSON reader gives the value a document denotes."""
import hashlib
import json
import os
from pbt.lang import show_str
from pbt.libcheck import LibCheck, blit

PRE = '''
(defun js-flags (j) (list (cora/lib/json#json-is-array? j) (cora/lib/json#json-is-object? j) (cora/lib/json#json-is-integer? j) (cora/lib/json#json-is-real? j)
   (cora/lib/json#json-is-string? j) (cora/lib/json#json-is-null? j) (cora/lib/json#json-is-true? j) (cora/lib/json#json-is-false? j)))
(defun js-type (j) (list (cora/lib/json#json-typeof j) (js-flags j)))
(defun js-arr (j i n l) (if (null? l) () (cons (js (cora/lib/json#json-array-get j i) (car l)) (js-arr j (+ i 1) n (cdr l)))))
(defun js-obj (j l) (if (null? l) () (cons (js (cora/lib/json#json-object-get j (car (car l))) (cadr (car l))) (js-obj j (cdr l)))))
(func js
  j ['a . l] => (list (js-type j) (cora/lib/json#json-array-size j) (js-arr j 0 0 l))
  j ['o . l] => (list (js-type j) (cora/lib/json#json-object-size j) (js-obj j l))
  j 'i => (list (js-type j) (cora/lib/json#json-integer-value j))
  j 's => (list (js-type j) (cora/lib/json#json-string-value j))
  j 'n => (list (null? j) (js-type j))
  j _ => (js-type j))
(func js-steps
  j [] => 'ok
  j [x . more] => (do (vt#emit (js j x)) (js-steps j more)))
(defun js-case (path shapes) (let j (cora/lib/json#json-load-file path) (if (null? j) 'error (js-steps j shapes))))
'''
KINDS = ('array', 'object', 'integer', 'real', 'string', 'null', 'true', 'false')


def kind(v):
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    return {list: 'array', dict: 'object', int: 'integer', float: 'real', str: 'string'}[type(v)]


def typ(v):
    k = kind(v)
    return '(%s (%s))' % (k, ' '.join('true' if k == x else 'false' for x in KINDS))


ABSENT = '(() (%s))' % ' '.join(['false'] * 8)


class Absent:
    pass


class C(LibCheck):
    id = 'C24'
    technique = 'random documents with random formatting and random damage, read through the library, against an independent JSON reader'
    note = ('Documents of nested arrays and objects (to depth 200 in a chain) with integers to 2^53, reals, strings of any character written '
            'literally or with any escape, repeated keys, blanks everywhere; present and absent elements and keys are asked for in any order, every '
            'type test on every node. A third of the documents are damaged in one place and must be reported as errors if they are malformed. '
            'The library has no encoder and no accessor for reals.')
    rule = 'A case is a document. Non-trivial: at least 5 nodes in it, or it is malformed.'
    libs = ()
    extra = True
    imports = ('json',)
    pre = PRE
    fast = True
    quick_n = 16000
    thorough_n = 800000
    quick_time = 30
    batch = 60

    def string(self, t):
        n = t.pick([0, 1, 2, 5, 12, 200 if t.bool(1, 8) else 3])
        s = ''
        for _ in range(n):
            c = t.pick([t.between(32, 126), t.between(32, 126), t.between(1, 31), 127, t.between(0x80, 0x7ff), t.between(0x800, 0xd7ff), t.between(0xe000, 0xffff),
                        t.between(0x10000, 0x10ffff), 34, 92, 47])
            s += chr(c)
        return s

    def value(self, t, d):
        k = t.weighted([(4 if d > 0 else 0, 'a'), (4 if d > 0 else 0, 'o'), (3, 'i'), (1, 'r'), (3, 's'), (1, 'n'), (1, 't'), (1, 'f')])
        if k == 'a':
            return [self.value(t, d - 1) for _ in range(t.below(6) if t.bool(9, 10) else t.pick([60, 300]) if d < 3 else 20)]
        if k == 'o':
            return {(t.pick(['a', 'b', 'c', '', 'key']) if t.bool() else self.string(t)): self.value(t, d - 1) for _ in range(t.below(6))}
        if k == 'i':
            return t.pick([0, 1, -1, t.below(1000), -t.below(1000), (1 << t.below(54)) * t.pick([1, -1]), t.below(1 << 53)])
        if k == 'r':
            return t.pick([0.5, -1.25, 1e10, 1e-3, 100.0])
        if k == 's':
            return self.string(t)
        return dict(n=None, t=True, f=False)[k]

    def text(self, t, v):
        ws = lambda: t.pick(['', '', ' ', '\n', '\t \r\n'])  # noqa: E731
        if isinstance(v, str):
            out = '"'
            for c in v:
                o = ord(c)
                short = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c)
                must = o < 32 or c in '"\\'
                m = t.below(4)
                if must or m == 0:
                    if short and m < 2:
                        out += short
                    elif o > 0xffff:
                        o -= 0x10000
                        out += '\\u%04x\\u%04X' % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff))
                    else:
                        out += ('\\u%04x' if m < 3 else '\\u%04X') % o
                else:
                    out += c
            return out + '"'
        if isinstance(v, list):
            return '[' + ws() + (ws() + ',' + ws()).join(self.text(t, x) for x in v) + ws() + ']'
        if isinstance(v, dict):
            ms = []
            for k, x in v.items():
                if t.bool(1, 10):
                    ms.append(self.text(t, k) + ':' + self.text(t, t.below(10)))    # replaced by the later one
                ms.append(self.text(t, k) + ws() + ':' + ws() + self.text(t, x))
            return '{' + ws() + (ws() + ',' + ws()).join(ms) + ws() + '}'
        if isinstance(v, float):
            return t.pick([repr(v), '%e' % v, '%E' % v]) if v not in (100.0,) else t.pick(['100.0', '1e2', '1E+2'])
        if isinstance(v, int) and not isinstance(v, bool):
            return str(v)
        return json.dumps(v)

    def query(self, t, v, budget):
        """-> (shape text, expected text)"""
        budget[0] -= 1
        if v is Absent:
            return 'n', '(true %s)' % ABSENT
        k = kind(v)
        if budget[0] < 0 or t.bool(1, 12):
            return '0', typ(v)
        if k == 'array':
            sh, ex = [], []
            for x in v:
                a, b = self.query(t, x, budget)
                sh.append(a)
                ex.append(b)
            if t.bool(1, 3):
                a, b = self.query(t, Absent, budget)
                sh.append(a)
                ex.append(b)
            return '(a%s)' % ''.join(' ' + x for x in sh), '(%s %d (%s))' % (typ(v), len(v), ' '.join(ex)) if ex else '(%s %d ())' % (typ(v), len(v))
        if k == 'object':
            sh, ex = [], []
            keys = t.shuffle(list(v)) + ([t.pick(['zz', 'A', 'ke', 'keyy'])] if t.bool(1, 3) else [])
            for key in keys:
                if '\0' in key:
                    continue
                a, b = self.query(t, v.get(key, Absent), budget)
                sh.append('(%s %s)' % (blit(key.encode()), a))
                ex.append(b)
            return '(o%s)' % ''.join(' ' + x for x in sh), '(%s %d (%s))' % (typ(v), len(v), ' '.join(ex))
        if k == 'integer':
            return 'i', '(%s %d)' % (typ(v), v)
        if k == 'string':
            return 's', '(%s %s)' % (typ(v), show_str(v.encode()))
        return '0', typ(v)

    def gen(self, t):
        v = self.value(t, t.between(1, 4))
        if not isinstance(v, (list, dict)):
            v = [v]
        if t.bool(1, 15):
            for _ in range(t.below(200)):
                v = [v] if t.bool() else {'a': v}
        doc = self.text(t, v)
        b = doc.encode()
        bad = False
        if t.bool(1, 4):
            k = t.below(4)
            i = t.below(len(b) + 1)
            if k == 0:
                b = b[:i] + b[i + 1:]
            elif k == 1:
                b = b[:i] + bytes([t.pick(b'[]{},:"\\ \n0e-.tnfx\x01\x80\xff')]) + b[i:]
            elif k == 2:
                b = b[:i]
            else:
                b = b[:i] + bytes([t.below(255) + 1]) + b[i + 1:]
            try:
                # (a pair list shows repeated keys as Python resolves them: the last)
                w = json.loads(b.decode(), parse_constant=self.constant)
                if not isinstance(w, (list, dict)) or not self.usable(w):
                    raise ValueError
                v = w
            except (ValueError, RecursionError):
                bad = True
        labels = [kind(v)]
        if bad and not self.certain(b):
            from pbt.core import Discard
            raise Discard
        if bad:
            return dict(doc=b.hex(), src="(vt#case CASE_ID (lambda () (js-case \"PATH\" '(0))))\n", expect='=> error\n', labels=['malformed'], nt=True)
        shapes, out = [], []
        n = 0
        for _ in range(t.between(1, 3)):
            budget = [200]
            a, e = self.query(t, v, budget)
            n = max(n, 200 - budget[0])
            shapes.append(a)
            out.append(e + '\n')
        src = "(vt#case CASE_ID (lambda () (js-case \"PATH\" '(%s))))\n" % ' '.join(shapes)
        return dict(doc=b.hex(), src=self.nodot(src), expect=''.join(out) + '=> ok\n', labels=labels, nt=n >= 5)

    @staticmethod
    def constant(x):
        raise ValueError

    @staticmethod
    def usable(v):
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, list):
                st += x
            elif isinstance(x, dict):
                st += list(x.values()) + list(x)
            elif isinstance(x, str) and ('\0' in x or any(0xd800 <= ord(c) < 0xe000 for c in x)):
                return False
            elif isinstance(x, int) and abs(x) > 1 << 53:
                return False
            elif isinstance(x, float) and x in (float('inf'), float('-inf')):
                return False
        return True

    @staticmethod
    def certain(b):
        """Is the damaged text malformed by any reading?"""
        try:
            w = json.loads(b.decode(), strict=False)
            # well formed for Python: a scalar at the top, or a value beyond the domain
            return False
        except UnicodeDecodeError:
            return True
        except (ValueError, RecursionError):
            return True

    @staticmethod
    def nodot(src):
        return src

    def source(self, case, idx):
        b = bytes.fromhex(case['doc'])
        p = '%s/j%s' % (self.tree.base, hashlib.sha1(b).hexdigest()[:20])
        if not os.path.exists(p):
            with open(p + '.%d' % os.getpid(), 'wb') as f:
                f.write(b)
            os.rename(p + '.%d' % os.getpid(), p)
        return case['src'].replace('CASE_ID', str(idx)).replace('PATH', p)

    def nontrivial(self, c):
        return c['nt']

    def show(self, c):
        return repr(bytes.fromhex(c['doc'])) + '\n' + c['src'] + ';; expect\n' + c['expect']

    def key(self, c):
        return c['doc'] + c['src']
