"""C26: file and process functions transfer bytes unchanged."""
import os
import tempfile
import zlib
from pbt import build
from pbt.lang import show_str
from pbt.libcheck import LibCheck, blit

PRE = '''
(defun io-rep (s n) (if (= n 0) "" (string-append s (io-rep s (- n 1)))))
(defun io-data (d) (if (cons? d) (if (number? (car d)) (vt#bytes d) (io-rep (vt#bytes (cadr d)) (caddr d))) ""))
(defun io-path (dir p) (string-append dir p))
(defun io-writes (h n l) (if (null? l) n (io-writes h (+ n (cora/lib/io#write-bytes h (io-data (car l)))) (cdr l))))
(func io-op
  v dir ['open i p] => (begin (vector-set! v i (cora/lib/io#open-output-file (io-path dir p))) 'opened)
  v dir ['write i d] => (cora/lib/io#write-bytes (vector-ref v i) (io-data d))
  v dir ['writes i . l] => (io-writes (vector-ref v i) 0 l)
  v dir ['close i] => (cora/lib/io#close-output-file (vector-ref v i))
  v dir ['reader i cmd p] => (begin (vector-set! v i (cora/lib/os#popen (list cmd (io-path dir p)) 'r)) 'opened)
  v dir ['source i cmd] => (begin (vector-set! v i (cora/lib/os#popen (list cmd) 'r)) 'opened)
  v dir ['writer i cmd p] => (begin (vector-set! v i (cora/lib/os#popen (list cmd (io-path dir p)) 'w)) 'opened)
  v dir ['all i] => (cora/lib/io#read-all (vector-ref v i))
  v dir ['copy i j] => (cora/lib/io#copy (vector-ref v i) (vector-ref v j))
  v dir ['pclose i] => (cora/lib/os#pclose (vector-ref v i))
  v dir ['exec p . words] => (cora/lib/os#exec (append words (list (io-path dir p))))
  v dir ['run . words] => (cora/lib/os#exec words)
  v dir ['through cmd p d] => (let h (cora/lib/os#popen (list cmd (io-path dir p)) 'w) (let n (cora/lib/io#write-bytes h (io-data d)) (list n (cora/lib/os#pclose h))))
  v dir ['full d] => (let h (cora/lib/io#open-output-file "/dev/full") (let s (io-data d) (let n (cora/lib/io#write-bytes h s) (let r (cora/lib/io#close-output-file h)
     (if (= r 0) (if (= n (bytes-length s)) (if (= n 0) 'reported 'lost) 'reported) 'reported))))))
(defun io-run (v dir ops) (if (null? ops) 'done (begin (vt#emit (io-op v dir (car ops))) (io-run v dir (cdr ops)))))
(defun io-case (dir ops) (io-run (vector 6) dir ops))
'''
NH = 6


class C(LibCheck):
    id = 'C26'
    technique = 'random histories of file and pipe operations in a scratch directory, against a model of the files'
    note = ('Histories of up to 25 operations on six handles: files created in existing, missing and deeply nested directories (paths to '
            '1,500 bytes), rewritten, and written in chunks from 0 to 20,000 bytes of any value; pipes from and to cat and other filters; copies '
            'between handles; exec and pclose with the status; a full device. Every result, every byte read back and '
            'after the history every file in the directory are compared. Failing to open is outside (the handle is null).')
    rule = 'A case is a history. Non-trivial: at least 64 bytes are transferred and read back or found in a file, by at least four operations.'
    libs = ()
    imports = ('io', 'os')
    pre = PRE
    fast = True
    quick_n = 8000
    thorough_n = 120000
    quick_time = 35
    batch = 30

    def data(self, t):
        """-> (source, bytes)"""
        k = t.below(6)
        if k == 0:
            return '()', b''
        if k <= 2:
            b = bytes(t.below(256) for _ in range(t.pick([1, 2, 7, 63, 64, 65, 127, 128])))
        elif k == 3:
            b = bytes([t.below(256)]) * t.between(1, 70)
        else:
            c, d = t.below(256), t.below(9)
            b = bytes((c + i * d) & 255 for i in range(t.pick([3, 16, 50, 64])))
            n = t.pick([2, 10, 63, 64, 65, 100, 300])
            return '(r (%s) %d)' % (' '.join(map(str, b)), n), b * n
        return '(%s)' % ' '.join(map(str, b)), b

    def gen(self, t):
        paths = t.shuffle(['a', 'b.txt', 'd/x', 'd/y', 'e/f/g/h', "sp", 'e/f/z', 'deep/' + '/'.join('%d' % i for i in range(20)) + '/f',
                           'l/' + '/'.join(['n' * 200] * t.between(1, 7)) + '/f', 'd/' + 'm' * 250])
        files = {}                  # closed files
        h = [None] * NH             # (kind, path or data, buffer)
        busy = set()
        ops, out, labels = [], [], []
        moved = 0
        for _ in range(t.between(3, 25)):
            free = [i for i in range(NH) if h[i] is None]
            wr = [i for i in range(NH) if h[i] and h[i][0] == 'w']
            pw = [i for i in range(NH) if h[i] and h[i][0] == 'pw']
            rd = [i for i in range(NH) if h[i] and h[i][0] == 'r']
            k = t.weighted([(4, 'open'), (6, 'write'), (2, 'writes'), (3, 'close'), (3, 'reader'), (1, 'source'), (2, 'writer'), (4, 'all'),
                            (4, 'copy'), (3, 'pclose'), (1, 'exec'), (1, 'run'), (1, 'full'), (1, 'through')])
            if k == 'open' and free:
                c = [p for p in paths if p not in busy]
                if not c:
                    continue
                p, i = t.pick(c), t.pick(free)
                h[i] = ['w', p, b'']
                files.pop(p, None)
                busy.add(p)
                ops.append('(open %d "%s")' % (i, p))
                out.append('opened')
            elif k in ('write', 'writes') and wr + pw:
                i = t.pick(wr + pw)
                ds = [self.data(t) for _ in range(1 if k == 'write' else t.between(0, 6))]
                n = 0
                for _, b in ds:
                    h[i][2] += b
                    n += len(b)
                ops.append('(%s %d %s)' % (k, i, ' '.join(s for s, _ in ds)))
                out.append(str(n))
                moved += n
            elif k == 'close' and wr:
                i = t.pick(wr)
                files[h[i][1]] = h[i][2]
                busy.discard(h[i][1])
                h[i] = None
                ops.append('(close %d)' % i)
                out.append('0')
            elif k == 'reader' and free:
                c = [p for p in files if p not in busy]
                if not c:
                    continue
                p, i = t.pick(c), t.pick(free)
                cmd, f = t.pick([('cat', lambda b: b), ('head -c 100', lambda b: b[:100]), ('tail -c 70', lambda b: b[-70:] if b else b), ('wc -c <', lambda b: b'%d\n' % len(b)),
                                 ('sleep 0.01; cat', lambda b: b), ('dd status=none bs=1 count=200 if=/dev/null; cat', lambda b: b)])
                h[i] = ['r', p, f(files[p]), 0]
                busy.add(p)
                ops.append('(reader %d "%s" "%s")' % (i, cmd, p))
                out.append('opened')
            elif k == 'source' and free:
                i = t.pick(free)
                n, st = t.pick([0, 1, 63, 64, 65, 128, 300]), t.pick([0, 1, 3, 255])
                h[i] = ['r', None, b'x' * n, st]
                ops.append('(source %d "head -c %d /dev/zero | tr \'\\\\0\' x; exit %d")' % (i, n, st))
                out.append('opened')
            elif k == 'writer' and free:
                c = [p for p in paths if p not in busy and '/' not in p]
                if not c:
                    continue
                p, i = t.pick(c), t.pick(free)
                files.pop(p, None)
                busy.add(p)
                h[i] = ['pw', p, b'']
                ops.append('(writer %d "cat >" "%s")' % (i, p))
                out.append('opened')
            elif k == 'all' and rd:
                i = t.pick(rd)
                b = h[i][2]
                h[i][2] = b''
                moved += len(b)
                ops.append('(all %d)' % i)
                out.append(show_str(b))
            elif k == 'copy' and rd and wr + pw:
                i, j = t.pick(rd), t.pick(wr + pw)
                h[j][2] += h[i][2]
                moved += len(h[i][2])
                h[i][2] = b''
                ops.append('(copy %d %d)' % (i, j))
                out.append('1')
            elif k == 'pclose' and rd + pw:
                i = t.pick(rd + pw)
                if h[i][0] == 'r' and h[i][2]:
                    # the writer of an unread pipe may be killed by it
                    ops.append('(all %d)' % i)
                    out.append(show_str(h[i][2]))
                if h[i][0] == 'pw':
                    files[h[i][1]] = h[i][2]
                busy.discard(h[i][1])
                out.append(str((h[i][3] if h[i][0] == 'r' else 0) * 256))
                h[i] = None
                ops.append('(pclose %d)' % i)
            elif k == 'exec':
                c = [p for p in paths if p not in busy and '/' not in p]
                if not c:
                    continue
                p, n = t.pick(c), t.below(500)
                files[p] = b'q' * n
                ops.append('(exec "%s" "head" "-c" "%d" "/dev/zero" "|" "tr" "\'\\\\0\'" "q" ">")' % (p, n))
                out.append('0')
            elif k == 'run':
                st = t.pick([0, 1, 2, 7, 127, 255])
                ops.append(t.pick(['(run "exit" "%d")', '(run "exit %d")', '(run "true;" "exit" "%d")', '(run "(exit" "%d)")']) % st)
                out.append(str(st * 256))
            elif k == 'through':
                c = [p for p in paths if p not in busy and '/' not in p]
                if not c:
                    continue
                p = t.pick(c)
                s, b = self.data(t)
                files[p] = b
                moved += len(b)
                ops.append('(through "cat >" "%s" %s)' % (p, s))
                out.append('(%d 0)' % len(b))
            elif k == 'full':
                ops.append('(full %s)' % self.data(t)[0])
                out.append('reported')
            else:
                continue
            labels.append(k)
        for i in range(NH):
            if h[i] and h[i][0] == 'w':
                ops.append('(close %d)' % i)
                out.append('0')
                files[h[i][1]] = h[i][2]
            elif h[i]:
                if h[i][0] == 'r' and h[i][2]:
                    ops.append('(all %d)' % i)
                    out.append(show_str(h[i][2]))
                ops.append('(pclose %d)' % i)
                out.append(str((h[i][3] if h[i][0] == 'r' else 0) * 256))
                if h[i][0] == 'pw':
                    files[h[i][1]] = h[i][2]
        src = '(vt#case CASE_ID (lambda () (io-case "DIRECTORY" \'(%s))))\n' % '\n '.join(ops)
        return dict(src=src, expect=''.join(x + '\n' for x in out) + '=> done\n', labels=sorted(set(labels)),
                    files={p: b.hex() for p, b in files.items()}, nt=moved >= 64 and len(ops) >= 4)

    def run(self, cases):
        out = [None] * len(cases)
        for mode in ('compiled', 'eval'):
            ids = [i for i, r in enumerate(out) if r is None and (mode == 'compiled' or zlib.crc32(cases[i]['src'].encode()) % 8 == 0)]
            d = tempfile.mkdtemp(dir=self.tree.base, prefix='f')
            try:
                kw = dict(cmds=[['loadso', self.pre_so]]) if mode == 'compiled' else dict(pre=self.head)

                def mk(i, j):
                    # a batch that fails is run again in halves, under other numbers
                    p = tempfile.mkdtemp(dir=d)
                    at[ids[i]] = p
                    return cases[ids[i]]['src'].replace('CASE_ID', str(j)).replace('DIRECTORY', p + '/')
                at = {}
                r = self.runner.run(mk, len(ids), mode='eval', limit=self.limit, **kw)
                for i, x in zip(ids, r):
                    m = self.judge(cases[i], x) or self.files(cases[i], at[i])
                    if m is not None:
                        k, _, rest = m.partition(':')
                        out[i] = '%s (%s):%s' % (k, mode, rest)
            finally:
                build.cleanup(d)
        return out

    @staticmethod
    def files(c, d):
        want = {p: bytes.fromhex(b) for p, b in c['files'].items()}
        got = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                got[os.path.relpath(p, d)] = open(p, 'rb').read()
        for p in sorted(set(want) | set(got)):
            if p not in got:
                return 'wrong: the file %s is missing' % p
            if p not in want:
                return 'wrong: an unexpected file %s' % p
            if want[p] != got[p]:
                n = next((i for i, (a, b) in enumerate(zip(want[p], got[p])) if a != b), min(len(want[p]), len(got[p])))
                return 'wrong: file %s has %d bytes, expected %d, first difference at %d' % (p, len(got[p]), len(want[p]), n)
        return None

    def nontrivial(self, c):
        return c['nt']
