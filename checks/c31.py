"""C31: concurrent tasks and sockets deliver what was sent."""
import itertools
import os
import re
import socket
import subprocess

from pbt.lang import Sym
from pbt.libcheck import LibCheck
from checks.c34 import parse

PRE = '''
(import "cora/lib/net")
(import "cora/lib/async")
(import "cora/lib/cml")
(import "cora/lib/io")
(defun n-rep (s n) (if (= n 0) "" (if (= n 1) s (let h (n-rep s (/ n 2)) (let d (string-append h h) (if (= (* 2 (/ n 2)) n) d (string-append d s)))))))
(defun n-data (s) (if (cons? s) (n-rep (car s) (cadr s)) s))
(func n-result
  ['block p] buf => (list 'block p buf)
  ['eof p] buf => (list 'eof p buf)
  r buf => (list r buf))
(defun n-more (fd buf pos want n) (let r (cora/lib/net#net-recv fd buf pos)
   (match r ['block p] (if (< p want) (if (= n 0) r (n-more fd buf p want (- n 1))) r) _ r)))
(func n-recv
  fd [buf . pos] want bufs i => (let r (n-more fd buf pos want 3000000)
     (begin (match r ['block p] (vector-set! bufs i (cons buf p)) _ (vector-set! bufs i ()))
            (n-result r buf))))
(defun n-poll (time k n) (let r (cora/lib/net#net-poll time) (if (< (length r) k) (if (= n 0) r (n-poll time k (- n 1))) r)))
(defun n-conn (bufs i) (let c ['conn i] (begin (vector-set! bufs (+ 20 i) c) c)))
(func n-op
  v bufs ['listen i p] => (let r (cora/lib/net#net-listen p) (if (number? r) (begin (vector-set! v i r) 'opened) 'nolisten))
  v bufs ['dial i p] => (let r (cora/lib/net#net-dial p) (if (number? r) (begin (vector-set! v i r) 'opened) 'failed))
  v bufs ['accept i l] => (let r (cora/lib/net#net-accept (vector-ref v l)) (if (number? r) (begin (vector-set! v i r) 'opened) 'none))
  v bufs ['send i d pos] => (cora/lib/net#net-send (vector-ref v i) (n-data d) pos)
  v bufs ['recv i n want] => (begin (if (cons? (vector-ref bufs i)) () (vector-set! bufs i (cons (cora/lib/net#make-buffer n) 0)))
                               (n-recv (vector-ref v i) (vector-ref bufs i) want bufs i))
  v bufs ['drain i n] => (let buf (cora/lib/net#make-buffer n) (n-result (n-more (vector-ref v i) buf 0 n 3000000) buf))
  v bufs ['watch i mode] => (begin (cora/lib/net#net-poll-add (vector-ref v i) mode (n-conn bufs i)) 'ok)
  v bufs ['mod i modes] => (begin (cora/lib/net#net-poll-mod (vector-ref v i) modes (n-conn bufs i)) 'ok)
  v bufs ['unwatch i] => (begin (cora/lib/net#net-poll-del (vector-ref v i)) 'ok)
  v bufs ['poll t k] => (n-poll t k 200000)
  v bufs ['close i] => (begin (cora/lib/net#net-close (vector-ref v i)) 'closed))
(defun n-run (v bufs ops) (if (null? ops) 'done (begin (vt#emit (n-op v bufs (car ops))) (n-run v bufs (cdr ops)))))
(defun n-empty (v i) (if (= i 40) v (begin (vector-set! v i ()) (n-empty v (+ i 1)))))
(defun n-case (ops) (n-run (n-empty (vector 40) 0) (n-empty (vector 40) 0) ops))

(defun a-say (x) (begin (cora/lib/io#display x) (cora/lib/io#display '|)))
(defun a-yields (n) (if (= n 0) () (begin (cora/lib/cml#yield) (a-yields (- n 1)))))
(defun a-recv (c tag want) (let buf (cora/lib/net#make-buffer (bytes-length want))
  (let r (cora/lib/async#recv c buf) (a-say (list 'VT tag r (if (= buf want) 'same buf))))))
(func a-act
  c tag ['s d] => (a-say (list 'VT tag (cora/lib/async#send c (n-data d))))
  c tag ['r d] => (a-recv c tag (n-data d))
  c tag ['e n] => (let buf (cora/lib/net#make-buffer n) (a-say (list 'VT tag (cora/lib/async#recv c buf))))
  c tag ['y n] => (a-yields n))
(func a-task
  c tag left [] => (begin (a-say (list 'VT tag 'done)) (vector-set! left 0 (- (vector-ref left 0) 1))
     (if (= 0 (vector-ref left 0)) (cora/lib/async#conn-close c) ()))
  c tag left [a . l] => (begin (a-act c tag a) (a-task c tag left l)))
(func a-tasks
  c left [] => ()
  c left [[tag . acts] . l] => (begin (cora/lib/cml#spawn (lambda () (a-task c tag left acts))) (a-tasks c left l)))
(defun a-side (c tasks) (let left (vector 1) (begin (vector-set! left 0 (length tasks)) (a-tasks c left tasks))))
(func a-find
  k [[x . y] . l] => (if (= k x) y (a-find k l)))
(defun a-server (ln n sides) (if (= n 0) (begin (cora/lib/async#conn-close ln) (a-say ['VT 'server 'done]))
  (let c (cora/lib/async#accept ln) (begin
    (cora/lib/cml#spawn (lambda () (let id (cora/lib/net#make-buffer 1) (begin (cora/lib/async#recv c id) (a-side c (a-find id sides))))))
    (a-server ln (- n 1) sides)))))
(func a-clients
  addr [] => ()
  addr [[id pause . tasks] . l] => (begin
    (cora/lib/cml#spawn (lambda () (begin (a-yields pause) (let c (cora/lib/async#dial addr) (begin (cora/lib/async#send c id) (a-side c tasks))))))
    (a-clients addr l)))
(defun a-case (addr sides clients)
  (cora/lib/cml#cml-entry (lambda () (let ln (cora/lib/async#listen addr) (begin
     (cora/lib/cml#spawn (lambda () (a-server ln (length sides) sides)))
     (a-clients addr clients))))))
'''
LIBS = ('queue', 'let-loop', 'define-record', 'cml', 'async', 'chan')
IDS = 'ABCDEFGH'


class Stream:
    def __init__(self):
        self.sent = 0           # all bytes
        self.read = 0
        self.closed = False
        self.data = b''


class C(LibCheck):
    id = 'C31'
    technique = 'random histories of socket operations, and random sets of communicating tasks on the event loop, against byte-stream models'
    note = ('Two kinds of cases. Histories of up to 40 operations of lib/net on up to three listeners and twelve connections over the '
            'loopback: sends of 0 to 65,536 bytes from any position, receives of any size continued where they stopped, closing, polling with '
            'any set of watched descriptors. And one to six connections between tasks on the event loop, each a random exchange of up to eight messages '
            'of 1 byte to 8 MB in either direction, cut differently by sender and receiver, one task per side or full duplex, with pauses between. All bytes, '
            'positions, statuses and ready sets, the order within each task and the end of every task are compared.')
    rule = ('A case is a history or a set of tasks. Non-trivial: at least one message is received in other pieces than it was sent, or is sent '
            'before the receiver is ready, or a poll reports one of several.')
    libs = LIBS
    imports = ()
    pre = PRE
    cmds = ()
    fast = True
    quick_n = 5000
    thorough_n = 30000
    quick_time = 40
    batch = 12
    limit = (10, 15)
    max_shrink_time = 60

    def setup(self, work):
        super().setup(work)
        self.n = itertools.count()

    def port(self):
        while True:
            p = 10000 + int.from_bytes(os.urandom(4), 'little') % 22000
            with socket.socket() as s:
                try:
                    s.bind(('', p))
                    return p
                except OSError:
                    pass

    # ---- generation ----
    def word(self, t, n):
        k, m = t.below(26), t.pick([1, 3, 7, 9])
        return ''.join(chr(97 + (k + i * m) % 26) for i in range(n))

    def piece(self, t, big):
        """-> (source, bytes)"""
        if big and t.bool(1, 3):
            w = self.word(t, t.pick([7, 64, 100]))
            n = t.pick([100, 1000, 5000, 40000, 80000])
            return '("%s" %d)' % (w, n), w * n
        w = self.word(t, t.pick([1, 1, 2, 5, 17, 60, 200]))
        return '"%s"' % w, w

    def gen(self, t):
        return self.history(t) if t.bool(3, 4) else self.tasks(t)

    def history(self, t):
        ops, exp, labels = [], [], set()
        free = t.shuffle(list(range(20)))
        listeners, conns, streams = [], {}, {}     # conns: fd -> (peer key, out stream, in stream)
        pending = {}
        part = {}                   # fd -> (size, received so far) of a buffer partly filled
        watch = {}
        nt = False
        nl = t.between(1, 3)
        for i in range(nl):
            f = free.pop()
            listeners.append(f)
            pending[f] = []
            ops.append('(listen %d "127.0.0.1:PORT%d")' % (f, i))
            exp.append(['opened'])
        ports = {f: 'PORT%d' % i for i, f in enumerate(listeners)}

        def ready(f):
            """What a poll has to say of a watched descriptor."""
            out = set()
            if f in pending:
                if 'read' in watch[f] and pending[f]:
                    out.add('read')
            else:
                o, i = conns[f]
                if 'read' in watch[f] and (i.sent > i.read or i.closed):
                    out.add('read')
                if 'write' in watch[f]:
                    out.add('write')
            return out

        def recv(f, size):
            nonlocal nt
            i = conns[f][1]
            n, have = part.pop(f, None) or (size, 0)
            m = min(n - have, i.sent - i.read)
            buf = i.data[i.read - have:i.read + m]
            i.read += m
            ops.append('(recv %d %d %d)' % (f, n, n if i.closed else have + m))
            if have + m == n:
                exp.append(['full', buf.hex()])
            elif i.closed:
                exp.append(['eof', have + m, buf.hex()])
            else:
                exp.append(['block', have + m, buf.hex()])
                part[f] = (n, have + m)
                labels.add('partial')
            if have:
                nt = True

        def drain(f):
            i = conns[f][1]
            if i.sent == i.read and not i.closed:
                return
            m = i.sent - i.read
            d = i.data[i.read:]
            i.read = i.sent
            if i.closed:
                ops.append('(drain %d %d)' % (f, m + 3))
                exp.append(['eof', m, d.hex()])
                labels.add('end of stream')
            else:
                ops.append('(drain %d %d)' % (f, m))
                exp.append(['full', d.hex()])
        for _ in range(t.between(6, 40)):
            k = t.weighted([(4, 'dial'), (4, 'accept'), (9, 'send'), (9, 'recv'), (2, 'drain'), (2, 'close'), (3, 'watch'), (2, 'mod'), (1, 'unwatch'), (4, 'poll')])
            cs = sorted(conns)
            if k == 'dial' and free:
                l, f = t.pick(listeners), free.pop()
                a, b = Stream(), Stream()
                conns[f] = (a, b)
                pending[l].append((b, a))
                ops.append('(dial %d "127.0.0.1:%s")' % (f, ports[l]))
                exp.append(['opened'])
            elif k == 'accept' and free:
                l, f = t.pick(listeners), free.pop()
                ops.append('(accept %d %d)' % (f, l))
                if pending[l]:
                    conns[f] = pending[l].pop(0)
                    exp.append(['opened'])
                else:
                    exp.append(['none'])
                    free.append(f)
            elif k == 'send' and cs:
                f = t.pick(cs)
                o, i = conns[f]
                if getattr(o, 'reader_gone', False):
                    # after the other side has closed the connection
                    ops.append('(send %d "x" 0)' % f)
                    exp.append(['gone'])
                    o.resets = getattr(o, 'resets', 0) + 1
                    labels.add('send to closed')
                    continue
                if o.sent - o.read > 60000:
                    continue
                s, d = self.piece(t, False)
                if t.bool(1, 12):
                    w = self.word(t, 64)
                    n = t.pick([16, 100, 1000])
                    s, d = '("%s" %d)' % (w, n), w * n
                pos = t.pick([0, 0, 0, len(d), t.below(len(d) + 1)])
                ops.append('(send %d %s %d)' % (f, s, pos))
                exp.append(['ok'])
                o.data += d[pos:].encode()
                o.sent += len(d) - pos
            elif k in ('recv', 'drain') and cs:
                f = t.pick(cs)
                o, i = conns[f]
                if getattr(o, 'resets', 0):
                    continue
                if k == 'recv':
                    recv(f, t.pick([0, 1, 2, 5, 16, 61, 200]))
                elif f not in part:
                    drain(f)
            elif k == 'close' and cs and t.bool():
                f = t.pick(cs)
                o, i = conns[f]
                if i.sent > i.read or getattr(o, 'resets', 0):
                    continue            # unread data would reset the connection
                o.closed = True
                i.reader_gone = True
                del conns[f]
                part.pop(f, None)
                watch.pop(f, None)
                ops.append('(close %d)' % f)
                exp.append(['closed'])
                free.insert(0, f)
                labels.add('close')
            elif k == 'watch':
                c = [f for f in listeners + cs if f not in watch]
                if not c:
                    continue
                f = t.pick(c)
                m = 'read' if f in pending else t.pick(['read', 'read', 'write'])
                watch[f] = {m}
                ops.append('(watch %d %s)' % (f, m))
                exp.append(['ok!'])
            elif k == 'mod':
                c = [f for f in sorted(watch) if f not in pending]
                if not c:
                    continue
                f = t.pick(c)
                m = t.pick([['read'], ['write'], ['read', 'write'], ['write', 'read'], []])
                watch[f] = set(m)
                ops.append('(mod %d (%s))' % (f, ' '.join(m)))
                exp.append(['ok!'])
            elif k == 'unwatch' and watch:
                f = t.pick(sorted(watch))
                del watch[f]
                ops.append('(unwatch %d)' % f)
                exp.append(['ok!'])
            elif k == 'poll':
                if any(getattr(conns[f][0], 'resets', 0) or getattr(conns[f][0], 'reader_gone', False) for f in watch if f in conns):
                    continue
                r = sorted([f, m] for f in watch for m in ready(f))
                ops.append('(poll %d %d)' % (t.pick([50, 2000]) if r else 0, len(r)))
                exp.append(['ready', r])
                if r and len(watch) > 1:
                    nt = True
            else:
                continue
            labels.add(k)
        for f in sorted(conns):
            # what is left
            if not getattr(conns[f][0], 'resets', 0):
                if f in part:
                    recv(f, 0)
                drain(f)
        for f in listeners + sorted(conns):
            ops.append('(close %d)' % f)
            exp.append(['closed'])
        src = "(vt#case CASE_ID (lambda () (begin POLLINIT (n-case '(%s)))))\n" % '\n '.join(ops)
        return dict(kind='history', src=src, exp=exp, labels=sorted(labels), nt=nt, expect=str(exp), ports=nl)

    def cut(self, t, size):
        if size <= 1 or t.bool(1, 3):
            return [size]
        n = t.between(2, 5)
        cuts = sorted(set(t.between(1, size - 1) for _ in range(n)))
        return [b - a for a, b in zip([0] + cuts, cuts + [size])]

    def tasks(self, t):
        sides, clients, exp, labels = [], [], {'server': ['done']}, set()
        nt = False
        n = t.between(1, 6)
        for c in range(n):
            id = IDS[c]
            duplex = t.bool(1, 3)
            acts = {k: [] for k in ('s', 'c', 'sr', 'sw', 'cr', 'cw')}
            out = {k: [] for k in acts}
            for _ in range(t.between(1, 8)):
                a, b = t.pick([('s', 'c'), ('c', 's')])
                big = t.bool(1, 5)
                w, m = self.word(t, t.pick([1, 3, 64])), t.pick([1, 2, 20, 300]) if not big else t.pick([3000, 30000, 60000, 120000])
                sc, rc = self.cut(t, m), self.cut(t, m)
                if big:
                    labels.add('big')
                if sc != rc:
                    nt = True
                x, y = (a + 'w', b + 'r') if duplex else (a, b)
                for z in sc:
                    if t.bool(1, 4):
                        acts[x].append('(y %d)' % t.between(1, 5))
                    acts[x].append('(s ("%s" %d))' % (w, z))
                    out[x].append('(ok)')
                for z in rc:
                    if t.bool(1, 4):
                        acts[y].append('(y %d)' % t.between(1, 5))
                        nt = True
                    acts[y].append('(r ("%s" %d))' % (w, z))
                    out[y].append('(ok) same')
            # one side may close and the other one read the end
            if not duplex and t.bool(1, 3):
                x = t.pick(['s', 'c'])
                acts[x].append('(e %d)' % t.between(1, 9))
                out[x].append('(eof 0)')
                labels.add('end of stream')
            ks = ('s', 'c') if not duplex else ('sr', 'sw', 'cr', 'cw')
            if duplex:
                labels.add('duplex')
            for k in ks:
                exp[id + k] = out[k] + ['done']
            sides.append('("%s" %s)' % (id, ' '.join('(%s%s %s)' % (id, k, ' '.join(acts[k])) for k in ks if k[0] == 's')))
            clients.append('("%s" %d %s)' % (id, t.pick([0, 0, 1, 3]), ' '.join('(%s%s %s)' % (id, k, ' '.join(acts[k])) for k in ks if k[0] == 'c')))
        labels.add('tasks')
        if n > 1:
            labels.add('several connections')
        src = "(a-case \"127.0.0.1:PORT0\"\n '(%s)\n '(%s))\n" % ('\n   '.join(sides), '\n   '.join(clients))
        return dict(kind='tasks', src=src, exp=exp, labels=sorted(labels), nt=nt, expect=str(exp), ports=1)

    def nontrivial(self, c):
        return c['nt']

    # ---- running ----
    def run(self, cases):
        out = [None] * len(cases)
        todo = list(range(len(cases)))
        for _ in range(8):
            h = [i for i in todo if cases[i]['kind'] == 'history']
            r = self.runner.run(lambda i, j: self.fill(cases[h[i]], j), len(h), mode='eval', limit=self.limit, cmds=[['loadso', self.pre_so]],
                                pre="(import \"cora/lib/net\")\n(cora/lib/net#net-poll-fd-init)\n")
            for i, x in zip(h, r):
                out[i] = self.judge(cases[i], x)
            for i in todo:
                if cases[i]['kind'] == 'tasks':
                    out[i] = self.scenario(cases[i])
            # a port in use is not a finding
            todo = [i for i in todo if out[i] and out[i].startswith('port:')]
            if not todo:
                break
        return out

    def fill(self, case, idx):
        s = case['src'].replace('CASE_ID', str(idx)).replace('POLLINIT', '0')
        for i in range(case['ports']):
            s = s.replace('PORT%d' % i, str(self.port()))
        return s

    def scenario(self, case):
        f = '%s/a%d-%d.cora' % (self.tree.base, os.getpid(), next(self.n))
        with open(f, 'w') as h:
            h.write('#!\n(load-so "%s" "")\n%s(a-say [\'VT \'end])\n' % (self.pre_so, self.fill(case, 0)))
        p = subprocess.Popen([self.tree.dir + '/cora', f], env=self.tree.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True, preexec_fn=self.tree._limits)
        try:
            o, e = p.communicate(timeout=40)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, e = p.communicate()
            return 'timeout: not all tasks end: %r' % o[-600:]
        finally:
            os.unlink(f)
        if b'bind error' in e:
            return 'port:'
        o = o.decode('latin-1')
        if p.returncode != 0:
            return 'crash: exit %s %r %r' % (p.returncode, o[-300:], e[-300:])
        got = {}
        for tag, x in re.findall(r'\(VT (\w+)(?: ([^|]*))?\)\|', o):
            got.setdefault(tag, []).append(x)
        want = dict(case['exp'], end=[''])
        for k in sorted(set(want) | set(got)):
            w, g = want.get(k, []), got.get(k, [])
            if w != g:
                return 'wrong: task %s has to report %s and reports %s' % (k, w, [x[:100] for x in g])
        return None

    def judge(self, case, res):
        st, got = res
        if 'nolisten' in got:
            return 'port:'
        if st.startswith('timeout'):
            return 'timeout: no result after %r' % got[-300:]
        if st == 'bad':
            return got
        if st != 'exit:0':
            return 'crash: %s after %r' % (st, got[-300:])
        lines = [x for x in got.split('\n') if not x.startswith(('accept error', 'netSend error', 'netRecv error'))]
        if lines[-2:] != ['=> done', '']:
            return 'wrong: ends with %r' % got[-300:]
        lines = lines[:-2]
        if len(lines) != len(case['exp']):
            return 'wrong: %d results for %d operations: %r' % (len(lines), len(case['exp']), got[-300:])
        for i, (e, l) in enumerate(zip(case['exp'], lines)):
            m = self.match(e, l)
            if m:
                return 'wrong: operation %d (%s): %s' % (i, m, l[:300])
        return None

    @staticmethod
    def match(e, l):
        k = e[0]
        if k in ('opened', 'none', 'closed'):
            return None if l == k else 'expected ' + k
        if k == 'ok!':
            return None if l == 'ok' else 'expected ok'
        if k == 'ok':
            return None if l == '(ok)' else 'expected (ok)'
        v = parse(l)
        if k == 'gone':
            return None if v == [Sym('ok')] or isinstance(v, list) and len(v) == 2 and v[0] == Sym('err') and v[1] in (32, 104) else 'expected an error or nothing'
        if k == 'full':
            b = bytes.fromhex(e[1])
            return None if v == [[Sym('ok')], b] else 'expected %d bytes %r' % (len(b), b[:100])
        if k in ('block', 'eof'):
            b = bytes.fromhex(e[2])
            if not (isinstance(v, list) and len(v) == 3 and v[0] == Sym(k) and v[1] == e[1] and isinstance(v[2], bytes)):
                return 'expected %s at %d' % (k, e[1])
            return None if v[2][:e[1]] == b else 'expected the bytes %r' % b
        if k == 'ready':
            try:
                g = sorted([x[0][1], str(x[-1])] for x in v)
            except (TypeError, IndexError):
                g = None
            if g == e[1]:
                return None
            return 'expected ready %s' % e[1]
        return 'internal'
