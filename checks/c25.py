"""C25: channels deliver each message once and in order; a choice commits one event."""
import re
from pbt.libcheck import LibCheck
from pbt.prog import judge

PRE = '''
(func ch-op
  chs ['send c v] => (cora/lib/chan#chan-send (vector-ref chs c) v)
  chs ['recv c] => (cora/lib/chan#chan-recv (vector-ref chs c))
  chs ['wrap tag o] => (cora/lib/cml#wrap (ch-op chs o) (lambda (v) (list tag v)))
  chs ['then tag pid o ops] => (cora/lib/cml#wrap (ch-op chs o) (lambda (v) (do (ch-steps chs pid tag ops) (list tag v))))
  chs ['choice a] => (choice (ch-op chs a))
  chs ['choice a b] => (choice (ch-op chs a) (ch-op chs b))
  chs ['choice a b c] => (choice (ch-op chs a) (ch-op chs b) (ch-op chs c))
  chs ['choice a b c d] => (choice (ch-op chs a) (ch-op chs b) (ch-op chs c) (ch-op chs d)))
(defun ch-perform (pid n op) (do (vt#emit (list 'start pid n)) (let v (cora/lib/cml#perform op) (vt#emit (list 'done pid n v)))))
(func ch-steps
  chs pid n [] => (vt#emit (list 'end pid n))
  chs pid n ['yield . more] => (do (cora/lib/cml#yield) (ch-steps chs pid (+ n 1) more))
  chs pid n [['spawn p steps] . more] => (do (cora/lib/cml#spawn (lambda () (ch-steps chs p 0 steps))) (ch-steps chs pid (+ n 1) more))
  chs pid n [op . more] => (do (ch-perform pid n (ch-op chs op)) (ch-steps chs pid (+ n 1) more)))
(defun ch-make (v i) (if (< i 0) v (do (vector-set! v i (cora/lib/chan#chan-make)) (ch-make v (- i 1)))))
(defun ch-case (n steps) (let chs (ch-make (vector n) (- n 1)) (do (cora/lib/cml#cml-entry (lambda () (ch-steps chs 0 0 steps))) 'quiet)))
'''
VALUES = ['false', 'true', '()', '0', '7', '(1 2)', 'Done', 'false', '"s"', 'block', '(false)']


class Bad(Exception):
    pass


def text(x):
    return x if isinstance(x, str) else '(%s)' % ' '.join(text(y) for y in x)


def parse(s):
    """A printed value as nested lists of words."""
    toks = re.findall(r'"(?:\\.|[^"\\])*"|[()]|[^\s()"]+', s)
    st = [[]]
    for x in toks:
        if x == '(':
            st.append([])
        elif x == ')':
            y = st.pop()
            st[-1].append(y)
        else:
            st[-1].append(x)
    if len(st) != 1 or len(st[0]) != 1:
        raise Bad('unreadable event %r' % s)
    return st[0][0]


def norm(v):
    return parse(v) if isinstance(v, str) else v


class C(LibCheck):
    id = 'C25'
    technique = 'random processes exchanging messages over random channels; the history they record is judged by the rules of rendezvous'
    note = ('2 to 7 processes, some of them spawned by others, over 1 to 4 channels: sends, receives, choices of one to four events (nested, with wrappers, wrappers that themselves '
            'communicate, both ends of one channel in one choice), yields; messages of any value, false among them. Rules: each committed send pairs with one committed receive '
            '(in the order in which both were started) and has its value; a choice yields one of its events, and what it did not choose does not happen; when everything is '
            'quiet no sender and receiver of the same channel wait. The library resolves choices by its own random numbers, so the histories are not predicted. '
            'Within one thread.')
    rule = 'A case is a set of processes. Non-trivial: a choice or at least three receives in it.'
    libs = ()
    extra = True
    imports = ('cml', 'chan')
    pre = PRE
    fast = True
    quick_n = 12000
    thorough_n = 500000
    quick_time = 30
    batch = 40

    # ---- generation: an op is ['send', c, v], ['recv', c], ['wrap', tag, op], ['then', tag, op, ops], ['choice', op...]
    def basic(self, t):
        c = str(t.below(self.nch))
        if t.bool():
            self.msg += 1
            return ['send', c, t.pick(VALUES) if t.bool(1, 4) else str(1000 + self.msg)]
        return ['recv', c]

    def tag(self):
        self.ntag += 1
        return str(100000 * self.ntag)

    def op(self, t, d, pid):
        k = t.weighted([(8, 'basic'), (2, 'wrap'), (4 if d and not self.plain else 0, 'choice'), (2 if d > 1 else 0, 'then')])
        if k == 'basic':
            return self.basic(t)
        if k == 'wrap':
            return ['wrap', self.tag(), self.op(t, d - 1 if d else 0, pid)]
        if k == 'then':
            return ['then', self.tag(), str(pid), self.op(t, d - 2, pid), [self.op(t, 0, pid) for _ in range(t.below(3))]]
        self.choices += 1
        out = []
        for _ in range(t.pick([1, 2, 2, 2, 3, 4])):
            o = self.op(t, d - 1, pid)
            if o[0] not in ('wrap', 'then'):
                o = ['wrap', self.tag(), o]
            out.append(o)
        return ['choice'] + out

    def steps(self, t, d):
        pid = self.np
        self.np += 1
        out = []
        for _ in range(t.weighted([(1, 0), (3, 1), (4, 3), (3, 6), (1, 14)])):
            k = t.weighted([(10, 'op'), (1, 'yield'), (2 if d and self.np < 7 else 0, 'spawn')])
            if k == 'op':
                out.append(self.op(t, 2, pid))
            elif k == 'yield':
                out.append('yield')
            else:
                p = self.np
                out.append(['spawn', str(p), self.steps(t, d - 1)])
        return out

    def gen(self, t):
        self.nch = t.pick([1, 1, 2, 2, 3, 4])
        self.np, self.msg, self.ntag, self.choices = 1, 0, 0, 0
        self.plain = t.bool(1, 3)
        main = []
        for _ in range(t.between(1, 5)):
            p = str(self.np)
            main.append(['spawn', p, self.steps(t, 1)])
        sv, self.np = self.np, 0
        rest = self.steps(t, 0)
        self.np = sv
        main = t.shuffle(main + rest) if t.bool() else main + rest
        src = "(vt#case CASE_ID (lambda () (ch-case %d '%s)))\n" % (self.nch, text(main))
        labels = ['choice'] if self.choices else ['plain']
        return dict(src=src, main=main, expect='', labels=labels, nt=self.choices > 0 or text(main).count('(recv') >= 3)

    # ---- judging
    def judge(self, case, res):
        st, got = res
        lines = got.split('\n') if isinstance(got, str) else []
        if st != 'exit:0' or lines[-2:] != ['=> quiet', '']:
            return judge('=> quiet\n', res)
        try:
            self.check(case, [parse(x) for x in lines[:-2]])
        except Bad as e:
            return 'wrong: %s in %s' % (e, ' '.join(lines)[:600])
        return None

    def resolve(self, op, v):
        """The basic event and value a result v of op stands for; -> (event, value, path of `then`s)."""
        k = op[0]
        if k in ('send', 'recv'):
            return op, v, []
        if k in ('wrap', 'then'):
            if not isinstance(v, list) or len(v) != 2 or v[0] != op[1]:
                raise Bad('the result %s does not come from %s' % (v, text(op)[:100]))
            inner = op[2] if k == 'wrap' else op[3]
            e, x, th = self.resolve(inner, v[1])
            return e, x, th + ([op] if k == 'then' else [])
        # (choices contain tagged events only)
        m = [o for o in op[1:] if isinstance(v, list) and v[:1] == [o[1]]]
        if len(m) != 1:
            raise Bad('the result %s is none of the events of the choice' % (v,))
        return self.resolve(m[0], v)

    def events(self, op):
        if op[0] in ('send', 'recv'):
            return [op]
        if op[0] == 'wrap':
            return self.events(op[2])
        if op[0] == 'then':
            return self.events(op[3])
        return [e for o in op[1:] for e in self.events(o)]

    def thens(self, op, out):
        if op[0] == 'then':
            out[int(op[1])] = op
            self.thens(op[3], out)
        elif op[0] == 'wrap':
            self.thens(op[2], out)
        elif op[0] == 'choice':
            for o in op[1:]:
                self.thens(o, out)

    def check(self, case, log):
        procs = {}

        def collect(pid, steps):
            procs[pid] = steps
            for s in steps:
                if s[0] == 'spawn':
                    collect(int(s[1]), s[2])
        collect(0, case['main'])
        by = {}
        for n, e in enumerate(log):
            by.setdefault(int(e[1]), []).append((n, e))
        sends, recvs, waiting = {}, {}, []
        self.count = 0

        def took(op, v, at):
            """op started at `at` and gave v."""
            e, x, _ = self.resolve(op, v)
            self.count += 1
            if e[0] == 'send':
                if x != []:
                    raise Bad('a send gave %s' % (x,))
                sends.setdefault(e[1], []).append((at, norm(e[2])))
            else:
                recvs.setdefault(e[1], []).append((at, x))
        spawned = {0}
        for pid, steps in procs.items():
            ev = by.pop(pid, [])
            self.pos = 0

            def perform(op, n):
                """Consumes the events of one operation; -> False if it did not finish."""
                if self.pos == len(ev):
                    raise Bad('process %d stopped before step %s' % (pid, n))
                at, e = ev[self.pos]
                if e != ['start', str(pid), str(n)]:
                    raise Bad('process %d: expected the start of %s, found %s' % (pid, n, e))
                self.pos += 1
                th = {}
                self.thens(op, th)
                # wrappers that go on communicating come before the end of the operation
                ran = []
                while self.pos < len(ev):
                    m, e = ev[self.pos]
                    if e[0] == 'done' and e[2] == str(n):
                        self.pos += 1
                        _, _, path = self.resolve(op, e[3])
                        if [int(o[1]) for o in path] != ran:
                            raise Bad('process %d: the wrappers %s ran, the result came through %s' % (pid, ran, path))
                        took(op, e[3], at)
                        return True
                    w = int(e[2]) // 100000 * 100000
                    if w not in th or w in ran:
                        raise Bad('process %d: unexpected %s during step %s' % (pid, e, n))
                    ran.append(w)
                    if not run(th[w][4], w):
                        # it is stuck inside the wrapper of a committed event
                        o = th[w]
                        inside.append((op, ran, at))
                        return False
                if ran:
                    inside.append((op, ran, at))
                else:
                    waiting.append((pid, self.events(op)))
                return False

            def run(steps, n):
                for s in steps:
                    if s == 'yield':
                        pass
                    elif s[0] == 'spawn':
                        spawned.add(int(s[1]))
                    elif not perform(s, n):
                        return False
                    n += 1
                if self.pos == len(ev):
                    raise Bad('process %d did not come to its end %s' % (pid, n))
                if ev[self.pos][1] != ['end', str(pid), str(n)]:
                    raise Bad('process %d: expected its end, found %s' % (pid, ev[self.pos][1]))
                self.pos += 1
                return True
            inside = []
            if pid not in spawned:
                if ev:
                    raise Bad('process %d ran and was never spawned' % pid)
                continue
            run(steps, 0)
            if self.pos < len(ev):
                raise Bad('process %d goes on after it waits: %s' % (pid, ev[self.pos][1]))
            for op, ran, at in inside:
                # the event committed, its result is not in the history: find the event by the wrapper
                th = {}
                self.thens(op, th)
                es = self.events(th[ran[0]][3])
                if len(es) != 1:
                    self.unclear = True
                    return
                self.count += 1
                if es[0][0] == 'send':
                    sends.setdefault(es[0][1], []).append((at, norm(es[0][2])))
                else:
                    recvs.setdefault(es[0][1], []).append((at, None))
        if by:
            raise Bad('unknown process %s' % list(by))
        for c in sorted(set(sends) | set(recvs)):
            a, b = sorted(sends.get(c, []), key=lambda x: x[0]), sorted(recvs.get(c, []), key=lambda x: x[0])
            if len(a) != len(b):
                raise Bad('channel %s: %d sends and %d receives took place' % (c, len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                if y[1] is not None and x[1] != y[1]:
                    raise Bad('channel %s: message %d is %s and was received as %s' % (c, i, x[1], y[1]))
        for p, es in waiting:
            for e in es:
                for p2, es2 in waiting:
                    if p2 != p and e[0] == 'send' and ['recv', e[1]] in es2:
                        raise Bad('process %d waits to send on channel %s, where process %d waits to receive' % (p, e[1], p2))

    def nontrivial(self, c):
        return c['nt']


