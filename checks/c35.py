"""C35: scripts and the prompt run their text form by form."""
import os
import re
import subprocess
import tempfile
from pbt import build, gen
from pbt.build import Tree
from pbt.core import Check, Discard
from pbt.lang import Bad, Machine, show

PRE = '(import "cora/lib/io")(defun vt#emit (x) (begin (display x) (begin (display \'|) x)))'
MACRO = [("(defmacro %s (exp) (list '+ 1 (cadr exp)))", '(%s (* 3 4))', '13'),
         ("(defmacro %s (exp) (list 'quote (cdr exp)))", '(%s a (b 1) "c")', '(a (b 1) "c")'),
         ("(func %s-h ['x . l] => 'yes _ => 'no) (defmacro %s (exp) (list 'quote (%s-h (cdr exp))))", '(%s x y)', 'yes')]


def plain(v):
    """The text of a value of numbers, symbols, strings, booleans and lists."""
    s = show(v)
    if '#' in s:
        raise Discard('not data')
    # (the printer escapes quotation marks and backslashes only)
    return re.sub(r'\\(x[0-9a-f]{2}|.)', lambda m: chr(int(m[1][1:], 16)) if m[1][0] == 'x' else m[0], s)


class Plain(Machine):
    render = staticmethod(plain)


class C(Check):
    id = 'C35'
    technique = 'random scripts, arguments and prompt sessions run by the interpreter, against a model of what they print'
    note = ('Scripts of one to four random programs (as in C02) as top-level definitions and expressions, with macros used by the forms that follow, '
            'loaded files, any layout and comments, first lines from empty to 5,000 bytes, and up to 30 arguments of any bytes; and the same '
            'texts given to the prompt. The exact standard output and exit status 0 are required; at the prompt the number, effects and value of every form.')
    rule = ('A case is one run. Non-trivial: at least six forms after the first line, or five arguments.')
    quick_n = 9000
    thorough_n = 300000
    batch = 25
    quick_time = 35

    def setup(self, work):
        self.tree = Tree(work)

    def program(self, t, pre, out):
        """Appends (source, effects, value or None)."""
        if t.bool(1, 8):
            m, use, v = t.pick(MACRO)
            n = pre + 'mac'
            out.append((m.replace('%s', n), None, None) if '(func' not in m else (m.split(' (defmacro')[0].replace('%s', n), None, None))
            if '(func' in m:
                out.append(('(defmacro' + m.split(' (defmacro')[1].replace('%s', n), None, None))
            out.append((use.replace('%s', n), '', v))
            return
        case = gen.program(t, depth=t.between(1, 3), fns=t.between(0, 3), maxcost=1500, tries=t.pick([0, 0, 1]))
        m = Plain(30000, 2000)
        try:
            for d in case['defs']:
                k = len(m.events)
                m.run(d)
                ev = m.events[k:]
                out.append((gen.text(gen.rename(d, pre)), ''.join(e + '|' for e in ev), None))
            k = len(m.events)
            v = plain(m.run(case['body']))
        except Bad as e:
            raise Discard(str(e))
        except RecursionError:
            raise Discard('recursion')
        ev = m.events[k:]
        src = gen.text(gen.rename(case['body'], pre))
        if t.bool():
            out.append(('(vt#emit %s)' % src, ''.join(e + '|' for e in ev) + v + '|', v))
        else:
            out.append((src, ''.join(e + '|' for e in ev), v))

    def layout(self, t, forms):
        out = []
        for f in forms:
            out.append(f)
            k = t.below(7)
            out.append([' ', '\n', '\n\n', '\n; comment (\n', '', '\t\r\n ', ' ;;; "\n'][k] if f[-1:] == ')' or k else '\n')
            if f[-1:] != ')' and not out[-1]:
                out[-1] = ' '
        if out and t.bool(1, 4):
            out[-1] = ''
        return ''.join(out)

    def arg(self, t):
        k = t.below(5)
        if k == 0:
            return t.pick([b'', b'-', b'--help', b'-x', b'a b', b'"', b'\\', b"'", b'$HOME', b'*', b'123', b'()', b'%s'])
        if k == 1:
            return bytes(t.between(1, 255) for _ in range(t.below(20)))
        if k == 2 and t.bool(1, 6):
            return b'x' * t.pick([255, 256, 4095, 4096, 20000])
        return bytes(t.between(33, 126) for _ in range(t.between(1, 8)))

    def gen(self, t):
        items = []
        for i in range(t.between(1, 4)):
            self.program(t, 'k%d-' % i, items)
        mode = t.pick(['script', 'script', 'prompt'])
        # a part of the forms in files that are loaded in their place
        files = []
        if t.bool(1, 15) and len(items) > 1 and all(e is not None for _, e, _ in items):
            i = t.below(len(items) - 1)
            j = t.between(i + 1, len(items) - 1)
            part = items[i:j]
            files.append(' '.join(s for s, _, _ in part) + '\n')
            items[i:j] = [('(load "DIR/%s")' % ['f 1.cora', 'f1.cora'][t.below(2)], ''.join(e for _, e, _ in part), None)]
        args = [self.arg(t) for _ in range(t.pick([0, 0, 1, 2, 5, 30]))] if mode == 'script' else []
        first = b''
        if mode == 'script':
            k = t.below(6)
            first = [b'#!/usr/bin/env cora', b'', b'(display 1)', b'x' * t.pick([253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 5000]), b'#! "',
                     bytes(t.pick([1, 34, 40, 59, 200, 255]) for _ in range(t.below(300)))][k]
            if t.bool(1, 3):
                # the arguments, anywhere among the forms
                show_ = '(%s)' % ' '.join(['"PATH"'] + [self.lit(a) for a in args])
                items.insert(t.between(0, len(items)), ('(vt#emit *command-line-args*)', show_ + '|', None))
        text = self.layout(t, [PRE] + [s for s, _, _ in items] if mode == 'script' else [s for s, _, _ in items])
        return dict(mode=mode, first=first.decode('latin-1'), args=[a.decode('latin-1') for a in args], text=text, files=files,
                    name=t.pick(['s', 's.cora', 'a b', 'd/s', './s']),
                    expect=[[e, v] for _, e, v in items])

    @staticmethod
    def lit(b):
        return '"' + b.decode('latin-1').replace('\\', '\\\\').replace('"', '\\"') + '"'

    def run(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        d = tempfile.mkdtemp(dir=self.tree.base, prefix='b')
        try:
            for n in ('f 1.cora', 'f1.cora'):
                for x in c['files']:
                    with open('%s/%s' % (d, n), 'wb') as f:
                        f.write(x.encode('latin-1'))
            text = c['text'].replace('DIR', d)
            cmd = [self.tree.dir + '/cora']
            stdin = subprocess.DEVNULL
            if c['mode'] == 'script':
                os.makedirs(d + '/d')
                with open(d + '/' + c['name'], 'wb') as f:
                    f.write((c['first'] + '\n' + text).encode('latin-1'))
                cmd += [c['name']] + [a.encode('latin-1') for a in c['args']]
            else:
                with open(d + '/in', 'wb') as f:
                    f.write((PRE + '\n' + text).encode('latin-1'))
                stdin = open(d + '/in', 'rb')
            e = open(d + '/err', 'wb')
            p = subprocess.Popen(cmd, cwd=d, env=self.tree.env, stdin=stdin, stdout=subprocess.PIPE, stderr=e, start_new_session=True,
                                 preexec_fn=self.tree._limits)
            e.close()
            if stdin != subprocess.DEVNULL:
                stdin.close()
            try:
                out, _ = p.communicate(timeout=90)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                out, _ = p.communicate()
                return 'timeout: after %r' % out[-300:].decode('latin-1')
            return self.judge(c, rc, out.decode('latin-1'))
        finally:
            build.cleanup(d)

    @staticmethod
    def judge(c, rc, out):
        if rc != 0:
            return 'exit: status %d after %r' % (rc, out[-300:])
        if c['mode'] == 'script':
            want = ''.join(e or '' for e, _ in c['expect']).replace('"PATH"', C.lit(c['name'].encode()))
            if out != want:
                i = len(os.path.commonprefix([want, out]))
                return 'wrong: after %r expected %r, got %r' % (want[max(0, i - 100):i], want[i:i + 100], out[i:i + 100])
            return None
        i = 0
        n = 0
        for eff, v in [[None, None]] * 2 + c['expect']:
            p = '%d #> ' % n
            if not out.startswith(p, i):
                return 'prompt: expected %r, got %r' % (p, out[i:i + 200])
            i += len(p)
            if eff is not None:
                if not out.startswith(eff, i):
                    return 'effects: of form %d expected %r, got %r' % (n, eff[:300], out[i:i + 300])
                i += len(eff)
            n += 1
            nx = '\n%d #> ' % n
            j = out.find(nx, i)
            if j < 0:
                return 'end: no prompt after form %d: %r' % (n - 1, out[i:i + 300])
            if v is not None and out[i:j] != v:
                return 'value: of form %d expected %r, got %r' % (n - 1, v[:300], out[i:j][:300])
            i = j + 1
        if out[i:] != '%d #> ' % n:
            return 'rest: %r' % out[i:i + 300]
        return None

    def nontrivial(self, c):
        return len(c['expect']) >= 6 or len(c['args']) >= 5

    def labels(self, c):
        return [c['mode']] + (['loads'] if c['files'] else []) + (['arguments'] if c['args'] else []) + (['long first line'] if len(c['first']) > 255 else [])

    def show(self, c):
        return '%s\n;; first line %r, arguments %r, files %r\n%s\n;; expect\n%s' % (c['mode'], c['first'], c['args'], c['files'], c['text'], c['expect'])

    def key(self, c):
        return self.show(c)
