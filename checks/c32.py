"""C32: changed sources take effect."""
import os
import subprocess
import tempfile
from pbt import build
from pbt.build import Tree
from pbt.core import Check

NS = 10 ** 9


class C(Check):
    id = 'C32'
    technique = ('random histories of edits, time stamps, imports, loads and program runs, sequential and concurrent, against a model of which '
                 'version each must run')
    note = ('Histories of up to eight steps on one to four packages that import each other and two loaded files, one of them below the package '
            'path: new sources, removed sources, removed or kept compiled forms, time stamps that differ by an hour down to a nanosecond or not at all in '
            'either order; runs that import and load repeatedly, with edits between, alone or two at once. Every program must print the '
            'versions the model names in order, and an up-to-date compiled form must stay untouched.')
    rule = 'A case is a history. Non-trivial: a package or file is used in at least two versions, by at least two runs.'
    quick_n = 4000
    thorough_n = 30000
    batch = 6
    quick_time = 45
    max_shrink_time = 60

    def setup(self, work):
        self.tree = Tree(work)

    def gen(self, t):
        n = t.between(1, 4)
        names = t.shuffle(['q/a', 'q/ab', 'q/sub/d', 'q/a/c', 'q/b'])[:n]      # one path is the beginning of another
        deps = {}
        for i, p in enumerate(names):
            deps[p] = [x for x in names[:i] if t.bool(1, 2)]
        ver = {}
        steps = []

        def edit(x, inproc=False):
            ver[x] = ver.get(x, 0) + 1
            return ['edit', x, ver[x], t.pick(['newer', 'newer', 'older'] if inproc else ['ns+', 'ms+', 's+', 'h+', 'same', 'ns-', 's-', 'h-', 'now'])]

        for p in names + ['f', 'in/g']:
            steps.append(edit(p)[:3] + ['now'])
        for _ in range(t.between(2, 8)):
            k = t.weighted([(5, 'run'), (1, 'two'), (4, 'edit'), (1, 'rmsrc'), (1, 'rmso')])
            if k == 'edit':
                steps.append(edit(t.pick(names + ['f', 'in/g'])))
            elif k in ('rmsrc', 'rmso'):
                steps.append([k, t.pick(names)])
            else:
                r = []
                for _ in range(1 if k == 'run' else 2):
                    acts = []
                    for _ in range(t.between(1, 5)):
                        a = t.weighted([(5, 'import'), (3, 'load'), (2 if k == 'run' else 0, 'edit')])
                        if a == 'import':
                            acts.append(['import', t.pick(names)])
                        elif a == 'load':
                            acts.append(['load', t.pick(['f', 'in/g'] if k == 'two' else ['f', 'in/g', 'f', 'in/g', t.pick(names)])])
                        else:
                            acts.append(edit(t.pick(['f', 'in/g'] + names), True))
                    r.append(acts)
                steps.append([k] + r)
        steps.append(['run', [['import', p] for p in t.shuffle(names)] + [['load', 'f']]])
        return dict(names=names, deps=deps, steps=steps)

    # ---- running a history ----
    def run(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        d = tempfile.mkdtemp(dir=self.tree.base, prefix='b')
        try:
            self.versions = set()
            return H(self.tree, c, d).go()
        finally:
            build.cleanup(d)

    def nontrivial(self, c):
        ed = {}
        runs = 0
        for s in c['steps']:
            if s[0] in ('run', 'two'):
                runs += 1
                for acts in s[1:]:
                    for a in acts:
                        if a[0] == 'edit':
                            ed[a[1]] = a[2]
            elif s[0] == 'edit':
                ed[s[1]] = s[2]
        return runs >= 2 and any(v > 1 for v in ed.values())

    def labels(self, c):
        out = set()
        for s in c['steps']:
            out.add(s[0])
            if s[0] == 'edit':
                out.add('edit ' + s[3])
            if s[0] in ('run', 'two'):
                for acts in s[1:]:
                    for a in acts:
                        out.add(s[0] + ' ' + a[0])
        return sorted(out)

    def show(self, c):
        return 'imports %s\n' % c['deps'] + '\n'.join(map(str, c['steps']))

    def key(self, c):
        return self.show(c)


class H:
    def __init__(self, tree, c, d):
        self.tree, self.c, self.d = tree, c, d
        os.makedirs(d + '/path/pkg/q/sub')
        os.makedirs(d + '/path/pkg/q/a')
        os.makedirs(d + '/path/pkg/in')
        os.makedirs(d + '/out')
        os.makedirs(d + '/versions')
        os.symlink(tree.dir, d + '/path/pkg/cora')
        self.env = dict(tree.env, CORAPATH=d + '/path/')
        self.src = {}           # current source version
        self.so = {}            # version of the compiled form
        self.n = 0

    def file(self, x):
        return self.d + ('/out/f.cora' if x == 'f' else '/path/pkg/%s.cora' % x)

    def sofile(self, x):
        return self.file(x)[:-5] + '.so'

    def text(self, x, v):
        if x in self.c['deps']:
            imp = ''.join('(import "%s")\n' % p for p in self.c['deps'][x])
            use = ' '.join('%s#v' % p for p in self.c['deps'][x])
            return '(package "%s"\n(export v)\n(import "cora/lib/io")\n%s(def v %d)\n(display (list \'%s %d %s)))\n' % (
                x, imp, v, x.replace('/', '-'), v, use)
        return '(import "cora/lib/io")\n(display (list \'%s %d))\n' % (x.replace('/', '-'), v)

    def save(self, x, v):
        """The file of a version, prepared."""
        p = '%s/versions/%s.%d' % (self.d, x.replace('/', '-'), v)
        with open(p, 'w') as f:
            f.write(self.text(x, v))
        return p

    def stat(self, p):
        try:
            s = os.stat(p)
            return (s.st_mtime_ns, s.st_ino, s.st_size)
        except FileNotFoundError:
            return None

    def edit(self, x, v, when):
        p = self.file(x)
        with open(p, 'w') as f:
            f.write(self.text(x, v))
        so = self.stat(self.sofile(x))
        if so and when != 'now':
            d = dict(ns=1, ms=10 ** 6, s=NS, h=3600 * NS, sa=0)[when[:-1] if when != 'same' else 'sa']
            m = so[0] + (d if when[-1] == '+' else -d)
            os.utime(p, ns=(m, m))
        self.src[x] = v

    def script(self, acts):
        out = ['#!/usr/bin/env cora', '(import "cora/lib/io")', '(import "cora/lib/os")']
        for a in acts:
            if a[0] == 'import':
                out.append('(import "%s")' % a[1])
            elif a[0] == 'load':
                out.append('(load "%s")' % self.file(a[1]))
            else:
                # a prepared source takes the place, with its time stamp
                p = self.save(a[1], a[2])
                so = self.stat(self.sofile(a[1]))
                m = (max(so[0] if so else 0, os.stat(p).st_mtime_ns) + 3600 * NS) if a[3] == 'newer' else 86400 * NS * 365
                os.utime(p, ns=(m, m))
                out.append('(exec ["cp" "-p" "%s" "%s"])' % (p, self.file(a[1])))
            out.append("(display '|)")
        self.n += 1
        f = '%s/s%d' % (self.d, self.n)
        with open(f, 'w') as h:
            h.write('\n'.join(out) + '\n')
        return f

    def fresh(self, x, m):
        """Is the compiled form used?  m: the model's time stamps, as far as they are known."""
        if x not in m['so']:
            return False
        if x not in m['src']:
            return True
        return m['src'][x][1] <= m['so'][x][1]

    def predict(self, acts):
        """-> (output, versions of compiled forms made)"""
        m = dict(src={}, so={})
        for x in list(self.c['names']) + ['in/g']:
            s = self.stat(self.file(x))
            if s:
                m['src'][x] = (self.src[x], s[0])
            s = self.stat(self.sofile(x))
            if s:
                m['so'][x] = (self.so[x], s[0])
        src_f = self.src.get('f')
        out, imported, val, made = [], set(), {}, {}
        INF = 1 << 62

        def run(x, v):
            for p in self.c['deps'].get(x, ()):
                imp(p)
            if x in self.c['deps']:
                val[x] = v
                out.append('(%s)' % ' '.join([x.replace('/', '-'), str(v)] + [str(val[p]) for p in self.c['deps'][x]]))
            else:
                out.append('(%s %d)' % (x.replace('/', '-'), v))

        def comp(x):
            # the compiler imports what the source imports
            v = m['src'][x][0]
            for p in self.c['deps'].get(x, ()):
                imp(p)
            m['so'][x] = (v, 2 * 10 ** 18)      # now: after every old time stamp, before 'newer'
            made[x] = v

        def imp(x):
            if x in imported:
                return
            imported.add(x)
            if not self.fresh(x, m):
                if x not in m['src']:
                    raise Gone
                comp(x)
            run(x, m['so'][x][0])

        for a in acts:
            if a[0] == 'import':
                imp(a[1])
            elif a[0] == 'load' and a[1] == 'f':
                out.append('(f %d)' % src_f)
            elif a[0] == 'load':
                if a[1] not in m['src']:
                    raise Gone
                comp(a[1])
                run(a[1], made[a[1]])
            else:
                if a[1] == 'f':
                    src_f = a[2]
                else:
                    m['src'][a[1]] = (a[2], INF if a[3] == 'newer' else 0)
            out.append('|')
        return ''.join(out), made

    def start(self, acts):
        f = self.script(acts)
        e = open(f + '.err', 'wb')
        p = subprocess.Popen([self.tree.dir + '/cora', f], cwd=self.d, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=e,
                             start_new_session=True, preexec_fn=self.tree._limits)
        e.close()
        return p, f

    def wait(self, p, f, want):
        try:
            out, _ = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return 'timeout: after %r' % out[-300:]
        out = out.decode('latin-1')
        if p.returncode != 0 or out != want:
            return 'wrong: step %d expected %r, got status %s and %r %s' % (
                self.i, want, p.returncode, out[-1500:], open(f + '.err').read()[-300:])
        return None

    def go(self):
        for self.i, s in enumerate(self.c['steps']):
            if s[0] == 'edit':
                self.edit(*s[1:])
            elif s[0] == 'rmsrc':
                if self.stat(self.sofile(s[1])) and self.stat(self.file(s[1])):
                    os.unlink(self.file(s[1]))
                    del self.src[s[1]]
            elif s[0] == 'rmso':
                if self.stat(self.sofile(s[1])) and self.stat(self.file(s[1])):
                    os.unlink(self.sofile(s[1]))
                    self.so.pop(s[1], None)
            else:
                try:
                    pred = [self.predict(acts) for acts in s[1:]]
                except Gone:
                    continue
                before = {x: self.stat(self.sofile(x)) for x in self.c['names'] + ['in/g']}
                ps = [self.start(acts) for acts in s[1:]]
                bad = None
                for (p, f), (want, made) in zip(ps, pred):
                    bad = self.wait(p, f, want) or bad
                if bad:
                    return bad
                for _, made in pred:
                    self.so.update(made)
                for a in s[1]:
                    if a[0] == 'edit':
                        self.src[a[1]] = a[2]
                for x, b in before.items():
                    now = self.stat(self.sofile(x))
                    if not any(x in made for _, made in pred):
                        if now != b:
                            return 'rebuilt: step %d: the compiled form of %s was up to date and has changed' % (self.i, x)
                    elif now is None or now == b:
                        return 'kept: step %d: no new compiled form of %s' % (self.i, x)
        return None


class Gone(Exception):
    pass
