"""Scratch builds of /repo's working tree.  Nothing is written under /repo."""
import atexit
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile

REPO = os.environ.get('VT_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENVPATH = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
_made = []


def scratch():
    d = tempfile.mkdtemp(prefix='vt-', dir='/tmp')
    os.chmod(d, 0o755)
    _made.append((os.getpid(), d))
    return d


def cleanup(d):
    assert d.startswith('/tmp/vt-')
    shutil.rmtree(d, ignore_errors=True)


@atexit.register
def _atexit():
    for pid, d in _made:
        if pid == os.getpid():
            cleanup(d)


def _term(sig, frm):
    sys.exit(2)


signal.signal(signal.SIGTERM, _term)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        out = r.stdout.decode('utf-8', 'replace')
        raise RuntimeError('command failed (%d): %s\n%s' % (r.returncode, cmd, out[-4000:]))
    return r.stdout


def cflags(kind):
    if kind == 'asan':
        return '-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined ' \
               '-fno-sanitize=alignment,shift,signed-integer-overflow,vptr,nonnull-attribute,null,pointer-overflow ' \
               '-fno-sanitize-recover=undefined'
    if kind == 'stress':
        return '-g -O1 -DCORA_VERIF_HOOKS'
    return '-g'


class BootCrash(RuntimeError):
    """The built system cannot compile its own libraries."""


class Tree:
    """A built copy of the tree: .dir, .env, .vt (the driver)."""

    def __init__(self, work, kind='plain', libs=('eval', 'peval', 'sys'),
                 name=None, extra=False, defs='', patch=None):
        self.work = work
        self.kind = kind
        name = name or kind
        self.base = os.path.join(work, name)
        self.dir = os.path.join(self.base, 'pkg', 'cora')
        os.makedirs(self.dir)
        p1 = subprocess.Popen(
            ['tar', '-C', REPO, '-c', '--exclude=./.git', '--exclude=./cora',
             '--exclude=*.o', '--exclude=*.so', '--exclude=*.a', '--exclude=*.test',
             '--exclude=.deps', '--exclude=./test', '--exclude=./example', '.'],
            stdout=subprocess.PIPE)
        sh(['tar', '-C', self.dir, '-x'], stdin=p1.stdout)
        if p1.wait() != 0:
            raise RuntimeError('tar failed')
        if patch:
            patch(self.dir)
        self.env = dict(os.environ)
        for k in ('MAKEFLAGS', 'CFLAGS', 'LDFLAGS', 'ENABLE_ASAN', 'ENABLE_TSAN',
                  'CORA_SRC_DIR', 'LD_PRELOAD'):
            self.env.pop(k, None)
        self.env.update(CORAPATH=self.base + '/', PATH=ENVPATH, LC_ALL='C',
                        HOME=self.base, LD_LIBRARY_PATH=self.dir + '/src',
                        VT_TMP=self.base)
        fl = cflags(kind) + ' ' + defs
        self.fl = fl
        cc = 'gcc'
        self.cc = cc
        self.ldfl = '-fsanitize=address,undefined' if kind == 'asan' else ''
        if kind == 'asan':
            self.env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1'
            self.env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:abort_on_error=1'
        self._build(extra)
        self._libs(libs)

    def _build(self, extra):
        # The recipe of the makefiles, so that sanitizers and defines reach every
        # object and the independent compilations run in parallel.
        d = self.dir
        jobs = []
        srcs = [f for f in sorted(os.listdir(d + '/src')) if f.endswith('.c')]
        skip = {'for_test.c', 'gc_test.c', 'reader_test.c', 'eval_test.c'}
        mk = open(d + '/src/Makefile').read()
        lib = [f for f in srcs if f not in skip and not f.endswith('_test.c')]
        objs = []
        for f in lib:
            o = '%s/src/%s.o' % (d, f[:-2])
            objs.append(o)
            jobs.append('%s %s -fPIC -DCORA_SRC_DIR=\'"%s/src"\' -I%s/src -c %s/src/%s -o %s'
                        % (self.cc, self.fl, d, d, d, f, o))
        so = []

        def shared(out, src, libs='', fl=None):
            jobs.append('%s %s -fPIC -I%s/src -I%s -c %s -o %s.o' % (
                self.cc, self.fl if fl is None else fl, d, d, src, out))
            so.append('%s %s -shared -o %s %s.o -L%s/src -lcora %s' % (
                self.cc, self.ldfl, out, out, d, libs))
        for f in ('string', 'os', 'io', 'hash-h', 'net', 'rand', 'trace'):
            if os.path.exists('%s/lib/%s.c' % (d, f)):
                shared('%s/lib/%s.so' % (d, f), '%s/lib/%s.c' % (d, f))
        slow = self.fl if self.kind == 'asan' else self.fl.replace('-O1', '-O0')
        shared(d + '/lib/toc.so', d + '/lib/toc.c', fl=slow.replace('-O1', '-O0'))
        shared(d + '/init.so', d + '/init.c', fl=slow.replace('-O1', '-O0'))
        shared(d + '/lib/toc/internal.so', d + '/lib/toc/internal.c')
        jobs.append('%s %s -I%s/src -c %s/main.c -o %s/main.o' % (self.cc, self.fl, d, d, d))
        jobs.append('%s %s -I%s/src -c %s/driver/vt.c -o %s/vt.o' % (
            self.cc, self.fl, d, ROOT, self.base))
        jobs.append('%s %s -I%s/src -c %s/driver/emb.c -o %s/emb.o' % (
            self.cc, self.fl, d, ROOT, self.base))
        if extra:
            shared(d + '/lib/json.so', d + '/lib/json.c', '-ljansson')
            jobs.append('%s %s -fPIC -c %s/lib/md4c/md4c.c -o %s/lib/md4c/md4c.o' % (
                self.cc, self.fl, d, d))
            jobs.append('%s %s -fPIC -I%s/src -c %s/lib/md4c/wrap.c -o %s/lib/md4c/wrap.o' % (
                self.cc, self.fl, d, d, d))
            so.append('%s %s -shared -o %s/lib/md4c/include.so %s/lib/md4c/md4c.o %s/lib/md4c/wrap.o -L%s/src -lcora' % (
                self.cc, self.ldfl, d, d, d, d))
        self._par(jobs)
        sh(['sh', '-c', '%s %s -shared -o %s/src/libcora.so %s -ldl -Wl,--no-as-needed -lm' % (
            self.cc, self.ldfl, d, ' '.join(objs))], env=self.env)
        so.append('%s %s %s/main.o -L%s/src -lcora -ldl -Wl,-rpath,%s/src -o %s/cora' % (
            self.cc, self.ldfl, d, d, d, d))
        self.vt = self.base + '/vt'
        so.append('%s %s %s/vt.o %s/emb.o -L%s/src -lcora -ldl -lm -Wl,-rpath,%s/src -o %s' % (
            self.cc, self.ldfl, self.base, self.base, d, d, self.vt))
        self._par(so)
        # a .so made from the committed C is newer than the .cora beside it
        for root, _, files in os.walk(d):
            for f in files:
                if f.endswith('.so'):
                    os.utime(os.path.join(root, f))

    def _par(self, jobs):
        ps = []
        for j in jobs:
            while len([p for p in ps if p[0].poll() is None]) >= 16:
                ps[0][0].wait()
                for p in ps:
                    if p[0].poll() is None:
                        p[0].wait()
                        break
            f = tempfile.TemporaryFile()
            ps.append((subprocess.Popen(['sh', '-c', j], stdout=f,
                                        stderr=subprocess.STDOUT, env=self.env), j, f))
        for p, j, f in ps:
            if p.wait() != 0:
                f.seek(0)
                raise RuntimeError('build failed: %s\n%s' % (
                    j, f.read().decode('utf-8', 'replace')[-3000:]))

    def compile(self, src, c, env=None, timeout=120):
        """.cora -> .c in a fresh process.  -> (rc, output)"""
        return self.drive([['compile', src, c]], timeout=timeout, env=env)

    def gcc(self, c, so, timeout=300):
        r = subprocess.run('%s %s -w -O0 -shared -fPIC -I%s/src %s -o %s -L%s/src -lcora' % (
            self.cc, self.fl.replace('-O1', '-O0').replace('-g ', ''), self.dir, c, so, self.dir),
            shell=True, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout)
        return r.returncode, r.stdout.decode('utf-8', 'replace')

    def _limits(self):
        if self.kind != 'asan':
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def drive(self, cmds, timeout=300, env=None, results=None, cwd=None, stdin=None,
              cpu=None):
        """Run the driver over commands (lists of words without blanks)."""
        fd, script = tempfile.mkstemp(dir=self.base, prefix='s')
        with os.fdopen(fd, 'w') as f:
            for c in cmds:
                f.write(' '.join(c) + '\n')
        e = dict(self.env)
        if env:
            e.update(env)
        if results:
            e['VT_RESULTS'] = results
        try:
            p = subprocess.Popen([self.vt, script], env=e, cwd=cwd or self.base,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, start_new_session=True,
                                 preexec_fn=self._limits)
            try:
                out, _ = p.communicate(timeout=timeout)
                return p.returncode, out.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                out, _ = p.communicate()
                return -999, 'TIMEOUT ' + out.decode('utf-8', 'replace')
        finally:
            os.unlink(script)

    def _libs(self, libs):
        """Compile the .cora libraries beside their source, as import would."""
        for l in libs:
            src = '%s/lib/%s.cora' % (self.dir, l)
            c = '%s/lib/%s.vt.c' % (self.dir, l)
            for i in range(3):
                rc, out = self.drive([['compile0', src, c]])
                if rc == 0 and os.path.exists(c):
                    break
            else:
                raise BootCrash('compiling lib/%s.cora ends with %d: %s' % (l, rc, out[-2000:]))
            rc, out = self.gcc(c, '%s/lib/%s.so' % (self.dir, l))
            if rc != 0:
                raise BootCrash('the C generated from lib/%s.cora does not compile: %s' % (l, out[-3000:]))
            os.unlink(c)
