"""Checks whose cases are programs run by the driver."""
import os
import re
import tempfile

from . import build
from .core import Check

REC = re.compile(rb'#case (\S+) (\S+) (\d+)\n')


def parse_results(path):
    """-> {id: (status, bytes)}"""
    out = {}
    try:
        data = open(path, 'rb').read()
    except FileNotFoundError:
        return out
    i = 0
    while True:
        m = REC.match(data, i)
        if not m:
            return out
        n = int(m.group(3))
        out[m.group(1).decode()] = (m.group(2).decode(), data[m.end():m.end() + n])
        i = m.end() + n + 1


class Runner:
    """Runs batches of source texts on a tree."""

    def __init__(self, tree):
        self.tree = tree

    def batch(self, srcs, mode='compiled', pre='', cmds=(), limit=(10, 30), level0=False,
              timeout=400, env=None, macros=None):
        """srcs: list of source texts whose case ids are 0..n-1.
        -> (results dict, error text or None)"""
        t = self.tree
        d = tempfile.mkdtemp(dir=t.base, prefix='b')
        try:
            f = d + '/p.cora'
            with open(f, 'wb') as h:
                h.write(pre.encode('latin-1'))
                for s in srcs:
                    h.write(s.encode('latin-1'))
            res = d + '/res'
            lim = ['limit', str(limit[0]), str(limit[1])]
            pre1 = []
            if macros is not None:
                # a file loaded beforehand, whose macros the program uses
                with open(d + '/m.cora', 'wb') as h:
                    h.write(macros.encode('latin-1'))
                pre1 = [['eval', d + '/m.cora']]
                if mode == 'compiled':
                    rc, out = t.drive([['compile', d + '/m.cora', d + '/m.c']], timeout=60, cwd=d, env=env)
                    if rc != 0 or not os.path.exists(d + '/m.c'):
                        return {}, 'compile: the compiler ends with %s: %s' % (rc, out[-1500:])
                    rc, out = t.gcc(d + '/m.c', d + '/m.so')
                    if rc != 0:
                        return {}, 'gcc: the generated C does not compile: %s' % out[:1500]
                    pre1 = [['loadso', d + '/m.so']]
            if mode == 'compiled':
                rc, out = t.drive(pre1 + [['compile0' if level0 else 'compile', f, d + '/p.c']],
                                  timeout=min(timeout, 60), cwd=d, env=env)
                if rc != 0 or not os.path.exists(d + '/p.c'):
                    return {}, 'compile: the compiler ends with %s: %s' % (rc, out[-1500:])
                rc, out = t.gcc(d + '/p.c', d + '/p.so')
                if rc != 0:
                    return {}, 'gcc: the generated C does not compile: %s' % out[:1500]
                rc, out = t.drive([lim] + list(cmds) + pre1 + [['loadso', d + '/p.so']],
                                  results=res, timeout=timeout, cwd=d, env=env)
            else:
                rc, out = t.drive([lim] + list(cmds) + pre1 + [['eval', f]], results=res,
                                  timeout=timeout, cwd=d, env=env)
            r = parse_results(res)
            if 'done' not in r:
                return r, 'load: the program ends with %s: %s' % (rc, out[-1500:])
            return r, None
        finally:
            build.cleanup(d) if d.startswith('/tmp/vt-') else None

    def run(self, mk, n, **kw):
        """mk(i, idx): source of case i under id idx.  -> list of (status, text)
        where status 'bad' means the batch machinery failed for that case alone."""
        out = [None] * n
        self._run(mk, list(range(n)), out, kw)
        return out

    def _run(self, mk, ids, out, kw):
        if not ids:
            return
        kw2 = dict(kw)
        if callable(kw2.get('macros')):
            kw2['macros'] = ''.join(kw['macros'](i, j) for j, i in enumerate(ids))
        r, err = self.batch([mk(i, j) for j, i in enumerate(ids)], **kw2)
        if err is None:
            for j, i in enumerate(ids):
                st, data = r.get(str(j), ('missing', b''))
                out[i] = (st, data.decode('latin-1'))
            return
        if len(ids) == 1:
            out[ids[0]] = ('bad', err)
            return
        h = len(ids) // 2
        self._run(mk, ids[:h], out, kw)
        self._run(mk, ids[h:], out, kw)


def diff(want, got):
    """First differing line of two logs."""
    w, g = want.split('\n'), got.split('\n')
    for i, (a, b) in enumerate(zip(w, g)):
        if a != b:
            return 'line %d: expected %s, got %s' % (i + 1, a[:300], b[:300])
    if len(w) > len(g):
        return 'missing after line %d: %s' % (len(g), w[len(g)][:300])
    return 'extra after line %d: %s' % (len(w), g[len(w)][:300])


def judge(want, res):
    st, got = res
    if st == 'bad':
        return got
    if st.startswith('timeout'):
        return 'timeout: expected %r' % want[-200:]
    if st != 'exit:0':
        return 'crash: %s after %r' % (st, got[-300:])
    if got != want:
        return 'wrong: ' + diff(want, got)
    return None
