"""A small property-based testing engine.

Every random decision of a generator is one integer drawn from a *choice
sequence*.  A case is a pure function of its choice sequence, so a case can be
replayed and shrunk by editing that sequence (delete blocks, zero, lower), the
generators never see anything but valid draws, and every shrunk case is again a
case the generator can produce.

Cases are executed in batches, because one batch usually costs one run of the
compiler and of gcc.  Shrinking is batched too: all candidate edits of one pass
are executed together.
"""
import hashlib
import json
import os
import random
import sys
import time
import traceback
import concurrent.futures as cf
import multiprocessing

NPROC = min(8, os.cpu_count() or 1)


class Overrun(Exception):
    """The choice sequence ended, or the case grew too large."""


class Discard(Exception):
    """The generator made something outside the property's domain."""


class Src:
    """Source of choices: replays a prefix, then draws from rng (or overruns)."""

    def __init__(self, rng=None, prefix=(), limit=6000):
        self.rng = rng
        self.prefix = list(prefix)
        self.limit = limit
        self.out = []

    def below(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 0:
            raise ValueError(n)
        i = len(self.out)
        if i >= self.limit:
            raise Overrun
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = v % n
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
            if len(self.out) > len(self.prefix) + 4000:
                raise Overrun
        self.out.append(v)
        return v

    # -- derived draws ---------------------------------------------------
    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simplest."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest first."""
        tot = sum(w for w, _ in pairs)
        x = self.below(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def size(self, hi, lo=0):
        """A size biased to small values, all of [lo, hi] possible."""
        if hi <= lo:
            return lo
        if self.bool(1, 4):
            return self.between(lo, hi)
        return self.between(lo, min(hi, lo + max(1, (hi - lo) // 4)))

    def int(self, big=True):
        """An integer: small, boundary or large."""
        k = self.below(10 if big else 7)
        if k < 5:
            return self.between(0, 9)
        if k < 7:
            return -self.between(0, 20)
        if k == 7:
            v = self.between(0, 2000) - 1000
            return v
        if k == 8:
            e = self.pick([7, 8, 15, 16, 24, 31, 32, 40, 48, 52])
            v = (1 << e) + self.between(0, 4) - 2
            return -v if self.bool() else v
        v = self.below(1 << 40)
        return -v if self.bool() else v

    def list(self, f, hi, lo=0):
        return [f(self) for _ in range(self.size(hi, lo))]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def rng_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Check:
    """Subclass per property.  See run_check for how it is driven."""
    id = None
    rule = ''
    assumptions = []
    quick_n = 500
    thorough_n = 5000
    batch = 50
    shrink_time = 90
    level = 'exploration'
    max_sample = 1200

    def setup(self, work):      # once, in the parent
        pass

    def gen(self, t):
        raise NotImplementedError

    def run(self, cases):
        """-> list (one per case) of None or a failure message."""
        raise NotImplementedError

    def labels(self, case):
        return ()

    def nontrivial(self, case):
        return True

    def show(self, case):
        return case if isinstance(case, str) else repr(case)

    def key(self, case):
        return self.show(case)

    def known(self, case, msg):
        """Return the id of a listed finding this failure is, or None."""
        return None

    def fixed_cases(self):
        """Choice-free regression cases: [(name, case)], always run first."""
        return []

    def finish(self):           # once, in the parent, after all batches
        """Extra evidence entries (dict)."""
        return {}


def gen_case(check, rng, prefix=()):
    src = Src(rng, prefix)
    case = check.gen(src)
    return case, src.out


_CHECK = None   # set before forking


def _worker(args):
    """Generate and execute one batch; returns a summary."""
    seed, bi, n = args
    check = _CHECK
    cases, chs = [], []
    discarded = 0
    i = 0
    while len(cases) < n:
        rng = rng_for(check.id, seed, bi, i)
        i += 1
        if i > n * 20:
            break
        try:
            c, ch = gen_case(check, rng)
        except (Discard, Overrun):
            discarded += 1
            continue
        cases.append(c)
        chs.append(ch)
    try:
        res = check.run(cases)
    except Exception:
        return dict(err=traceback.format_exc(), bi=bi)
    keys, labels, fails, samples, extra = [], {}, [], [], 0
    for c, ch, r in zip(cases, chs, res):
        nt = bool(check.nontrivial(c))
        for l in check.labels(c):
            labels[l] = labels.get(l, 0) + 1
        if nt:
            keys.append(hashlib.sha256(
                repr(check.key(c)).encode('utf-8', 'surrogateescape')).digest()[:10])
        if r is not None:
            fails.append((ch, r, check.known(c, r)))
    if bi % 7 == 0 and cases:
        samples = [check.show(cases[0])[:check.max_sample]]
    return dict(bi=bi, n=len(cases), keys=keys, labels=labels, fails=fails,
                samples=samples, discarded=discarded)


def _batch_cases(check, seed, bi, n):
    cases = []
    i = 0
    while len(cases) < n and i < n * 20:
        rng = rng_for(check.id, seed, bi, i)
        i += 1
        try:
            cases.append(gen_case(check, rng)[0])
        except (Discard, Overrun):
            pass
    return cases


def _replay_batch(check, seed, bi):
    """Failure message if the whole batch fails three times out of three."""
    cases = _batch_cases(check, seed, bi, check.batch)
    msg = None
    for _ in range(3):
        bad = [r for c, r in zip(cases, check.run(cases))
               if r is not None and check.known(c, r) is None]
        if not bad:
            return None
        msg = bad[0]
    return msg


def _regen(check, chs):
    out = []
    for ch in chs:
        try:
            c, o = gen_case(check, None, ch)
            out.append((c, o))
        except (Discard, Overrun):
            out.append(None)
        except Exception:
            out.append(None)
    return out


def _run_cands(pool, check, cands):
    """Execute candidate cases in parallel chunks -> list of messages/None."""
    if not cands:
        return []
    k = max(1, (len(cands) + NPROC - 1) // NPROC)
    chunks = [cands[i:i + k] for i in range(0, len(cands), k)]
    res = []
    for r in pool.map(_run_chunk, chunks):
        res.extend(r)
    return res


def _run_chunk(cases):
    try:
        return _CHECK.run(cases)
    except Exception:
        return [None] * len(cases)


def _size(ch):
    return (len(ch), sum(min(c, 1 << 20) for c in ch), ch)


def shrink(pool, check, choices, msg, deadline, same):
    best, bestmsg = list(choices), msg
    improved = True
    rounds = 0
    while improved and time.time() < deadline:
        improved = False
        rounds += 1
        n = len(best)
        cand = []
        seen = set()

        def add(c):
            tup = tuple(c)
            if tup not in seen and _size(list(c)) < _size(best):
                seen.add(tup)
                cand.append(list(c))
        k = n
        while k >= 1:
            step = max(1, k // 2) if k > 1 else 1
            for i in range(0, n - k + 1, step):
                add(best[:i] + best[i + k:])
                if len(cand) > 400:
                    break
            k //= 2
            if len(cand) > 400:
                break
        for i in range(n):
            if len(cand) > 900:
                break
            if best[i]:
                add(best[:i] + [0] + best[i + 1:])
                add(best[:i] + [best[i] // 2] + best[i + 1:])
                add(best[:i] + [best[i] - 1] + best[i + 1:])
                if i + 1 < n:
                    add(best[:i] + [0] + best[i + 2:])
        # try in increasing size, in waves
        cand.sort(key=_size)
        wave = 64
        for i in range(0, len(cand), wave):
            if time.time() > deadline:
                break
            gens = [g for g in _regen(check, cand[i:i + wave]) if g is not None
                    and _size(g[1]) < _size(best)]
            res = _run_cands(pool, check, [g[0] for g in gens])
            ok = [(g[1], r) for g, r in zip(gens, res)
                  if r is not None and same(r) and check.known(g[0], r) is None]
            if ok:
                best, bestmsg = min(ok, key=lambda x: _size(x[0]))
                improved = True
                break
    return best, bestmsg, rounds


def msg_class(msg):
    """Coarse class of a failure message, kept stable while shrinking."""
    return msg.split(':', 1)[0]


class Abort(Exception):
    pass


def load_known():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        'known_findings.txt')
    out = []
    try:
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                out.append(line)
    except FileNotFoundError:
        pass
    return out


def run_check(check, tier, seed, replay=None):
    global _CHECK
    t0 = time.time()
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    evdir = os.path.join(root, 'evidence')
    repdir = os.path.join(evdir, 'replays')
    os.makedirs(repdir, exist_ok=True)
    from . import build
    work = build.scratch()
    check.tier = tier
    check.seed = seed
    try:
        check.setup(work)
        _CHECK = check
        if replay:
            return do_replay(check, replay)
        return _drive(check, tier, seed, t0, evdir, repdir)
    except build.BootCrash as e:
        path = os.path.join(repdir, '%s-boot.json' % check.id)
        json.dump(dict(property=check.id, boot=str(e)), open(path, 'w'), indent=1)
        json.dump(dict(property=check.id, tier=tier, seed=seed, level=check.level,
                       coverage=dict(evaluations=1, distinct_nontrivial=1, rule=check.rule, samples=[str(e)]),
                       assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2),
                       violations=1), open(os.path.join(evdir, check.id + '.json'), 'w'), indent=1)
        print('--- three times out of three: %s' % e)
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: machinery error')
        return 2
    finally:
        build.cleanup(work)


def do_replay(check, path):
    d = json.load(open(path))
    if 'boot' in d:
        print('the build itself succeeds now')
        return 0
    if 'batch_replay' in d:
        m = _replay_batch(check, d['seed'], d['batch_replay'])
        print('RESULT', m)
        if m is not None:
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            return 1
        return 0
    if d.get('fixed'):
        case = dict(check.fixed_cases())[d['fixed']]
    else:
        case, _ = gen_case(check, None, d['choices'])
    print(check.show(case))
    r = check.run([case])[0]
    print('RESULT', r)
    if r is not None and check.known(case, r) is None:
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    return 0


def _drive(check, tier, seed, t0, evdir, repdir):
    n = check.quick_n if tier == 'quick' else check.thorough_n
    nb = (n + check.batch - 1) // check.batch
    ctx = multiprocessing.get_context('fork')
    ev = 0
    labels, samples = {}, []
    keys = set()
    fails = []
    discarded = 0
    errs = []
    known_seen = {}
    unrepro = []
    viol = 0
    # -- regression cases first
    fixed = check.fixed_cases()
    with cf.ProcessPoolExecutor(NPROC, mp_context=ctx) as pool:
        fixed_fail = []
        if fixed:
            res = _run_cands(pool, check, [c for _, c in fixed])
            for (name, c), r in zip(fixed, res):
                ev += 1
                for l in check.labels(c):
                    labels[l] = labels.get(l, 0) + 1
                if check.nontrivial(c):
                    keys.add(hashlib.sha256(repr(check.key(c)).encode('utf-8', 'surrogateescape')).digest()[:10])
                if r is not None:
                    k = check.known(c, r)
                    if k:
                        known_seen[k] = known_seen.get(k, 0) + 1
                    else:
                        fixed_fail.append((name, c, r))
        budget = getattr(check, 'quick_time', 240) if tier == 'quick' \
            else getattr(check, 'thorough_time', 3600)
        jobs = [(seed, bi, check.batch) for bi in range(nb)]
        pending = set()
        it = iter(jobs)
        stop = bool(fixed_fail)
        done_all = False
        while True:
            while not stop and not done_all and len(pending) < NPROC + 2:
                j = next(it, None)
                if j is None:
                    done_all = True
                    break
                if time.time() - t0 > budget:
                    stop = True
                    break
                pending.add(pool.submit(_worker, j))
            if not pending:
                break
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                r = f.result()
                if 'err' in r:
                    errs.append(r)
                    stop = True
                    continue
                ev += r['n']
                discarded += r['discarded']
                keys.update(r['keys'])
                for k, v in r['labels'].items():
                    labels[k] = labels.get(k, 0) + v
                samples.extend((r['bi'], s) for s in r['samples'])
                for ch, m, k in r['fails']:
                    if k:
                        known_seen[k] = known_seen.get(k, 0) + 1
                    else:
                        fails.append((r['bi'], ch, m))
                        stop = True
        code = 0
        path = None
        if fixed_fail:
            for name, c, m in fixed_fail:
                ok = 0
                for _ in range(3):
                    if check.run([c])[0] is not None:
                        ok += 1
                if ok == 3:
                    path = os.path.join(repdir, '%s-fixed-%s.json' % (check.id, name))
                    json.dump(dict(property=check.id, fixed=name, message=m,
                                   case=check.show(c)), open(path, 'w'), indent=1)
                    print('--- failing regression case %s' % name)
                    print(check.show(c)[:4000])
                    print('--- ' + m[:3000])
                    viol += 1
                    code = 1
                    break
                unrepro.append('regression case %s, %d/3: %s' % (name, ok, m[:500]))
                print('note: not reproduced: ' + unrepro[-1])
        if not code and fails:
            fails.sort(key=lambda f: (_size(f[1]), f[0]))
            for bi, ch, m in fails[:6]:
                # replay three times before believing it
                g = _regen(check, [ch])[0]
                if g is None:
                    continue
                ok = 0
                for _ in range(3):
                    r = check.run([g[0]])[0]
                    if r is not None:
                        ok += 1
                        m = r
                if ok < 3:
                    # perhaps it needs the state its batch builds up
                    m2 = _replay_batch(check, seed, bi)
                    if m2 is None:
                        unrepro.append('%d/3 alone: %s' % (ok, m[:500]))
                        print('note: not reproduced (%d/3 alone): %s' % (ok, m[:800]))
                        print(check.show(g[0])[:1500])
                        continue
                    path = os.path.join(repdir, '%s-%s-%d.json' % (check.id, tier, seed))
                    json.dump(dict(property=check.id, seed=seed, batch_replay=bi,
                                   n=check.batch, message=m2, case=check.show(g[0])),
                              open(path, 'w'), indent=1)
                    print('--- batch %d fails on every replay; first failure:' % bi)
                    print(check.show(g[0])[:3000])
                    print('--- ' + m2[:3000])
                    viol += 1
                    code = 1
                    break
                cls = msg_class(m)
                best, bm, rounds = shrink(
                    pool, check, g[1], m, time.time() + check.shrink_time,
                    lambda r: msg_class(r) == cls)
                case, _ = gen_case(check, None, best)
                path = os.path.join(repdir, '%s-%s-%d.json' % (check.id, tier, seed))
                json.dump(dict(property=check.id, seed=seed, batch=bi, choices=best,
                               message=bm, case=check.show(case),
                               original=check.show(g[0]), shrink_rounds=rounds),
                          open(path, 'w'), indent=1)
                print('--- minimal failing case (%d choices, %d shrink rounds)'
                      % (len(best), rounds))
                print(check.show(case)[:4000])
                print('--- ' + bm[:3000])
                viol += 1
                code = 1
                break
    samples.sort()
    if not samples and fixed:
        samples = [(0, check.show(fixed[0][1])[:check.max_sample])]
    cov = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=check.rule,
               samples=[s for _, s in samples[:6]], classes=dict(sorted(labels.items())),
               discarded=discarded, regression_cases=len(fixed))
    if unrepro:
        cov['unreproduced'] = unrepro[:10]
    try:
        cov.update(check.finish())
    except Exception:
        errs.append(dict(err=traceback.format_exc(), bi=-1))
    for line in load_known():
        if 'property=%s ' % check.id in line:
            kid = line.split('id=', 1)[1].split()[0] if 'id=' in line else ''
            print(line)
            cov.setdefault('known_findings', {})[kid] = known_seen.get(kid, 0)
    evd = dict(property=check.id, tier=tier, seed=seed, level=check.level,
               coverage=cov, assumptions=list(check.assumptions),
               wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(evd, open(os.path.join(evdir, check.id + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs'
          % (check.id, tier, seed, ev, len(keys), discarded, time.time() - t0))
    for k, v in sorted(labels.items()):
        print('   %-40s %d' % (k, v))
    if code:
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    if errs:
        print('INCONCLUSIVE: machinery error')
        for e in errs[:3]:
            print(e['err'][:3000])
        return 2
    if ev < (len(fixed) + min(n, check.batch)) * 0.5 or not keys:
        print('INCONCLUSIVE: too few cases ran')
        return 2
    return 0
