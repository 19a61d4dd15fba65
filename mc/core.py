"""
Shared machinery of the bounded-exhaustive checks.

Every check module ``mc/<id>.py`` exposes ``run(ck, tier)``; it enumerates a finite,
explicitly bounded space of cases (operation histories, configurations,
environment answers) on the real code in /repo and compares each step with a
small reference model.  ``Check`` counts what was explored, stores
counterexamples as replay files, and writes the evidence file.
"""
import collections
import contextlib
import hashlib
import io
import json
import mmap
import os
import pickle
import re
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


CASE_LIMIT = 240.    # wall-clock seconds one case may take (they normally take milliseconds)


class Slot(object):
    """What a process is executing right now, visible to its parent even if it dies."""

    def __init__(self):
        self.m = mmap.mmap(-1, 4096)

    def begin(self, key):
        b = key.encode()[:4000]
        self.m[0:8] = struct.pack('d', time.time())
        self.m[8:12] = struct.pack('i', len(b))
        self.m[12:12 + len(b)] = b

    def end(self):
        self.m[0:8] = struct.pack('d', 0.)

    def running(self):
        """(seconds, key) of the case being executed"""
        t = struct.unpack('d', self.m[0:8])[0]
        if t == 0.:
            return None, None
        n = struct.unpack('i', self.m[8:12])[0]
        return time.time() - t, self.m[12:12 + n].decode(errors='replace')


NOW = Slot()


def fork_map(fn, n, nproc):
    """
    [fn(i) for i in range(n)] in forked processes; each entry is
    (result, None, None) or (None, how it died, case it died in).
    """
    global NOW
    out = [None] * n
    todo = list(range(n))
    live = {}
    sys.stdout.flush()
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop(0)
            slot = Slot()
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0) if n == 1 else None
                    os.close(rd)
                    NOW = slot
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump(fn(i), f, protocol=4)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            live[rd] = [i, pid, slot, [], None]
        ready, _, _ = select.select(list(live), [], [], 1.)
        for rd in ready:
            L = live[rd]
            b = os.read(rd, 1 << 20)
            if b:
                L[3].append(b)
                continue
            os.close(rd)
            _, st = os.waitpid(L[1], 0)
            del live[rd]
            _, key = L[2].running()
            if L[4] is not None:
                out[L[0]] = (None, L[4], key)
            elif os.WIFSIGNALED(st):
                out[L[0]] = (None, 'the process was killed by signal %d' % os.WTERMSIG(st), key)
            elif os.WEXITSTATUS(st) != 0:
                out[L[0]] = (None, 'the process exited with status %d' % os.WEXITSTATUS(st), key)
            else:
                out[L[0]] = (pickle.loads(b''.join(L[3])), None, None)
        for rd, L in live.items():
            dt, key = L[2].running()
            if dt is not None and dt > CASE_LIMIT and L[4] is None:
                L[4] = 'did not finish within %d s' % CASE_LIMIT
                try:
                    os.killpg(L[1], signal.SIGKILL) if n == 1 else os.kill(L[1], signal.SIGKILL)
                except OSError:
                    pass
    return out


class Violation(Exception):
    """The code under test disagreed with the reference model."""


class Check(object):
    def __init__(self, pid, tier, seed, level='model_checking', only=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.level = level
        self.only = only
        self.t0 = time.time()
        self.states = set()
        self.nstates_extra = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.sections = collections.OrderedDict()
        self.assumptions = []
        self.bounds = []
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.known = load_known(pid)
        self.section_name = None
        self.max_violations = int(os.environ.get("VERIF_MAXVIOL", "25"))
        self.truncated = False
        self.extra = {}
        self.child_out = None

    # -- parallel shards --------------------------------------------------
    def shards(self, items, fn, nproc=int(os.environ.get("VERIF_NPROC", "8"))):
        """
        Run fn(subcheck, item) for every item, in forked workers (whole
        processes: nothing is shared), and merge what they covered in item
        order, so the result does not depend on scheduling.
        """
        items = list(items)
        if self.only is not None or len(items) == 1 or nproc == 1:
            for it in items:
                fn(self, it)
            return
        results = []
        for i, (r, died, at) in enumerate(fork_map(lambda i: _run_shard(self, items, fn, i), len(items), nproc)):
            if died is not None:
                self.traces += 1
                self.report(at or 'harness %s' % (items[i],), died, '')
            else:
                results.append(r)
        for r in results:
            self.states |= r['states']
            self.transitions += r['transitions']
            self.traces += r['traces']
            self.outcomes |= r['outcomes']
            self.samples += r['samples']
            self.truncated = self.truncated or r['truncated']
            for k, v in r['known_hit'].items():
                self.known_hit.setdefault(k, v)
            for k, v in r['extra'].items():
                old = self.extra.get(k, 0)
                if isinstance(v, (int, float)):
                    v = max(old, v) if k.startswith('max') else old + v
                self.extra[k] = v
            for a in r['assumptions']:
                if a not in self.assumptions:
                    self.assumptions.append(a)
            for n, sec in r['sections'].items():
                if n in self.sections:
                    for f in ('cases', 'transitions', 'states'):
                        self.sections[n][f] += sec[f]
                    self.sections[n]['bound'] = sec['bound'] or self.sections[n]['bound']
                else:
                    self.sections[n] = sec
            if len(self.violations) < self.max_violations:
                sys.stdout.write(r['out'])
            self.violations += r['violations']

    # -- bookkeeping ------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def section(self, name, bound=None):
        self.section_name = name
        self.sections.setdefault(
            name, dict(cases=0, transitions=0, states=0, bound=bound or ''))
        return self.sections[name]

    def state(self, key):
        """Record a distinct state (any hashable)."""
        h = hash_key((self.section_name, key))
        if h in self.states:
            return False
        self.states.add(h)
        if self.section_name:
            self.sections[self.section_name]['states'] += 1
        return True

    def step(self, n=1):
        self.transitions += n
        if self.section_name:
            self.sections[self.section_name]['transitions'] += n

    def outcome(self, o):
        self.outcomes.add(hash_key(o))

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    # -- cases ------------------------------------------------------------
    def case(self, key, fn, *args, **kw):
        """
        Run one execution.  key: JSON-able description which identifies it
        (and is enough to replay it).  fn raises Violation (or anything else:
        an exception escaping from the code under test is a violation too).
        """
        skey = self.keystr(key)
        if self.only is not None and self.only not in skey:
            return None
        if len(self.violations) >= self.max_violations:
            self.truncated = True
            return None
        self.traces += 1
        sec = self.sections.setdefault(
            self.section_name or 'main',
            dict(cases=0, transitions=0, states=0, bound=''))
        sec['cases'] += 1
        self.state(skey)
        if sec['cases'] == 1 or (sec['cases'] in (7, 50) and len(self.samples) < 40):
            self.samples.append(skey[:400])
        NOW.begin(skey)
        try:
            with quiet():
                r = fn(*args, **kw)
            return r if r is not None else True
        except Violation as e:
            self.report(skey, str(e), '')
        except AssertionError as e:
            self.report(skey, 'assertion: %s' % (e,), traceback.format_exc())
        except Exception as e:
            self.report(skey, 'unexpected %s: %s' % (type(e).__name__, e),
                        traceback.format_exc())
        finally:
            NOW.end()
        return None

    def keystr(self, key):
        if not isinstance(key, str):
            key = json.dumps(key, sort_keys=True, default=_default)
        return '%s|%s' % (self.section_name or 'main', key)

    def report(self, skey, what, tb):
        for k in self.known:
            if re.search(k['match'], skey) and re.search(k.get('what_match', ''), what):
                self.known_hit.setdefault(k['id'], k['what'])
                return
        self.violations.append((skey, what))
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(skey.encode()).hexdigest()[:10]
        fn = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(fn, 'w') as f:
            json.dump(dict(property=self.pid, tier=self.tier, case=skey, what=what,
                           traceback=tb, replay_cmd='cd /verif && ./check %s %s --case %s' % (
                               self.pid, self.tier, json.dumps(skey))), f, indent=1)
        txt = 'VIOLATION property=%s replay=%s\n' % (self.pid, fn)
        txt += '  case: %s\n' % skey[:600]
        txt += '  what: %s\n' % what[:1200]
        if tb:
            txt += '  ' + '\n  '.join(tb.strip().split('\n')[-6:]) + '\n'
        if self.child_out is not None:
            self.child_out.append(txt)
        else:
            sys.stdout.write(txt)
            sys.stdout.flush()

    # -- finish -----------------------------------------------------------
    def finish(self):
        cov = dict(states=len(self.states) + self.nstates_extra,
                   transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples[:40],
                   distinct_outcomes=len(self.outcomes),
                   sections=self.sections,
                   exhaustive=(not self.truncated and self.only is None))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_default)
        for k, what in self.known_hit.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        print('%s %s: cases=%d states=%d transitions=%d outcomes=%d violations=%d (%.1fs)' % (
            self.pid, self.tier, self.traces, cov['states'], self.transitions,
            len(self.outcomes), len(self.violations), time.time() - self.t0))
        for n, s in self.sections.items():
            print('   %-28s cases=%-7d states=%-7d transitions=%-8d %s' % (
                n, s['cases'], s['states'], s['transitions'], s['bound']))
        return 1 if self.violations else 0


def _run_shard(parent, items, fn, i):
    ck = Check(parent.pid, parent.tier, parent.seed, parent.level)
    ck.child_out = []
    if parent.section_name:
        ck.section(parent.section_name, parent.sections[parent.section_name]['bound'])
    try:
        fn(ck, items[i])
    except Exception as e:
        ck.report('harness %s' % (items[i],), 'driver could not run the code under test: %s: %s' % (
            type(e).__name__, e), traceback.format_exc())
    return dict(states=ck.states, transitions=ck.transitions, traces=ck.traces, outcomes=ck.outcomes,
                samples=ck.samples[:6], truncated=ck.truncated, known_hit=dict(ck.known_hit), extra=ck.extra,
                assumptions=ck.assumptions, sections=ck.sections, out=''.join(ck.child_out),
                violations=ck.violations)


def _default(o):
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def load_known(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        K = json.load(f)
    return [k for k in K.get('findings', []) if k['property'] == pid]


def hash_key(k):
    return hashlib.blake2b(repr(k).encode(), digest_size=9).digest()


@contextlib.contextmanager
def quiet():
    """Silence chatter of the code under test (python level)."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


# -- comparison helpers ---------------------------------------------------

def fail(fmt, *a):
    raise Violation(fmt % a if a else fmt)


def expect(cond, fmt, *a):
    if not cond:
        raise Violation(fmt % a if a else fmt)


def close(a, b, rtol=1e-6, atol=1e-9, what='value'):
    """Array/scalar equality up to tolerance; NaNs and shapes must match."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.ndim else ()
        with np.errstate(all='ignore'):
            d = np.abs(a - b)
        raise Violation('%s: %d/%d elements differ; first at %s: got %r, expected %r (max |diff| %.3g)' % (
            what, int(np.sum(~ok)), ok.size, i, float(a[i]), float(b[i]), float(np.nanmax(d))))


def close_img(a, b, tol, what='image'):
    """max |a-b| <= tol (absolute)."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        i = np.unravel_index(int(np.argmin(np.isfinite(d))), d.shape)
        raise Violation('%s: non-finite at %s: got %r expected %r' % (what, i, a[i], b[i]))
    m = d.max()
    if m > tol:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        raise Violation('%s: max |diff| %.4g > %.4g at %s: got %r, expected %r' % (
            what, m, tol, i, float(a[i]), float(b[i])))


def same(a, b, what='value'):
    if not (a == b):
        raise Violation('%s: got %r, expected %r' % (what, a, b))


def raises(fn, exc=Exception):
    try:
        fn()
    except exc:
        return True
    return False


def lcg(n, seed=12345):
    """Deterministic pattern in [0,1) (not a random choice: a fixed texture)."""
    out = np.empty(n)
    x = seed
    for i in range(n):
        x = (1103515245 * x + 12345) % (1 << 31)
        out[i] = x / float(1 << 31)
    return out


def texture(shape, seed=1, lo=-1., hi=1.):
    n = int(np.prod(shape))
    return (lo + (hi - lo) * lcg(n, seed)).reshape(shape)
