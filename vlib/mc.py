"""Bounded model-checking harness.

A check module (checks/pXX.py) defines

    LEVEL       evidence level ("model_checking", "fault_enumeration", "exploration")
    RULE        how cases are enumerated / what makes one non-trivial
    ASSUMPTIONS list of strings
    cases(tier) -> iterable of JSON-able case descriptions, in a fixed order,
                   covering the bounded space *completely* (never sampled)
    run(case, ctx) -> explores that case.  It reports through ctx:
                   ctx.state(key)      a distinct state / outcome was observed
                   ctx.step(n=1)       n transitions / evaluations were executed
                   ctx.trace(n=1)      n model traces compared with the implementation
                   ctx.bad(key, msg)   the property is violated

Cases are distributed over a process pool; each case is independent (its own
fixtures), so the outcome does not depend on the partition.
"""
import argparse
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '200'))


class CaseTimeout(BaseException):
    pass


def digest(obj):
    """Canonical short digest of nested python/numpy data."""
    import numpy as np
    h = hashlib.sha1()

    def feed(o):
        if o is None or isinstance(o, (bool, int, str)):
            h.update(repr(o).encode())
        elif isinstance(o, float):
            h.update(('%.6e' % (o + 0.0)).encode())
        elif isinstance(o, (np.floating, np.integer, np.bool_)):
            feed(o.item())
        elif isinstance(o, complex):
            feed(o.real), feed(o.imag)
        elif isinstance(o, np.ndarray):
            h.update(str(o.shape).encode())
            if o.dtype.kind in 'fc':
                h.update(np.ascontiguousarray(np.round(o, 6) + 0.0).tobytes())
            else:
                h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                feed(str(k)), feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[')
            for x in o:
                feed(x)
            h.update(b']')
        elif isinstance(o, (set, frozenset)):
            feed(sorted(o, key=str))
        else:
            h.update(repr(o).encode())
    feed(obj)
    return h.hexdigest()[:16]


class Ctx(object):
    def __init__(self, case):
        self.case = case
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []   # (key, message)
        self.notes = []

    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def bad(self, key, msg, detail=None):
        if len(self.violations) < 40:
            self.violations.append((str(key), str(msg)[:2000], detail))

    def check(self, ok, key, msg=''):
        if not ok:
            self.bad(key, msg() if callable(msg) else msg)
        return ok

    # numeric comparison helpers -------------------------------------------
    def close(self, a, b, key, msg='', rtol=1e-7, atol=1e-9):
        import numpy as np
        try:
            a = np.asarray(a, dtype=complex if (np.iscomplexobj(a) or np.iscomplexobj(b)) else float)
            b = np.asarray(b, dtype=a.dtype)
        except Exception as e:
            self.bad(key, '%s: not comparable (%s)' % (msg, e))
            return False
        if a.shape != b.shape:
            self.bad(key, '%s: shape %s != expected %s' % (msg, a.shape, b.shape))
            return False
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            d = np.max(np.abs(a - b)) if a.size else 0
            self.bad(key, '%s: got %s expected %s (max diff %.3g)' % (
                msg, np.array2string(a, threshold=12, precision=6),
                np.array2string(b, threshold=12, precision=6), d))
            return False
        return True

    def raises(self, exc, fn, key, msg=''):
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.bad(key, '%s: expected %s, got %s: %s' % (
                msg, getattr(exc, '__name__', exc), type(e).__name__, e))
            return False
        self.bad(key, '%s: expected %s, got a value %r' % (
            msg, getattr(exc, '__name__', exc), r))
        return False


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]


def _run_case(mod, case):
    ctx = Ctx(case)

    def onalarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    outer = signal.alarm(CASE_TIMEOUT)
    import numpy as np
    np.random.seed(12345)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run(case, ctx)
    except CaseTimeout:
        ctx.bad('timeout', 'case did not terminate within %ds' % CASE_TIMEOUT)
    except Exception as e:
        ctx.bad('exception', 'unexpected %s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc(limit=-8)))
    finally:
        signal.alarm(outer)
    return ctx


def _worker(args):
    modname, chunk = args
    mod = importlib.import_module(modname)
    out = []
    for idx, case in chunk:
        c = _run_case(mod, case)
        out.append((idx, list(c.states), c.transitions, c.traces, c.violations, c.notes))
    return out


def load_known(prop):
    """known findings: 'known: property=<id> key=<exact key> :: <what fails>'."""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' :: ', 1)
                out[key[len('key='):]] = what
    return out


def main(argv=None):
    def onalarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(os.environ.get('VERIF_TOTAL_TIMEOUT', '850' if 'thorough' not in sys.argv else '100000')))
    try:
        return _main(argv)
    except SystemExit:
        raise
    except BaseException:
        prop = next((x for x in sys.argv[1:] if x[:1] == 'P'), 'P00')
        rp = os.path.join(HERE, 'evidence', 'replay', '%s-harness.json' % prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        tb = traceback.format_exc()
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, error=tb), f, indent=1)
        print(tb)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1


def _main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    modname = prop.lower()
    evpath = os.path.join(HERE, 'evidence', '%s.json' % prop)
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    repdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)

    def write_evidence(level, cov, nviol, assumptions):
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  wall_s=round(time.time() - t0, 3), violations=nviol,
                  assumptions=assumptions)
        tmp = evpath + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.replace(tmp, evpath)

    try:
        mod = importlib.import_module(modname)
    except Exception:
        # the code under test cannot even be imported by the check
        rp = os.path.join(repdir, '%s-import.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, error=traceback.format_exc()), f, indent=1)
        print(traceback.format_exc())
        write_evidence('other', dict(explanation='import failure'), 1, [])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1

    known = load_known(prop)
    if a.replay:
        rec = json.load(open(a.replay))
        ctx = _run_case(mod, rec['case'])
        for k, m, _ in ctx.violations:
            print('REPLAY %s: %s' % (k, m))
        new = [v for v in ctx.violations if v[0] not in known]
        if new:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1 if new else 0

    cases = list(mod.cases(tier))
    if a.list:
        for c in cases:
            print(json.dumps(c))
        return 0
    states, transitions, traces = set(), 0, 0
    viols, notes = [], []
    n = len(cases)
    idx_cases = list(enumerate(cases))
    jobs = max(1, min(a.jobs, n, os.cpu_count() or 1))
    if hasattr(mod, 'setup'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.setup(tier)
    if jobs > 1:
        import multiprocessing as mp
        chunk = max(1, min(getattr(mod, 'CHUNK', 8), n // (jobs * 4) or 1))
        chunks = [(modname, idx_cases[i:i + chunk]) for i in range(0, n, chunk)]
        with mp.get_context('fork').Pool(jobs) as pool:
            for out in pool.imap(_worker, chunks):
                for idx, st, tr, tv, vs, ns in out:
                    states.update(st)
                    transitions += tr
                    traces += tv
                    viols += [(idx, k, m, d) for k, m, d in vs]
                    notes += ns
    else:
        for out in [_worker((modname, idx_cases))]:
            for idx, st, tr, tv, vs, ns in out:
                states.update(st)
                transitions += tr
                traces += tv
                viols += [(idx, k, m, d) for k, m, d in vs]
                notes += ns

    level = mod.LEVEL
    ns = getattr(mod, 'SAMPLES', 4)
    samples = [cases[i] for i in sorted(set(
        int(j * (n - 1) / max(1, ns - 1)) for j in range(ns)))] if n else []
    cov = dict(samples=samples, exhaustive=True, rule=mod.RULE, cases=n,
               distinct_outcomes=len(states))
    if level == 'model_checking':
        cov.update(states=len(states), transitions=transitions,
                   traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=transitions, distinct_nontrivial=len(states))
    if hasattr(mod, 'BOUNDS'):
        cov['bounds'] = mod.BOUNDS(tier) if callable(mod.BOUNDS) else mod.BOUNDS
    if transitions == 0 or len(states) < 2:
        viols.append((0, 'vacuous', 'exploration was vacuous: %d transitions, %d states' % (
            transitions, len(states)), None))
    new = [v for v in viols if v[1] not in known]
    old = {}
    for v in viols:
        if v[1] in known:
            old.setdefault(v[1], v)
    write_evidence(level, cov, len(new), list(getattr(mod, 'ASSUMPTIONS', [])))
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s :: %s' % (prop, k, known[k]))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs' % (
        prop, tier, n, len(states), transitions, traces, len(new), len(old), time.time() - t0))
    if new:
        idx, k, m, d = new[0]
        rp = os.path.join(repdir, '%s-%s.json' % (prop, case_id(cases[idx]) if n else 'none'))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, case=cases[idx] if n else None, key=k, message=m,
                           detail=d, n_violations=len(new),
                           how='bash check.sh %s --replay %s' % (prop, rp)),
                      f, indent=1, default=str)
        seen = set()
        for idx, k, m, d in new:
            if k in seen or len(seen) > 6:
                continue
            seen.add(k)
            print('  case %s\n    [%s] %s' % (json.dumps(cases[idx])[:300], k, m[:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
