"""P10 - pretrained models survive interrupted or corrupted downloads.

Explicit-state exploration of the real `menpofit.io.load_fitter`.  A state is
the content of the local model files; an event is one request in one
environment (network up / down / short / failing at a given chunk, process
killed at a given step, disk full at a given write, interrupt while loading,
...).  Every event is executed on the real code from every state; afterwards
the recovery obligation (at most one more failing request with a healthy
network) is checked.  A second driver runs two requests concurrently under a
cooperative scheduler and explores the interleavings of their steps.
"""
import functools
import io as _io
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import threading

LEVEL = 'model_checking'
RULE = ('state = contents of every local model file (absent, complete, every prefix length class, junk); '
        'transition = one real load_fitter call under one environment answer sequence (<=1 deviation); '
        'plus all interleavings of the steps of two concurrent requests up to the preemption bound. '
        'Every state x event pair of the closed state set is executed.')
ASSUMPTIONS = ['the server sends the genuine bytes, a prefix of them, an error page, or an error',
               'a killed process leaves any prefix of what it wrote in the file it was writing',
               'urlopen is replaced by a stand-in; files live in a scratch directory']
CHUNK = 2
TECHNIQUE = 'explicit-state exploration of the real loader with crash, fault and interleaving enumeration'
NAMES = ('balanced_frontal_face_aam', 'other_model')


class Boom(BaseException):
    """stands for an interrupt (not an Exception)"""


class Wrapped(object):
    """a tiny fitter; payload makes the packaged file long"""
    def __init__(self, tag, payload):
        self.tag, self.payload = tag, payload


_COUNT = [0]


def make(tag, payload, n):
    assert len(payload) == n
    if _LOADHOOK[0]:
        _LOADHOOK[0]()
    return Wrapped(tag, payload)


def raising():
    raise TypeError('recipe does not fit this version')


_LOADHOOK = [None]


def payload(kind):
    n = {'small': 40, 'big': 1300000}[kind]
    return bytes(bytearray((i * 7 + 3) % 251 + 1 for i in range(997))) * (n // 997 + 1)


def genuine(name, kind):
    p = payload(kind)
    return pickle.dumps(functools.partial(make, name, p, len(p)), protocol=4)


JUNK = {'html': b'<html><body>404 not found</body></html>',
        'dict': pickle.dumps({'a': 1}, protocol=2),
        'raising': pickle.dumps(raising, protocol=2),
        'gz': b'\x1f\x8b\x08\x00garbage'}


class Response(object):
    def __init__(self, env, data, point):
        self.data, self.pos, self.env, self.point = data, 0, env, point
        self.n = 0
        self.headers = {'content-length': str(len(data))}
        kind = env[0]
        if kind == 'short':
            self.data = data[:env[1]]
        elif kind == 'page':
            self.data = JUNK[env[1]]
            self.headers = {'content-length': str(len(self.data))}
        elif kind == 'nolength':
            self.headers = {'content-length': None}

    def info(self):
        return self.headers

    def getheader(self, k, default=None):
        return self.headers.get(k.lower(), default)

    def read(self, n=-1):
        self.point('read')
        self.n += 1
        k = self.env[0]
        if k == 'readerr' and self.n == self.env[1]:
            raise IOError('connection reset')
        if k == 'interrupt' and self.n == self.env[1]:
            raise Boom()
        if k == 'kill' and self.n == self.env[1]:
            os._exit(77)
        if n is None or n < 0:
            n = len(self.data)
        if k == 'trickle':
            n = min(n, self.env[1])
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        while True:
            b = self.read(8192)
            if not b:
                return
            yield b


class World(object):
    """scratch data directory + stand-in network around the real code"""
    def __init__(self, kind):
        import menpofit.io as mio
        self.mio = mio
        self.kind = kind
        self.dir = tempfile.mkdtemp(prefix='verif-p10-')
        self.genuine = {n: genuine(n, kind) for n in NAMES}
        self.env = ('ok',)
        self.opened = 0
        self.point = lambda what: None
        self.saved = {}

    def __enter__(self):
        import pathlib
        import urllib.request
        mio = self.mio

        def src():
            return pathlib.Path(self.dir)

        def urlopen(url, *a, **k):
            url = getattr(url, 'full_url', url)
            self.point('urlopen')
            self.opened += 1
            e = self.env
            if e[0] == 'offline':
                raise IOError('no route to host')
            if e[0] == 'killopen':
                os._exit(77)
            hit = [n for n in NAMES if mio.filename_for_fitter(n) == url.rsplit('/', 1)[-1]]
            if not hit:
                raise IOError('404 %s' % url)
            return Response(e, self.genuine[hit[0]], self.point)

        real_import = mio.import_pickle

        def import_pickle(path, *a, **k):
            self.point('import')
            if self.env[0] == 'loadinterrupt':
                raise Boom()
            if self.env[0] == 'loaderr':
                raise MemoryError('cannot load')
            return real_import(path, *a, **k)

        def fopen(name, mode='r', *a, **k):
            f = open(name, mode, *a, **k)
            if 'w' in mode and self.env[0] == 'diskfull':
                return Full(f, self.env[1])
            return f
        def copyfile(a, b, **k):
            # not atomic: others see the target while it grows
            self.point('copy')
            with open(str(a), 'rb') as fa, open(str(b), 'wb') as fb:
                d = fa.read()
                fb.write(d[:len(d) // 2])
                fb.flush()
                self.point('copy')
                fb.write(d[len(d) // 2:])
            return b
        for mod, attr, val in ((shutil, 'copyfile', copyfile), (mio, 'menpofit_src_dir_path', src), (mio, 'urlopen', urlopen),
                               (urllib.request, 'urlopen', urlopen),
                               (mio, 'import_pickle', import_pickle), (mio, 'open', fopen)):
            self.saved[(mod, attr)] = getattr(mod, attr, None)
            setattr(mod, attr, val)
        self.stdout = sys.stdout
        sys.stdout = _io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.stdout
        for (mod, attr), v in self.saved.items():
            if v is None:
                delattr(mod, attr)
            else:
                setattr(mod, attr, v)
        assert self.dir.startswith(tempfile.gettempdir() + '/verif-p10-')
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        p = str(self.mio.path_of_fitter(name))
        assert os.path.realpath(p).startswith(os.path.realpath(self.dir)), p
        return p

    def clear(self):
        d = os.path.dirname(self.path(NAMES[0]))
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))

    def put(self, name, st):
        p = self.path(name)
        if os.path.exists(p):
            os.unlink(p)
        if st == 'absent':
            return
        g = self.genuine[name]
        if st == 'complete':
            b = g
        elif st[0] == 'prefix':
            b = g[:st[1]]
        else:
            b = JUNK[st[1]]
        with open(p, 'wb') as f:
            f.write(b)

    def get(self, name):
        p = self.path(name)
        if not os.path.exists(p):
            return 'absent'
        b = open(p, 'rb').read()
        g = self.genuine[name]
        if b == g:
            return 'complete'
        if g.startswith(b):
            return 'prefix:%d' % len(b)
        for k, v in JUNK.items():
            if b == v:
                return 'junk:' + k
        return 'other:%d' % len(b)

    def is_genuine(self, r, name):
        return (isinstance(r, Wrapped) and r.tag == name and r.payload == payload(self.kind))

    def request(self, name, env):
        """-> ('value', v) | ('raise', type name) | ('killed',)"""
        self.env = tuple(env)
        self.opened = 0
        if env[0] in ('kill', 'killopen', 'killload'):
            pid = os.fork()
            if pid == 0:
                try:
                    if env[0] == 'killload':
                        _LOADHOOK[0] = lambda: os._exit(77)
                    self.mio.load_fitter(name)
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            return ('killed',)
        hook = None
        if env[0] == 'recipeinterrupt':
            def hook():
                raise Boom()
        if env[0] == 'recipeerr':
            def hook():
                raise ValueError('recipe fails')
        _LOADHOOK[0] = hook
        try:
            return ('value', self.mio.load_fitter(name))
        except (Exception, Boom) as e:
            return ('raise', type(e).__name__)
        finally:
            _LOADHOOK[0] = None


class Full(object):
    def __init__(self, f, n):
        self.f, self.n, self.k = f, n, 0

    def write(self, b):
        self.k += 1
        if self.k == self.n:
            self.f.write(b[:len(b) // 2])
            raise OSError(28, 'No space left on device')
        return self.f.write(b)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()
        return False

    def __getattr__(self, k):
        return getattr(self.f, k)


def prefix_lengths(kind, tier):
    n = len(genuine(NAMES[0], kind))
    c = 512 * 1024
    if kind == 'small':
        return list(range(0, n)) if n < 3000 else list(range(0, n, 7))
    ls = {0, 1, 2, 3, 10, n - 1, n - 2, n // 2, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1}
    if tier == 'thorough':
        ls |= set(range(0, n, 65536))
    return sorted(x for x in ls if x < n)


def envs(kind, tier):
    n = len(genuine(NAMES[0], kind))
    out = [('ok',), ('offline',), ('nolength',), ('loadinterrupt',), ('loaderr',), ('recipeinterrupt',),
           ('recipeerr',), ('killopen',), ('killload',)]
    reads = 2 if kind == 'small' else 4
    for k in range(1, reads + 1):
        out += [('readerr', k), ('interrupt', k), ('kill', k)]
        if k < reads:
            out.append(('diskfull', k))
    out += [('page', j) for j in sorted(JUNK)]
    out += [('trickle', 17 if kind == 'small' else 100000)]
    for ln in ((0, 1, n // 2, n - 1) if kind == 'small' else (0, 512 * 1024, 2 * 512 * 1024, n - 1)):
        out.append(('short', ln))
    return out


def cases(tier):
    for kind in ('small', 'big'):
        init = ['absent', 'complete'] + [('junk', j) for j in sorted(JUNK)]
        pl = prefix_lengths(kind, tier)
        if kind == 'small':
            # full event alphabet from a few prefixes, recovery from all of them
            some = [0, 1, pl[len(pl) // 2], pl[-1]]
            for i in range(0, len(pl), 40):
                yield dict(mode='recover', kind=kind, lens=pl[i:i + 40])
        else:
            some = pl
        for a in init + [('prefix', p) for p in some]:
            for b in ('absent', 'complete', ('junk', 'html')):
                if kind == 'big' and b != 'absent' and tier == 'quick':
                    continue
                yield dict(mode='step', kind=kind, a=a, b=b)
    for start in ('absent', 'complete', ('prefix', 700000)):
        sched = list(schedules(start, 3 if tier == "quick" else 5))
        for i in range(0, len(sched), 60):
            yield dict(mode='conc', kind='big', start=start, scheds=sched[i:i + 60])


def schedules(start, bound):
    """preemption-bounded schedules: list of run lengths, alternating threads.

    thread steps: start, urlopen, reads, (copies,) import; 9 scheduling points at most.
    """
    K = 10
    for first in (0, 1):
        for nb in range(0, bound + 1):
            for lens in itertools.product(range(1, K), repeat=nb):
                if sum(lens[0::2]) >= K or sum(lens[1::2]) >= K:
                    continue
                yield [first] + list(lens)


def recover(w, ctx, name, tag):
    """at most one failing request with a healthy network, then genuine"""
    r = w.request(name, ('ok',))
    ctx.step()
    if r[0] == 'value':
        ctx.check(w.is_genuine(r[1], name), 'genuine', lambda: '%s: later request returned non-genuine data' % tag)
    else:
        r2 = w.request(name, ('ok',))
        ctx.step()
        ctx.check(r2[0] == 'value' and w.is_genuine(r2[1], name), 'stuck',
                  lambda: '%s: two healthy requests do not give the model: %s then %s, file %s' % (
                      tag, r, r2[:2], w.get(name)))


def run(case, ctx):
    kind = case['kind']
    with World(kind) as w:
        if case['mode'] == 'recover':
            for ln in case['lens']:
                w.clear()
                w.put(NAMES[0], ('prefix', ln))
                ctx.state('prefix', ln)
                for env in (('offline',), ('ok',)):
                    w.put(NAMES[0], ('prefix', ln))
                    r = w.request(NAMES[0], env)
                    ctx.step()
                    ctx.check(r[0] == 'raise' or w.is_genuine(r[1], NAMES[0]), 'genuine',
                              lambda: 'prefix of %d bytes loaded as a fitter' % ln)
                    ctx.check(w.get(NAMES[0]) in ('absent', 'complete'), 'kept-damaged',
                              lambda: 'damaged file (%d bytes) kept after a failed load' % ln)
                    recover(w, ctx, NAMES[0], 'prefix %d after %s' % (ln, env))
                    ctx.trace()
            return
        if case['mode'] == 'step':
            a, b = case['a'], case['b']
            a = tuple(a) if not isinstance(a, str) else a
            b = tuple(b) if not isinstance(b, str) else b
            for env in envs(kind, 'quick'):
                w.clear()
                w.put(NAMES[0], a)
                w.put(NAMES[1], b)
                before_b = w.get(NAMES[1])
                before = w.get(NAMES[0])
                r = w.request(NAMES[0], env)
                ctx.step()
                after = w.get(NAMES[0])
                tag = 'file %s, request under %s -> %s, file %s' % (before, env, r[0] if r[0] != 'raise' else r, after)
                ctx.state(kind, before, before_b, env, r[0], after)
                if r[0] == 'value':
                    ctx.check(w.is_genuine(r[1], NAMES[0]), 'genuine', lambda: 'returned non-genuine model: ' + tag)
                loadfault = env[0] in ('loadinterrupt', 'loaderr', 'recipeinterrupt', 'recipeerr', 'killload')
                if before == 'complete':
                    ctx.check(w.opened == 0, 'network', lambda: 'network used although a local copy exists: ' + tag)
                    if not loadfault:
                        ctx.check(env[0] in ('kill', 'killopen') or r[0] == 'value', 'local',
                                  lambda: 'complete local copy not used: ' + tag)
                        ctx.check(after == 'complete', 'lost', lambda: 'complete local copy lost: ' + tag)
                if before == 'absent' and env[0] in ('ok', 'trickle'):
                    ctx.check(r[0] == 'value', 'download', lambda: 'healthy download failed: ' + tag)
                    ctx.check(after == 'complete', 'stored', lambda: 'downloaded model not stored: ' + tag)
                if before == 'absent' and r[0] == 'raise' and env[0] in ('page', 'short'):
                    ctx.check(after in ('absent',), 'kept-damaged', lambda: 'damaged download kept: ' + tag)
                if before not in ('absent', 'complete') and r[0] == 'raise' and not env[0].endswith('interrupt'):
                    ctx.check(after in ('absent', 'complete'), 'kept-damaged',
                              lambda: 'file that cannot be loaded was kept: ' + tag)
                if env[0] in ('offline', 'short', 'page', 'readerr') and before == 'absent':
                    ctx.check(r[0] == 'raise', 'swallowed', lambda: 'failure not reported: ' + tag)
                ctx.check(w.get(NAMES[1]) == before_b, 'other-file', lambda: 'another model file was changed: ' + tag)
                # a second deviating request, then recovery
                for env2 in (None, ('offline',), ('kill', 2), ('readerr', 2)):
                    if env2 is not None:
                        w.clear()
                        w.put(NAMES[0], a)
                        w.put(NAMES[1], b)
                        w.request(NAMES[0], env)
                        r2 = w.request(NAMES[0], env2)
                        ctx.step(2)
                        if r2[0] == 'value':
                            ctx.check(w.is_genuine(r2[1], NAMES[0]), 'genuine',
                                      lambda: 'returned non-genuine model after %s then %s' % (tag, env2))
                        ctx.state(kind, before, env, env2, w.get(NAMES[0]))
                    recover(w, ctx, NAMES[0], tag + ' then %s' % (env2,))
                    ctx.trace()
                recover(w, ctx, NAMES[1], 'other model after ' + tag)
            # requests for different models give different models
            w.clear()
            for n in NAMES + NAMES:
                r = w.request(n, ('ok',))
                ctx.check(r[0] == 'value' and w.is_genuine(r[1], n), 'mixed', lambda: 'wrong model for %s' % n)
            return
        start = case['start']
        start = tuple(start) if not isinstance(start, str) else start
        for sch in case['scheds']:
            w.clear()
            w.put(NAMES[0], start)
            w.env = ('ok',)
            res, trace = concurrent(w, NAMES[0], sch)
            ctx.step(len(trace))
            ctx.trace()
            ctx.state(str(start), [x[0] for x in res], trace)
            for i, r in enumerate(res):
                ctx.check(r[0] == 'raise' or (r[0] == 'value' and w.is_genuine(r[1], NAMES[0])), 'concurrent',
                          lambda: 'request %d of two overlapping ones returned a damaged model; schedule %s, steps %s'
                          % (i, sch, trace))
                ctx.check(start != 'absent' or r[0] == 'value', 'concurrent-fails',
                          lambda: 'request %d of two overlapping healthy ones failed with %s; schedule %s, steps %s' % (i, r, sch, trace))
            w.point = lambda what: None
            recover(w, ctx, NAMES[0], 'after two overlapping requests, schedule %s' % (sch,))


def concurrent(w, name, sch):
    """run two requests; switch threads after the given numbers of steps"""
    cond = threading.Condition()
    turn = [sch[0]]
    left = list(sch[1:])
    quota = [left.pop(0) if left else None]
    done = [False, False]
    res = [None, None]
    trace = []
    ident = {}

    def switch(me):
        other = 1 - me
        if not done[other]:
            turn[0] = other
        quota[0] = left.pop(0) if left else None
        cond.notify_all()

    def point(what):
        me = ident.get(threading.get_ident())
        if me is None:
            return
        with cond:
            trace.append((me, what))
            if quota[0] is not None:
                quota[0] -= 1
                if quota[0] <= 0:
                    switch(me)
            while turn[0] != me:
                if not cond.wait(20):
                    raise RuntimeError('scheduler stuck')

    def body(me):
        ident[threading.get_ident()] = me
        try:
            with cond:
                while turn[0] != me:
                    cond.wait(20)
            point('start')
            res[me] = ('value', w.mio.load_fitter(name))
        except BaseException as e:
            res[me] = ('raise', type(e).__name__)
        with cond:
            done[me] = True
            if not done[1 - me]:
                turn[0] = 1 - me
            cond.notify_all()
    w.point = point
    ts = [threading.Thread(target=body, args=(i,)) for i in (0, 1)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    w.point = lambda what: None
    return res, trace
