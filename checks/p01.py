"""P01 - a fit depends only on its own inputs, never on what happened before.

The state machine: one fitter (and the model it was built from) and an alphabet
of operations (fits with different inputs and options, aborted fits, queries,
building another fitter, switching between fitters, pickling).  A de Bruijn
sequence executes every word of the bounded length as a part of one history,
and every word of length one on a new fitter; each fit in it is compared with
the fit of a newly trained, never used fitter.
"""
import itertools
import pickle
import warnings

import numpy as np

from vlib import fx, fam, fitters
from vlib.fitters import Run, same

LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all operation sequences up to a depth on real fitters (de Bruijn sequences over fits, aborted '
             'fits, queries, further fitters and pickling; every abort point of a fit) against fits of unused fitters')
RULE = ('fitters x all words of the bounded length over the operation alphabet; fitters x all pairs of consecutive contents of '
        'input objects that are reused for all fits; all abort points: the n-th image sampling '
        'of a fit raises, for every n; a state is a distinct fitter with a distinct last word')
ASSUMPTIONS = ['training is deterministic for a given seed (the reference fitter is trained anew)']
CHUNK = 1


def BOUNDS(tier):
    return dict(word_length=3 if tier == 'quick' else 4, abort_points='all')


def cases(tier):
    L = BOUNDS(tier)['word_length']
    for n in fitters.iterative(tier):
        yield dict(kind='seq', fam=n, L=L)
    for n in fitters.cascaded(tier):
        yield dict(kind='seq', fam=n, L=L if tier != 'quick' else 2)
    for n in fitters.iterative(tier) + fitters.cascaded(tier):
        yield dict(kind='inplace', fam=n, tier=tier)


def buffers(tier):
    """what the persistent input objects of one fitter hold: pixels x landmarks of the image x initial shape x ground truth x options"""
    return list(itertools.product((0, 1), repeat=3 if tier == 'quick' else 4))


def run_inplace(case, ctx):
    """one image, one initial shape and one ground truth object for all fits, their contents replaced in place
    between the fits (a video buffer): all pairs of consecutive contents"""
    name = case['fam']
    kind = fitters.model_kind(name)
    new = pickle.dumps(fitters.fitter(name, fitters.model(kind) if kind else None), protocol=2)
    costs = fitters.has_costs(name)

    def content(b):
        b = tuple(b) + (0,) * (4 - len(b))
        im = fx.make_image((3, 6)[b[0]])
        base = fx.make_image(3).landmarks['PTS'].points
        init = base + np.array([(1.0, -0.8), (-1.2, 0.5)][b[1]])
        gt = base + np.array([(0.2, 0.1), (-0.3, 0.4)][b[3]])
        kw = [dict(max_iters=[2, 2]), dict(max_iters=[1, 3], **(dict(return_costs=True) if costs else {}))][b[2]]
        return im, init, gt, kw

    def go(f, im, init, gt, kw, bb):
        try:
            if bb:
                return Run(f.fit_from_bb(im, init, gt_shape=gt, **kw)).numbers()
            return Run(f.fit_from_shape(im, init, gt_shape=gt, **kw)).numbers()
        except (np.linalg.LinAlgError, ValueError) as e:
            return dict(error=type(e).__name__)
    states = buffers(case['tier'])
    for bb in (0, 1):
        def start(init):
            return fx.pc(init).bounding_box() if bb else fx.pc(init)
        ref = {}
        for s in states:
            im, init, gt, kw = content(s)
            ref[s] = go(pickle.loads(new), im, start(init), fx.pc(gt), kw, bb)
            ctx.state(name, 'inplace', bb, s, str(ref[s].get('n', 'error')), np.round(ref[s].get('final', np.zeros(1)), 4))
        f = pickle.loads(new)
        im, init, gt, kw = content(states[0])
        B, S, G = im, start(init), fx.pc(gt)
        last = None
        for i in de_bruijn(len(states), 2):
            im, init, gt, kw = content(states[i])
            B.pixels[...] = im.pixels
            B.landmarks['PTS'].points[...] = im.landmarks['PTS'].points
            S.points[...] = start(init).points
            G.points[...] = gt
            got = go(f, B, S, G, kw, bb)
            ctx.step()
            ctx.trace()
            d = same(got, ref[states[i]], 1e-6)
            if not ctx.check(not d, 'inplace', '%s: contents %s after %s in the same objects differ from the fit of an unused fitter: %s' % (
                    name, states[i], last, d)):
                return
            last = states[i]


def de_bruijn(k, n):
    """a cyclic sequence over range(k) containing every word of length n"""
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


class Abort(Exception):
    pass


class Faults(object):
    """the n-th sampling of an image by menpo raises (n = 0: only count)"""
    NAMES = ('sample', 'extract_patches', 'warp_to_mask', 'warp_to_shape', 'rescale_to_pointcloud', 'rescale')

    def __init__(self, n):
        self.n, self.k = n, 0

    def __enter__(self):
        from menpo.image import Image, MaskedImage
        self.saved = []
        for c in (Image, MaskedImage):
            for a in self.NAMES:
                if a in c.__dict__:
                    f = c.__dict__[a]
                    self.saved.append((c, a, f))
                    setattr(c, a, self.wrap(f))
        return self

    def wrap(self, f):
        def g(*args, **kw):
            self.k += 1
            if self.k == self.n:
                raise Abort()
            return f(*args, **kw)
        return g

    def __exit__(self, *exc):
        for c, a, f in self.saved:
            setattr(c, a, f)
        return False


FITS = ['fitA', 'fitB', 'fitC']


class World(object):
    """a fitter, the model behind it, another fitter of the same model"""

    def __init__(self, name):
        self.name = name
        kind = fitters.model_kind(name)
        self.model = fitters.model(kind) if kind else None
        self.fit = fitters.fitter(name, self.model)
        self.other = None
        self.sd = name.startswith('sd')
        opts = fitters.options(name)
        c = fitters.has_costs(name)
        self.settings = dict(
            fitA=(7, (1.0, -0.8), dict(max_iters=[2, 3], return_costs=c)),
            fitB=(2, (-1.2, 0.5), dict(opts[-1], max_iters=[3, 1])),
            fitC=(5, (0.4, 1.4), dict(opts[len(opts) // 2], max_iters=[1, 2], return_costs=c)))

    def do_fit(self, op):
        k, d, kw = self.settings[op]
        im = fx.make_image(k)
        gt = im.landmarks['PTS']
        if op == 'fitC':
            return self.fit.fit_from_bb(im, fx.pc(gt.points + np.array(d)).bounding_box(), gt_shape=fx.pc(gt.points), **kw)
        return self.fit.fit_from_shape(im, fx.pc(gt.points + np.array(d)), **kw)

    def result(self, op):
        try:
            return Run(self.do_fit(op)).numbers()
        except (np.linalg.LinAlgError, ValueError) as e:
            return dict(error=type(e).__name__)

    def abort(self, n):
        with Faults(n) as f:
            try:
                self.do_fit('fitB')
            except Abort:
                return True
            except (np.linalg.LinAlgError, ValueError):
                return f.k >= n
        return False

    def query(self):
        """everything a user can ask for between two fits"""
        im = fx.make_image(4)
        shapes = [fx.pc(im.landmarks['PTS'].points + d) for d in (0.3, -1.1)]
        f, m = self.fit, self.model
        str(f)
        if hasattr(f, 'warped_images'):
            list(f.warped_images(im, shapes))
        if m is None:
            return
        str(m)
        for s in (0, 1):
            w = np.array([0.7, -1.2])
            if hasattr(m, 'shape_instance'):
                m.shape_instance(shape_weights=w, scale_index=s)
            for a, k in (('instance', dict(shape_weights=w)), ('random_instance', {})):
                if hasattr(m, a):
                    try:
                        getattr(m, a)(scale_index=s, **k)
                    except NotImplementedError:
                        pass            # linear models offer no instances
        r = self.do_fit('fitA')
        if hasattr(f, 'appearance_reconstructions') and getattr(r, 'appearance_parameters', None) is not None:
            f.appearance_reconstructions(r.appearance_parameters, r.n_iters_per_scale)
        r.costs, r.shapes, r.displacements(), str(r), r.to_result()

    def op(self, o):
        if o in FITS:
            return self.result(o)
        if o == 'abort':
            self.abort(4)
        elif o == 'query':
            try:
                self.query()
            except (np.linalg.LinAlgError, ValueError):
                pass
        elif o == 'another':
            self.other = self.fit
            self.fit = fitters.fitter(self.name, self.model)
        elif o == 'switch':
            if self.other is not None:
                self.fit, self.other = self.other, self.fit
        elif o == 'pickle':
            self.model, self.fit, self.other = pickle.loads(pickle.dumps((self.model, self.fit, self.other), protocol=2))
        return None


OPS = FITS + ['abort', 'query', 'another', 'switch', 'pickle']


def run(case, ctx):
    if case['kind'] == 'inplace':
        return run_inplace(case, ctx)
    name = case['fam']
    ref = {}
    for o in FITS:
        w = World(name)
        ref[o] = w.result(o)
        ctx.state(name, o, str(ref[o].get('n', 'error')), np.round(ref[o].get('final', np.zeros(1)), 4))

    def compare(got, o, history):
        d = same(got, ref[o], 1e-6)
        ctx.trace()
        return ctx.check(not d, 'history', '%s: %s after %s differs from the first fit of a new fitter: %s' % (name, o, history, d))
    # words of length one on new fitters, then all fits
    for o in OPS[3:] + FITS[:1]:
        w = World(name)
        w.op(o)
        ctx.step()
        for f in FITS:
            if not compare(w.op(f), f, ['(new)', o] + FITS[:FITS.index(f)]):
                return
    # every abort point
    w = World(name)
    n = 1
    while n < 80:
        ctx.step()
        if not w.abort(n):
            break
        for f in FITS[:2]:
            if not compare(w.op(f), f, ['abort at image access %d' % n]):
                return
        n += 1
    ctx.state(name, 'abort points', n)
    if n < 4:
        ctx.bad('vacuous', '%s: only %d abort points' % (name, n))
    # all words of length L
    w = World(name)
    ops = OPS if not w.sd else ['fitA', 'fitB', 'abort', 'query', 'another', 'switch', 'pickle']
    hist = []
    for i in de_bruijn(len(ops), case['L']):
        o = ops[i]
        if w.sd and o == 'another' and name.startswith('sdm') and hist.count('another') > 2:
            o = 'switch'           # (training from images again cannot reach the first fitter)
        hist.append(o)
        got = w.op(o)
        ctx.step()
        if got is not None and not compare(got, o, '... ' + ' '.join(hist[-8:-1])):
            return
    ctx.state(name, 'words', len(hist))
