"""P03 - multi-scale fitting keeps every point at the same place in the image.

The real multi-scale driver runs with scripted per-scale optimisers (every
combination of scales, per-scale features that resize/crop/shift, reference
size, movement, ground truth).  The image is a *coordinate image* (pixel (y, x)
contains y and x), so each scale's image itself tells where in the caller's
image a point lies; that provenance is the oracle.  The same oracle (carried by
a probe landmark group) is applied to every real fitter family.
"""
import itertools
import numpy as np
from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of multi-scale configurations of the real fitting driver with scripted optimisers, and of '
             'every fitter family, against a provenance model of image coordinates')
RULE = ('scale tuples x per-scale feature tuples (identity, rescale, anisotropic rescale, crop, pad, strided) x reference sizes '
        'x scripted movements x ground truth x way of starting; a state is a distinct sequence of provenance shapes')
ASSUMPTIONS = ['feature functions move landmarks together with pixels by an affine map, as the library requires']
CHUNK = 6
FEATS = ['id', 'half', 'aniso', 'crop', 'pad', 'stride', 'chan']


def BOUNDS(tier):
    return dict(scales=3, features=len(FEATS), reference_sizes=3)


def feat(name, tag):
    from menpo.image import Image
    from menpo.shape import PointCloud

    def moved(im, fpix, f):
        from menpo.image import MaskedImage
        o = Image(fpix(im.pixels).copy())
        if isinstance(im, MaskedImage):
            o = MaskedImage(o.pixels, mask=fpix(im.mask.pixels.astype(float))[0] > 0.5)
        for g in im.landmarks:
            o.landmarks[g] = im.landmarks[g]
            o.landmarks[g].points[...] = f(o.landmarks[g].points)
        return o

    def fn(im):
        if name == 'half':
            o = im.rescale(0.5)
        elif name == 'aniso':
            o = im.rescale((0.8, 1.3))
        elif name == 'crop':
            o = moved(im, lambda x: x[:, 3:-2, 2:-4], lambda p: p - [3, 2])
        elif name == 'pad':
            o = moved(im, lambda x: np.pad(x, ((0, 0), (6, 5), (3, 8)), mode='edge'), lambda p: p + [6, 3])
        elif name == 'stride':
            o = moved(im, lambda x: x[:, 2::2, 3::2], lambda p: (p - [2, 3]) / 2.)
        elif name == 'chan':
            o = moved(im, lambda x: np.concatenate([x, x[:1] ** 2]), lambda p: p)
        else:
            o = im.copy()
        if tag is not None:
            o.pixels[2] = o.pixels[2] + tag
        return o
    fn.__name__ = 'feat_' + name
    return fn


def coord_image(shape, lm=None):
    from menpo.image import Image
    y, x = np.meshgrid(np.arange(shape[0], dtype=float), np.arange(shape[1], dtype=float), indexing='ij')
    im = Image(np.asarray([y, x, np.zeros_like(y)]))
    if lm is not None:
        im.landmarks['own'] = fx.pc(lm)
    return im


def prov_pixels(im):
    """affine map image coordinates -> caller's coordinates, read from the pixels"""
    h, w = im.pixels.shape[1:]
    m = min(h, w) // 3
    yy, xx = np.meshgrid(np.arange(m, h - m), np.arange(m, w - m), indexing='ij')
    A = np.column_stack([yy.ravel(), xx.ravel(), np.ones(yy.size)])
    B = im.pixels[:2, m:h - m, m:w - m].reshape(2, -1).T
    M, _, rank, _ = np.linalg.lstsq(A, B, rcond=None)
    return M, (np.abs(A.dot(M) - B).max() if rank == 3 else np.inf)


def prov_probe(im, probe):
    A = np.column_stack([im.landmarks['probe'].points, np.ones(len(probe))])
    M, _, rank, _ = np.linalg.lstsq(A, probe, rcond=None)
    return M, np.abs(A.dot(M) - probe).max()


def ap(M, p):
    return np.column_stack([p, np.ones(len(p))]).dot(M)


MOVES = [lambda p, k: p * 1.0, lambda p, k: p + [0.8, -0.5], lambda p, k: (p - p.mean(0)) * 1.05 + p.mean(0) - [0.2, 0.3 * k]]


class Scripted(object):
    """an optimiser that makes prescribed moves and records what it was given"""
    def __init__(self, n, moves):
        self.n, self.moves = n, moves
        self.calls = []

    def run(self, image, initial_shape, gt_shape=None, max_iters=20, return_costs=False, **kwargs):
        from menpofit.result import NonParametricIterativeResult
        s, out = initial_shape, []
        for k in range(self.n):
            s = s.from_vector(MOVES[self.moves[k]](s.points, k + 1).ravel())
            out.append(s)
        self.calls.append(dict(image=image, init=initial_shape.points.copy(), gt=None if gt_shape is None else gt_shape.points.copy(),
                               shapes=[o.points.copy() for o in out], max_iters=max_iters, return_costs=return_costs, kw=kwargs))
        return NonParametricIterativeResult(out, initial_shape=initial_shape, image=image, gt_shape=gt_shape)


def cases(tier):
    sc1 = [[1.0], [0.5], [2.0], [0.96]]
    sc2 = [[0.5, 1.0], [1.0, 0.5], [1.0, 1.0], [0.7, 1.3], [0.6, 0.6], [0.96, 1.0]]
    sc3 = [[0.5, 0.75, 1.0], [0.8, 0.8, 1.2], [1.0, 0.6, 1.0]]
    fe = FEATS if tier == 'thorough' else FEATS
    for s in sc1:
        for f in fe:
            yield dict(kind='drv', scales=s, feats=[f], refs=[20., 45., 80.])
    for s in sc2:
        for f in itertools.product(fe, repeat=2):
            yield dict(kind='drv', scales=s, feats=list(f), refs=[45.] if tier == 'quick' else [30., 45., 80.])
            if f[0] == f[1]:
                yield dict(kind='drv', scales=s, feats=list(f), refs=[45.], same=True)
    f3 = ['id', 'half', 'crop', 'stride'] if tier == 'quick' else FEATS
    for s in sc3:
        for f in itertools.product(f3, repeat=3):
            yield dict(kind='drv', scales=s, feats=list(f), refs=[50.])
            if f[0] == f[1] or f[1] == f[2] or f[0] == f[2]:
                yield dict(kind='drv', scales=s, feats=list(f), refs=[50.], same=True)
    for n in ('lk', 'aam', 'paam', 'atm', 'clm', 'uni', 'aps', 'sdm', 'psdm', 'sdaam'):
        for f in (['id', 'id'], ['id', 'stride'], ['stride', 'id'], ['id', 'crop'], ['crop', 'half']):
            yield dict(kind='real', fam=n, feats=f)
    yield dict(kind='bb')


def check_chain(ctx, calls, provs, result, init, gt, msg, orig_image):
    """calls[i]: dict(init, gt, shapes) in coordinates of scale i"""
    prev = None
    exp = [init]
    for i, (c, M) in enumerate(zip(calls, provs)):
        start = ap(M, c['init'])
        want = init if i == 0 else prev
        ctx.close(start, want, 'start', '%s: scale %d starts elsewhere than %s' % (
            msg, i, 'requested' if i == 0 else 'the previous scale ended'), rtol=1e-5, atol=1e-4)
        if gt is None:
            ctx.check(c['gt'] is None, 'gt', msg)
        elif c['gt'] is None:
            ctx.bad('gt', '%s: scale %d got no ground truth' % (msg, i))
        else:
            ctx.close(ap(M, c['gt']), gt, 'gt', '%s: ground truth of scale %d' % (msg, i), rtol=1e-5, atol=1e-4)
        exp += [ap(M, s) for s in c['shapes']]
        prev = ap(M, c['shapes'][-1]) if c['shapes'] else start
    got = [s.points for s in result.shapes]
    ctx.trace()
    if ctx.check(len(got) == len(exp), 'result', '%s: %d shapes instead of %d' % (msg, len(got), len(exp))):
        for k, (a, b) in enumerate(zip(got, exp)):
            ctx.close(a, b, 'result', '%s: shape %d of the result' % (msg, k), rtol=1e-5, atol=1e-4)
    ctx.close(result.final_shape.points, prev, 'result', '%s: final shape' % msg, rtol=1e-5, atol=1e-4)
    ctx.close(result.initial_shape.points, init, 'result', '%s: initial shape' % msg, rtol=1e-5, atol=1e-4)
    if gt is not None:
        ctx.close(result.gt_shape.points, gt, 'result', '%s: ground truth' % msg, rtol=1e-9, atol=1e-9)
    ctx.check(result.image is not None and np.array_equal(result.image.pixels, orig_image.pixels), 'image', msg)
    ctx.state([np.round(s, 3) for s in got])


def similarity(a, b):
    """least-squares similarity without reflection from a to b"""
    ca, cb = a.mean(0), b.mean(0)
    x, y = a - ca, b - cb
    U, s, Vt = np.linalg.svd(x.T.dot(y))
    D = np.diag([1., np.sign(np.linalg.det(U.dot(Vt)))])
    R = U.dot(D).dot(Vt)
    k = np.sqrt((y ** 2).sum() / (x ** 2).sum())
    return lambda p: k * (p - ca).dot(R) + cb


def box(p, order=None):
    lo, hi = p.min(0), p.max(0)
    return np.array([[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]])


def k_drv(case, ctx):
    from menpofit.fitter import MultiScaleNonParametricFitter, MultiScaleParametricFitter
    b = fx.base_points(6, c=(60., 70.), s=24.)
    init0, gt0 = fx.deform(b, 1), fx.deform(b, 2)
    n = len(case['scales'])
    for ref in case['refs']:
        rp = fx.base_points(6)
        r = rp.max(0) - rp.min(0)
        rp = rp * ref / np.sqrt((r ** 2).sum())
        tags = {}
        fns = []
        for i, f in enumerate(case['feats']):
            if case.get('same') and f in tags:
                fns.append(tags[f])
            else:
                fn = feat(f, 10. * (i + 1)) if not case.get('same') else feat(f, 10. * (len(tags) + 1))
                tags[f] = fn
                fn.tag = 10. * (i + 1) if not case.get('same') else 10. * len(tags)
                fns.append(fn)
        for mv in ([1, 2], [2, 1]) if n > 1 else ([0, 1], [2, 2]):
            for gt in (None, gt0):
                for its in ([2] * n, [1] * n, [0] + [2] * (n - 1) if n > 1 else [1]):
                    algs = [Scripted(its[i], mv) for i in range(n)]
                    fit = MultiScaleNonParametricFitter(case['scales'], fx.pc(rp), fns, algs)
                    im = coord_image((130, 150), lm=gt0)
                    keep = im.pixels.copy()
                    init = fx.pc(init0)
                    res = fit.fit_from_shape(im, init, gt_shape=None if gt is None else fx.pc(gt), max_iters=7,
                                             return_costs=True, extra=3)
                    ctx.step()
                    msg = 'scales %s features %s reference %g' % (case['scales'], case['feats'], ref)
                    ctx.check(list(im.landmarks) == ['own'] and np.array_equal(im.pixels, keep), 'leftover', str(list(im.landmarks)))
                    calls, provs = [], []
                    for i, a in enumerate(algs):
                        if not ctx.check(len(a.calls) == 1, 'calls', '%s: scale %d ran %d times' % (msg, i, len(a.calls))):
                            return
                        c = a.calls[0]
                        M, resid = prov_pixels(c['image'])
                        ctx.check(resid < 1e-6, 'image-map', '%s: image of scale %d is not an affine resampling (%g)' % (msg, i, resid))
                        t = np.array_split(np.array_split(c['image'].pixels[2], 3)[1], 3, axis=1)[1]
                        ctx.check(np.abs(t - fns[i].tag).max() < 1e-6, 'feature', '%s: scale %d shows features %s instead of %g' % (
                            msg, i, np.unique(np.round(t, 2))[:4], fns[i].tag))
                        ctx.check(c['return_costs'] is True and c['kw'] == dict(extra=3), 'options', str((c['return_costs'], c['kw'])))
                        # the size of this scale: reference diagonal x scale (x feature rescaling)
                        fscale = dict(half=(.5, .5), aniso=(.8, 1.3), stride=(.5, .5)).get(case['feats'][i], (1, 1))
                        k = np.linalg.norm(rp - rp.mean(0)) / np.linalg.norm(init0 - init0.mean(0)) * case['scales'][i]
                        for ax in (0, 1):
                            got = 1 / np.linalg.norm(M[ax, :])
                            # two roundings to whole pixels
                            ctx.check(abs(got / (k * fscale[ax]) - 1) < 2.5 / min(c['image'].shape), 'scale-size', '%s: scale %d axis %d enlarged by %g instead of %g'
                                      % (msg, i, ax, got, k * fscale[ax]))
                        calls.append(c)
                        provs.append(M)
                    check_chain(ctx, calls, provs, res, init0, gt, msg, im)
                    ctx.check(np.array_equal(init.points, init0), 'leftover', 'initial shape modified')
                    if its == [2] * n and mv == [1, 2] and gt is not None:
                        # start from a box
                        for bb in (box(init0), box(init0) + [3., -2.], box(init0) * [1.1, 0.9]):
                            from menpo.shape import PointDirectedGraph, bounding_box
                            B = bounding_box(bb.min(0), bb.max(0))
                            exp = similarity(box(rp), B.points)(rp)
                            algs2 = [Scripted(its[i], mv) for i in range(n)]
                            f2 = MultiScaleNonParametricFitter(case['scales'], fx.pc(rp), fns, algs2)
                            r2 = f2.fit_from_bb(coord_image((130, 150)), B, gt_shape=fx.pc(gt), max_iters=7)
                            ctx.step()
                            cs = [a.calls[0] for a in algs2]
                            check_chain(ctx, cs, [prov_pixels(c['image'])[0] for c in cs], r2, exp, gt, msg + ' from box', im)


def build(name, fns):
    k = dict(holistic_features=fns, diagonal=60, scales=(0.6, 1.0))
    ims = fam.images(6, shape=(70, 80))
    for i in ims:
        i.landmarks['PTS'].points[...] = i.landmarks['PTS'].points * 1.5
    if name == 'lk':
        return fam.lk_fitter('ForwardCompositional', im=ims[0], group='PTS', **{x: y for x, y in k.items()})
    if name == 'aam':
        return fam.aam_fitter(fam.aam('HolisticAAM', ims, **k), 'WibergInverseCompositional', n_shape=3, n_appearance=2)
    if name == 'paam':
        return fam.aam_fitter(fam.aam('PatchAAM', ims, **k), 'WibergInverseCompositional', n_shape=3, n_appearance=2)
    if name == 'atm':
        return fam.atm_fitter(fam.atm('HolisticATM', ims, **k), 'InverseCompositional', n_shape=3)
    if name == 'clm':
        return fam.gd_fitter(fam.clm(ims, **k), 'RegularisedLandmarkMeanShift', n_shape=3)
    if name == 'uni':
        return fam.uni_fitter(fam.unified(ims, **k), 'ProjectOutRegularisedLandmarkMeanShift')
    if name == 'aps':
        ims = fam.images(14, shape=(70, 80))
        for i in ims:
            i.landmarks['PTS'].points[...] = i.landmarks['PTS'].points * 1.5
        return fam.aps_fitter(fam.aps(ims, **k), 'Forward', n_shape=3)
    if name == 'sdm':
        return fam.sdm('NonParametricNewton', ims, **k)
    if name == 'psdm':
        return fam.sdm('ParametricShapeNewton', ims, **k)
    return fam.sd_aam('MeanTemplateNewton', fam.aam('HolisticAAM', ims, **k), ims)


def k_real(case, ctx):
    fns = [feat(f, None) for f in case['feats']]
    if case['feats'][0] == case['feats'][1]:
        fns = [fns[0], fns[0]]
    fit = build(case['fam'], fns)
    im = fx.make_image(7, shape=(70, 80))
    im.landmarks['PTS'].points[...] = im.landmarks['PTS'].points * 1.5
    gt = im.landmarks['PTS'].points.copy()
    init = gt + [1.5, -1.0]
    probe = np.array([[5., 5.], [60., 8.], [55., 70.], [10., 66.]])
    im.landmarks['probe'] = fx.pc(probe)
    calls = [[] for _ in fit.algorithms]
    for i, a in enumerate(fit.algorithms):
        def wrap(orig, i):
            def run(image, initial_shape, *args, **kw):
                c = dict(image=image, init=initial_shape.points.copy(), gt=None if kw.get('gt_shape') is None else kw['gt_shape'].points.copy())
                r = orig(image, initial_shape, *args, **kw)
                c['shapes'] = [s.points.copy() for s in r.shapes[1:]]
                calls[i].append(c)
                return r
            return run
        a.run = wrap(a.run, i)
    from menpo.shape import bounding_box
    for start in ('shape', 'bb'):
        for g in (None, gt):
            for c in calls:
                del c[:]
            kw = dict(gt_shape=None if g is None else fx.pc(g))
            if not case['fam'].startswith(('sd', 'psd')):
                kw['max_iters'] = [2, 2]
            if start == 'shape':
                res = fit.fit_from_shape(im, fx.pc(init), **kw)
                exp = init
            else:
                B = bounding_box(init.min(0), init.max(0))
                rp = fit.reference_shape.points
                exp = similarity(box(rp), B.points)(rp)
                res = fit.fit_from_bb(im, B, **kw)
            ctx.step()
            msg = '%s %s from %s' % (case['fam'], case['feats'], start)
            if not ctx.check(all(len(c) == 1 for c in calls), 'calls', msg):
                return
            provs = []
            for i, c in enumerate(calls):
                M, r = prov_probe(c[0]['image'], probe)
                ctx.check(r < 1e-6, 'image-map', '%s: scale %d' % (msg, i))
                provs.append(M)
            check_chain(ctx, [c[0] for c in calls], provs, res, exp, g, msg, im)
            ctx.check(sorted(im.landmarks) == ['PTS', 'probe'], 'leftover', str(list(im.landmarks)))


def k_bb(case, ctx):
    from menpofit.fitter import align_shape_with_bounding_box
    from menpo.shape import PointCloud, bounding_box, TriMesh
    shapes = [fx.base_points(6), fx.base_points(5) * [2., .5] - 30., np.array([[0., 0], [3, 1], [1, 7]])]
    for p in shapes:
        for lo, hi in itertools.product(([0., 0], [5, 7], [-4, 2.5]), ([20., 10], [9, 60], [30, 30])):
            B = bounding_box(np.array(lo), np.array(hi))
            r = align_shape_with_bounding_box(PointCloud(p), B)
            e = similarity(box(p), B.points)(p)
            ctx.step()
            ctx.trace()
            ctx.close(r.points, e, 'align-bb', 'shape aligned to %s %s' % (lo, hi), rtol=1e-7, atol=1e-7)
            # a square-proportioned fit keeps the centre
            ctx.close(box(r.points).mean(0), (np.array(lo) + hi) / 2., 'align-bb', 'centre', rtol=1e-7, atol=1e-6)
            ctx.state(r.points)


def run(case, ctx):
    globals()['k_' + case['kind']](case, ctx)
