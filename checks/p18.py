"""P18 - landmark searchers move each landmark toward its response peak.

The real algorithms run on the real shape model with scripted expert responses:
every peak position of every search window is enumerated for every landmark,
and each iteration is compared with a reference step written from the
documentation.
"""
import itertools
import numpy as np
from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of response-peak positions x search windows x algorithms x priors on the real '
             'optimisers under a scripted expert, stepwise compared with a reference transition model')
RULE = ('all integer response maps over small lattices for the probability maps; every peak position of every window '
        'size for every landmark x algorithm x prior x number of components; a state is a distinct parameter vector')
ASSUMPTIONS = ['the Jacobian is that of the shape model at its mean, as documented for these precomputed methods',
               'window offsets are counted from size//2, as the search grid does']
CHUNK = 2


def BOUNDS(tier):
    return dict(windows=[list(w) for w in windows(tier)], iterations=3, map_sizes='2x2, 1x3, 3x2 over 3 levels')


def windows(tier):
    w = [(3, 3), (5, 5), (7, 7), (4, 6), (5, 7), (11, 3)]
    if tier != 'quick':
        w += [(8, 8), (9, 9), (11, 11), (15, 13), (6, 5), (2, 2), (17, 17)]
    return w


def cases(tier):
    yield dict(kind='maps', shape=[2, 2])
    yield dict(kind='maps', shape=[1, 3])
    yield dict(kind='maps', shape=[3, 2] if tier == 'quick' else [2, 3])
    yield dict(kind='mapapi')
    for w in windows(tier):
        for alg in ('ActiveShapeModel', 'RegularisedLandmarkMeanShift'):
            for ncomp in (1, 3, None):
                yield dict(kind='search', w=list(w), alg=alg, n=ncomp)
    for k in (1, 2):
        yield dict(kind='own', k=k)
    yield dict(kind='constant')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


# ---- probability maps ------------------------------------------------------
def ref_prob(x):
    out = np.empty(x.shape)
    for i in np.ndindex(x.shape[:-2]):
        y = x[i] - float(x[i].min())
        s = y.sum()
        out[i] = y / s if s > 0 else 1. / y.size
    return out


def run_maps(case, ctx):
    from menpofit.clm.expert.base import probability_map
    h, w = case['shape']
    vals = list(itertools.product((-1., 0., 2.5), repeat=h * w))
    # every map alone, and next to a constant map
    for i, v in enumerate(vals):
        a = np.array(v).reshape(1, 1, h, w)
        b = np.concatenate([a, np.full((1, 1, h, w), 0.75), a[..., ::-1]])
        for x in (a, b, np.asfortranarray(b)):
            x0 = x.copy()
            p = probability_map(x)
            ctx.step()
            ctx.trace()
            ctx.check(np.array_equal(x, x0), 'map-mutates', 'responses %s modified' % (v,))
            ctx.close(p, ref_prob(x0), 'map', str(v), atol=1e-12)
            ctx.check(np.all(p >= 0) and np.allclose(p.sum((-2, -1)), 1), 'map-sum', str(v))
        ctx.state(h, w, p)


def run_mapapi(case, ctx):
    from menpofit.clm.expert.base import probability_map
    from menpofit.clm.expert.ensemble import ExpertEnsemble
    from menpo.image import Image
    x = np.array([[[1., 2., 0.], [4., 4., 4.]], [[3., 3., 3.], [3., 3., 3.]], [[-5., 1e-9, 1e6], [0, 0, 0]]])
    for y in (x, x.astype(np.float32), x.astype(int)):
        y0 = y.copy()
        p = probability_map(y)
        ctx.step()
        ctx.close(p, ref_prob(y), 'map-types', str(y.dtype), atol=1e-6)
        ctx.check(np.array_equal(y, y0), 'map-mutates', str(y.dtype))
        ctx.state(str(y.dtype), p)
    im = Image(x.copy())
    q = probability_map(im)
    ctx.check(isinstance(q, Image), 'map-image', 'image in, %s out' % type(q))
    ctx.close(q.pixels, ref_prob(x), 'map-image', 'pixels')
    ctx.check(np.array_equal(im.pixels, x), 'map-image-mutates', '')

    class E(ExpertEnsemble):
        def predict_response(self, image, shape):
            return x[:, None]
    e = E()
    p = e.predict_probability(None, None)
    ctx.close(p, ref_prob(x[:, None]), 'ensemble-map', '')
    ctx.close(e.predict_probability(None, None), p, 'ensemble-map-again', '')
    ctx.state(p)


# ---- searchers -------------------------------------------------------------
def scripted(search_shape, n, script):
    from menpofit.clm.expert.ensemble import ExpertEnsemble

    class Scripted(ExpertEnsemble):
        def __init__(self):
            self.calls = []

        @property
        def n_experts(self):
            return n

        @property
        def search_shape(self):
            return tuple(search_shape)

        def predict_response(self, image, shape):
            self.calls.append((image, shape.points.copy()))
            return script(len(self.calls) - 1)
    return Scripted()


def peaked(w, peaks, ratio):
    """one response map per landmark: a bump at its peak over a rippled floor"""
    y, x = np.mgrid[:w[0], :w[1]]
    out = []
    for k, (a, b) in enumerate(peaks):
        m = 0.03 * np.sin(1.3 * y + 0.7 * x + k) + ratio * np.exp(-((y - a) ** 2 + (x - b) ** 2) / 1.5)
        m[a, b] += 0.2
        out.append(m)
    return np.asarray(out)[:, None]


def step_target(alg, prob, w, cov, P):
    gy, gx = np.meshgrid(np.arange(w[0]) - w[0] // 2, np.arange(w[1]) - w[1] // 2, indexing='ij')
    T = np.empty_like(P)
    for k in range(len(P)):
        m = prob[k, 0]
        if alg == 'ActiveShapeModel':
            j = int(np.argmax(m.ravel()))
            oy, ox = j // w[1] - w[0] // 2, j % w[1] - w[1] // 2
            g = np.exp(-0.5 * ((gy - oy) ** 2 + (gx - ox) ** 2) / cov)
        else:
            g = m * np.exp(-0.5 * (gy ** 2 + gx ** 2) / cov)
        g = g / g.sum()
        T[k] = P[k] + [np.sum(g * gy), np.sum(g * gx)]
    return T


def run_search(case, ctx):
    import menpofit.clm.algorithm.gd as gd
    from menpo.image import Image
    from menpofit.modelinstance import OrthoPDM
    w, alg, n = tuple(case['w']), case['alg'], case['n']
    data = [fx.pc(fx.deform(fx.base_points(6), k)) for k in range(7)]
    positions = list(itertools.product(range(w[0]), range(w[1])))
    step = 1 if len(positions) <= 25 else len(positions) // 25
    pdm = OrthoPDM(data, max_n_components=n)
    B = np.vstack([pdm.similarity_model.components, pdm.model.components]).T     # (2 n_points) x n_params
    lam = np.hstack([np.zeros(4), pdm.model.noise_variance() / pdm.model.eigenvalues])
    starts = [data[3].points, fx.deform(fx.base_points(6), 12)]
    for cov, mp in ((10, False), (10, True), (2.5, True)):
        for pi, p0 in enumerate(positions):
            # landmark 0 visits every position; the others visit shifted ones
            peaks = [positions[(pi + 5 * k * (k + 1) // 2 + k) % len(positions)] for k in range(6)]
            peaks[0] = p0
            if cov != 10 and pi % step:
                continue
            scr = lambda it: peaked(w, [positions[(positions.index(q) + 3 * it) % len(positions)] for q in peaks], 1.0)
            ens = scripted(w, 6, scr)
            kw = dict(gaussian_covariance=cov) if alg == 'ActiveShapeModel' else dict(kernel_covariance=cov)
            a = getattr(gd, alg)(ens, pdm, **kw)
            start = starts[pi % 2]
            its = 3 if pi % 7 == 0 else 1
            image = Image(fx.pixels((8, 8), pi % 5))
            r = a.run(image, fx.pc(start), max_iters=its, map_inference=mp)
            tag = '%s window %s peaks %s cov %s map %s components %s' % (alg, w, peaks, cov, mp, n)
            ctx.check(len(ens.calls) == its, 'searches', '%s: %d searches for %d iterations' % (tag, len(ens.calls), its))
            sp = r.shape_parameters
            ref = pdm.copy()
            ref.set_target(fx.pc(start))
            p = ref.as_vector().copy()
            ctx.close(sp[0], p, 'start-parameters', tag, atol=1e-7)
            for it in range(its):
                ctx.step()
                cur = pdm.from_vector(p).target.points
                ctx.close(r.shapes[len(r.shapes) - its - 1 + it].points, cur, 'shape', '%s iteration %d' % (tag, it), atol=1e-6)
                ctx.check(np.array_equal(ens.calls[it][0].pixels, image.pixels) and np.allclose(ens.calls[it][1], cur, atol=1e-6), 'searched-at',
                          '%s iteration %d: experts evaluated elsewhere than the current shape' % (tag, it))
                T = step_target(alg, ref_prob(scr(it)), w, cov, cur)
                e = (T - cur).ravel()
                L = lam if mp else 0 * lam
                p = p + np.linalg.solve(B.T.dot(B) + np.diag(L), B.T.dot(e) - L * p)
                ctx.trace()
                if not ctx.close(sp[it + 1], p, 'step', '%s iteration %d' % (tag, it), rtol=1e-6, atol=1e-6):
                    return
                ctx.state(p)
            last = pdm.from_vector(p).target.points
            ctx.close(r.final_shape.points, last, 'final', tag, atol=1e-6)
            if n is None and not mp and its == 1:
                # all shapes near the start allowed: the landmark moves toward its peak along each axis with an off-centre peak
                d = step_target(alg, ref_prob(scr(0)), w, cov, np.zeros((6, 2)))
                if alg == 'ActiveShapeModel' and w[0] % 2 and w[1] % 2:
                    off = np.array([[q[0] - w[0] // 2, q[1] - w[1] // 2] for q in peaks])
                    ctx.check(np.all(np.sign(np.where(abs(d) < 1e-12, 0, d)) == np.sign(off)), 'oracle', tag)


# ---- real experts ----------------------------------------------------------
def run_own(case, ctx):
    """expert i depends on the pixels around landmark i only, in training and in prediction"""
    from menpo.image import Image
    from menpo.shape import PointCloud
    from menpofit.clm.expert.ensemble import CorrelationFilterExpertEnsemble as E
    k = case['k']
    P = np.array([[14., 15.], [14., 47.], [45., 16.], [44., 46.]])
    px = [fx.pixels((60, 62), i, k) + 0.1 * np.sin(np.arange(60 * 62 * k).reshape(k, 60, 62) ** 1.3 + i) for i in range(3)]
    kw = dict(patch_shape=(7, 7), context_shape=(15, 15))
    shp = [PointCloud(P + i) for i in range(3)]
    e0 = E([Image(p) for p in px], shp, **kw)
    f0 = np.array(e0.fft_padded_filters)
    ctx.check(e0.n_experts == 4, 'n-experts', str(e0.n_experts))
    r0 = e0.predict_response(Image(px[0]), shp[1])
    p0 = e0.predict_probability(Image(px[0]), shp[1])
    ctx.close(p0, ref_prob(np.asarray(r0)), 'probability', '')
    for j in range(4):
        # disturb everything around landmark j (in every training image)
        q = [p.copy() for p in px]
        y, x = P[j].astype(int)
        for a in q:
            a[:, y - 9:y + 11, x - 9:x + 11] = np.cos(np.arange(400).reshape(20, 20) ** 1.1)
        e1 = E([Image(p) for p in q], shp, **kw)
        f1 = np.array(e1.fft_padded_filters)
        r1 = e0.predict_response(Image(q[0]), shp[1])
        moved = P + 1
        moved[j] += [2, -3]
        r2 = e0.predict_response(Image(px[0]), PointCloud(moved))
        e3 = E([Image(p) for p in px], [PointCloud(np.where(np.arange(4)[:, None] == j, s.points + 3, s.points)) for s in shp], **kw)
        f3 = np.array(e3.fft_padded_filters)
        for i in range(4):
            ctx.step()
            ctx.trace()
            for name, a, b in (('filter', f0, f1), ('response', r0, r1), ('moved', r0, r2), ('trained-elsewhere', f0, f3)):
                same = np.allclose(a[i], b[i], atol=1e-9)
                ctx.check(same == (i != j), 'own-landmark', '%s of expert %d %s when only landmark %d was disturbed' % (
                    name, i, 'unchanged' if same else 'changed', j))
        ctx.state(j, r1)
    # permuting the landmarks permutes experts and responses
    for perm in itertools.permutations(range(4)):
        perm = list(perm)
        e4 = E([Image(p) for p in px], [PointCloud(s.points[perm]) for s in shp], **kw)
        ctx.close(np.array(e4.fft_padded_filters), f0[perm], 'permuted-filters', str(perm), atol=1e-9)
        ctx.close(e4.predict_response(Image(px[0]), PointCloud(shp[1].points[perm])), np.asarray(r0)[perm],
                  'permuted-responses', str(perm), atol=1e-9)
        ctx.step(2)


def run_constant(case, ctx):
    """responses that say nothing leave the landmarks where the model puts them (odd windows)"""
    import menpofit.clm.algorithm.gd as gd
    from menpo.image import Image
    from menpofit.modelinstance import OrthoPDM
    data = [fx.pc(fx.deform(fx.base_points(6), k)) for k in range(7)]
    for w in ((3, 3), (5, 7), (9, 9)):
        for mp in (False, True):
            pdm = OrthoPDM(data)
            ens = scripted(w, 6, lambda it: np.full((6, 1) + w, 3.7))
            a = gd.RegularisedLandmarkMeanShift(ens, pdm)
            r = a.run(Image(fx.pixels((8, 8), 0)), data[2], max_iters=4, map_inference=mp)
            ctx.step()
            ref = pdm.copy()
            ref.set_target(data[2])
            if not mp:
                ctx.close(r.final_shape.points, ref.target.points, 'constant', 'window %s' % (w,), atol=1e-6)
            ctx.check(np.all(np.isfinite(r.final_shape.points)), 'constant-finite', str(w))
            ctx.state(w, mp, r.final_shape.points)
