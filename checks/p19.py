"""P19 - cascaded regression applies at test time what it learned in training.

Every cascaded-regression trainer is run on miniature data while the training
and prediction calls of the regressors are recorded.  Then every training image
is fitted from every one of its training boxes: the regressor inputs seen at
test time must be exactly the training rows (each used once, per scale and
iteration), the targets of the regression must be what is still missing to the
ground truth at the estimates the fit passes through, and independent feature
extraction at these estimates must give the training rows.
"""
import numpy as np
from vlib import fx, fam, fitters
from p03 import ap

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of bounded training configurations; the recorded training trace is replayed through the '
             'fitter from every training start and compared step by step with a reference transition system')
RULE = ('cascaded-regression algorithms x scales x per-scale features (same, different, resizing) x iterations x perturbations '
        'x generated/provided boxes; a transition is one regressor application of one start; a state is a distinct estimate')
ASSUMPTIONS = ['training boxes have the size at which the aligned reference shape is as large as the ground truth, so that '
               'training and fitting normalise the image in the same way',
               'images are square, so that integer image sizes do not make the rescaling anisotropic']
CHUNK = 2
N_IMAGES = 4


def BOUNDS(tier):
    return dict(scales=3, iterations=3, images=N_IMAGES, boxes=6)


def feat(name):
    """feature functions keeping images square; fresh objects per name"""
    from menpo.image import Image
    from menpo.feature import no_op
    if name == 'id':
        return no_op

    def moved(im, fpix, f):
        o = Image(fpix(im.pixels).copy())
        for g in im.landmarks:
            o.landmarks[g] = im.landmarks[g]
            o.landmarks[g].points[...] = f(o.landmarks[g].points)
        return o

    def fn(im):
        if name == 'half':
            return im.rescale(0.5)
        if name == 'big':
            return im.rescale(1.5)
        if name == 'crop':
            return moved(im, lambda x: x[:, 4:-3, 2:-5], lambda p: p - [4, 2])
        if name == 'pad':
            return moved(im, lambda x: np.pad(x, ((0, 0), (6, 5), (3, 8)), mode='edge'), lambda p: p + [6, 3])
        if name == 'stride':
            return moved(im, lambda x: x[:, 0::2, 1::2][:, :(x.shape[1] - 1) // 2, :(x.shape[1] - 1) // 2], lambda p: (p - [0, 1]) / 2.)
        if name == 'sq':
            return moved(im, lambda x: x ** 2, lambda p: p)
        return moved(im, lambda x: np.concatenate([x, 1 - x[:1] ** 2]), lambda p: p)   # chan
    fn.__name__ = 'feat_' + name
    return fn


class Recorder(object):
    """records the outermost train / predict calls of the regressors"""
    def __init__(self):
        import menpofit.math.regression as R
        self.classes = [c for c in vars(R).values() if isinstance(c, type) and 'predict' in vars(c)]
        self.log, self.depth, self.saved = [], 0, []

    def __enter__(self):
        for c in self.classes:
            for name in ('train', 'predict'):
                if name in vars(c):
                    self.saved.append((c, name, vars(c)[name]))
                    setattr(c, name, self.wrap(vars(c)[name], name))
        return self

    def wrap(self, f, name):
        def g(obj, x, *a):
            self.depth += 1
            try:
                xx = np.array(x, copy=True)
                y = [np.array(v, copy=True) for v in a]
                out = f(obj, x, *a)
            finally:
                self.depth -= 1
            if self.depth == 0:
                self.log.append((name, xx, y[0] if y else np.array(out, copy=True)))
            return out
        return g

    def __exit__(self, *a):
        for c, name, f in self.saved:
            setattr(c, name, f)
        self.saved = []


def training_images(case):
    n = case.get('images', N_IMAGES)
    ims = []
    for k in range(n):
        im = fx.make_image(k, shape=(48, 48), n_channels=case.get('channels', 1))
        if case.get('sizes') and k % 2:
            im = im.rescale(1.4)
        ims.append(im)
    return ims


def reference(case, ims):
    """(argument, the reference shape up to size)"""
    from menpo.shape import mean_pointcloud
    mean = mean_pointcloud([i.landmarks['PTS'] for i in ims])
    if case.get('ref') == 'given':
        r = ims[1].landmarks['PTS'].copy()
        r.points[...] = (r.points - r.points.mean(0)) * 0.9 + 20.
        return r, r
    return None, mean


DELTA = [(1.2, -0.7), (-0.8, 1.1), (0.5, 0.9), (-1.3, -0.6), (0.3, -1.4), (0., 0.)]
ASPECT = [1.0, 1.1, 0.95, 1.05, 0.9, 1.0]


def box_from(lo, hi):
    from menpo.shape import bounding_box
    return bounding_box(lo, hi)


def start_box(ref, gt, k, extra=0.):
    """the k-th training box of a ground truth, as large as the ground truth requires"""
    from menpofit.fitter import align_shape_with_bounding_box
    b = gt.bounding_box().points
    lo, hi = b.min(0), b.max(0)
    c, h = (lo + hi) / 2, (hi - lo) / 2
    h = h * [ASPECT[k], 1. / ASPECT[k]]
    f = gt.norm() / align_shape_with_bounding_box(ref, box_from(c - h, c + h)).norm()
    c = c + np.array(DELTA[k]) * (1 + extra)
    return box_from(c - f * h, c + f * h)


def cases(tier):
    out = []

    def add(**k):
        d = dict(scales=[0.5, 1.0], its=[2, 1], pert=2, glob=0, feats=['id', 'id'], diag=30)
        d.update(k)
        out.append(d)
    three = dict(scales=[0.5, 0.75, 1.0], feats=['id'] * 3, its=[1, 2, 1])
    for a in fam.SDM_ALGS:
        add(alg=a)
        add(alg=a, glob=2, pert=1, **three)
        add(alg=a, glob=1, pert=2, its=[1, 2], sizes=1, ref='given')
        if tier != 'quick':
            add(alg=a, pert=3, its=[3, 3], feats=['sq', 'crop'], diag=None)
            add(alg=a, pert=1, glob=3, its=[3, 3], feats=['half', 'pad'], diag=40)
    main = ['NonParametricNewton', 'ParametricShapeNewton', 'FullyParametricMeanTemplateNewton',
            'ParametricAppearanceMeanTemplateNewton'] if tier == 'quick' else fam.SDM_ALGS
    F2 = [['sq', 'sq'], ['id', 'sq'], ['sq', 'id'], ['half', 'id'], ['id', 'half'], ['crop', 'pad'], ['pad', 'id'], ['half', 'half'],
          ['id', 'crop'], ['big', 'half'], ['stride', 'id'], ['id', 'stride'], ['chan', 'id'], ['sq', 'chan']]
    for a in main:
        for f in F2:
            add(alg=a, feats=f)
            add(alg=a, feats=f, glob=1, pert=1, scales=[1.0, 1.0])
        for s in ([1.0], [0.5], [1.5]):
            for it in (1, 2, 3):
                for pert in (1, 2, 3):
                    for glob in (0, 1, 2):
                        add(alg=a, scales=s, feats=['id'], its=[it], pert=pert, glob=glob)
        for s in ([1.0, 0.5], [0.6, 0.6], [0.5, 1.5]):
            for glob in (0, 2):
                add(alg=a, scales=s, glob=glob)
                add(alg=a, scales=s, glob=glob, feats=['half', 'crop'])
        for f in (['id', 'half', 'id'], ['half', 'half', 'id'], ['crop', 'id', 'id'], ['sq', 'id', 'pad'], ['id', 'id', 'crop']):
            for glob in (0, 2):
                add(alg=a, scales=[0.5, 0.75, 1.0], its=[1, 1, 2], feats=f, glob=glob, pert=1)
        for n in (3, 6):
            for d in (None, 20, 50):
                add(alg=a, images=n, diag=d, ref='given' if d is None else None)
                add(alg=a, images=n, diag=d, sizes=1, glob=1)
        add(alg=a, pert=0, glob=2)
        add(alg=a, pert=0, glob=1, scales=[1.0], its=[2], feats=['id'])
        add(alg=a, pert=4, glob=0, its=[3, 3])
        add(alg=a, pert=1, glob=0, its=[1, 1], verbose=1)
        add(alg=a, pert=2, glob=1, its=[2, 2], verbose=1)
        # more than ten boxes: their group names do not sort in numerical order
        add(alg=a, pert=12, glob=0)
        add(alg=a, pert=5, glob=2)
    mixed = [['NonParametricNewton', 'NonParametricGaussNewton'], ['ParametricShapeNewton', 'FullyParametricProjectOutNewton'],
             ['NonParametricNewton', 'ParametricAppearanceWeightsNewton']]
    for m in mixed:
        for glob in (0, 1):
            add(alg=m, glob=glob)
    for kind in fam.AAM_KINDS:
        for a in fam.AAM_SD_ALGS:
            add(alg=a, aam=kind)
            if kind in ('HolisticAAM', 'PatchAAM') or tier != 'quick':
                add(alg=a, aam=kind, glob=2, pert=1, its=[1, 2])
                add(alg=a, aam=kind, glob=1, pert=2, scales=[0.5, 0.75, 1.0], feats=['id'] * 3, its=[1, 2, 1])
        for f in (['half', 'id'], ['id', 'crop'], ['sq', 'sq'], ['pad', 'half']):
            add(alg='MeanTemplateNewton', aam=kind, feats=f)
        add(alg='ProjectOutNewton', aam=kind, its=[3, 3], verbose=1)
        if 'Patch' not in kind:
            add(alg='MeanTemplateNewton', aam=kind, sampling=2)
    for form in ('list', 'one'):
        for a in fam.SDM_ALGS:
            out.append(dict(kind='regression', alg=a, form=form))
            out.append(dict(kind='parts', alg=a, form=form))
        for a in fam.AAM_SD_ALGS:
            for kind in ('HolisticAAM', 'PatchAAM') if form == 'list' else ('MaskedAAM',):
                out.append(dict(kind='regression', alg=a, aam=kind, form=form))
                out.append(dict(kind='parts', alg=a, aam=kind, form=form))
    return out


def train(case, ims):
    """train the fitter of a case; returns it and the training boxes per image (original coordinates)"""
    refarg, ref = reference(case, ims)
    gts = [i.landmarks['PTS'] for i in ims]
    glob = case['glob']
    boxes = [[] for _ in ims]
    count = {}
    if glob:
        for i, im in enumerate(ims):
            for g in range(glob):
                im.landmarks['box_%d' % g] = start_box(ref, gts[i], g + 3, 0.3)
    asp = [(g.range()[0] / g.range()[1]) for g in gts]

    def perturb(gt_bb, bb):
        i = int(np.argmin([abs(a - gt_bb.range()[0] / gt_bb.range()[1]) for a in asp]))
        o = gts[i].bounding_box()
        s = gt_bb.range() / o.range()
        t = gt_bb.points.min(0) - s * o.points.min(0)
        k = count.get(i, 0)
        count[i] = k + 1
        if glob:
            src = (bb.points - t) / s
            b = src + np.array(DELTA[k % 6]) * (0.5 + 0.11 * k)
        else:
            b = start_box(ref, gts[i], k % 6, 0.13 * (k // 6)).points
        boxes[i].append(box_from(b.min(0), b.max(0)))
        p = b * s + t
        return box_from(p.min(0), p.max(0))
    if glob:
        for i, im in enumerate(ims):
            boxes[i] += [im.landmarks['box_%d' % g].bounding_box() for g in range(glob)]
    feats = {}
    hf = [feats.setdefault(f, feat(f)) for f in case['feats']]
    import contextlib, io
    opt = dict(n_iterations=case['its'], n_perturbations=case['pert'], perturb_from_gt_bounding_box=perturb,
               bounding_box_group_glob='box_*' if glob else None, verbose=bool(case.get('verbose')))
    with contextlib.redirect_stdout(io.StringIO()):
        if case.get('aam'):
            # components: fewer than the training shapes span
            m = fam.aam(case['aam'], ims, scales=case['scales'], diagonal=case['diag'], holistic_features=hf, reference_shape=refarg,
                        max_shape_components=2, max_appearance_components=2)
            with Recorder() as rec:
                f = fam.sd_aam(case['alg'], m, ims, sampling=case.get('sampling'), **opt)
        else:
            with Recorder() as rec:
                alg = case['alg']
                if not isinstance(alg, str):
                    import menpofit.sdm as S
                    alg = [getattr(S, a) for a in alg]
                f = fam.sdm(alg, ims, scales=case['scales'], diagonal=case['diag'], holistic_features=hf,
                            patch_shape=[(7, 5)] + [(5, 5)] * (len(case['scales']) - 1), reference_shape=refarg, **opt)
    return f, rec, boxes, hf


def run(case, ctx):
    if case.get('kind') == 'regression':
        return k_regression(case, ctx)
    if case.get('kind') == 'parts':
        return k_parts(case, ctx)
    ims = training_images(case)
    f, rec, boxes, hf = train(case, ims)
    n_sc, its = len(case['scales']), case['its']
    trains = [x for x in rec.log if x[0] == 'train']
    preds = [x for x in rec.log if x[0] == 'predict']
    msg = '%s' % (case['alg'],)
    if not ctx.check(len(trains) == sum(its), 'regressors', '%s: %d regressors trained for %s iterations' % (msg, len(trains), its)):
        return
    ctx.check([len(a.regressors) for a in f.algorithms] == list(its), 'regressors',
              '%s: regressors per scale %s, iterations %s' % (msg, [len(a.regressors) for a in f.algorithms], its))
    starts = [(i, k) for i in range(len(ims)) for k in range(len(boxes[i]))]
    steps = [(j, it) for j in range(n_sc) for it in range(its[j])]
    for (j, it), t in zip(steps, trains):
        if not ctx.check(len(t[1]) == len(starts) and len(t[2]) == len(starts), 'samples', '%s: scale %d iteration %d trained on %d '
                         'samples, %d starts' % (msg, j, it, len(t[1]), len(starts))):
            return
    appearance(f, case, hf, ims, ctx, msg)
    used = [dict() for _ in steps]
    clean = [im.copy() for im in ims]
    for i, k in starts:
        im = clean[i]
        gt = im.landmarks['PTS']
        with Recorder() as r:
            res = f.fit_from_bb(im, boxes[i][k])
        seen = [x for x in r.log if x[0] == 'predict']
        if not ctx.check(len(seen) == len(steps), 'applied', '%s: %d regressors applied, %d trained' % (msg, len(seen), len(steps))):
            return
        ctx.trace()
        path, pars = scale_shapes(f, res, its, case) or (None, None)
        if not ctx.check(path is not None, 'recorded', '%s: iterations %s, recorded %s with %d shapes' % (
                msg, its, res.n_iters_per_scale, len(res.shapes))):
            return
        for n, ((j, it), t, s) in enumerate(zip(steps, trains, seen)):
            ctx.step()
            x = np.asarray(s[1]).ravel()
            if not ctx.check(x.shape == t[1].shape[1:], 'features', '%s: %d features at test time, %s in training' % (msg, x.size, t[1].shape)):
                return
            d = np.abs(t[1] - x).max(1)
            row = int(np.argmin(d))
            tol = 1e-6 * (1 + np.abs(x).max())
            if not ctx.check(d[row] < tol, 'estimates', '%s: scale %d iteration %d: image %d from box %d is at an estimate that was '
                             'not used in training (features differ by %.3g)' % (msg, j, it, i, k, d[row])):
                return
            # what is missing to the ground truth; patches are extracted at integer positions, so that
            # several samples can have the same features
            est = path[j][it]
            want = target(f, f.algorithms[j], ims[i], gt, est, pars and pars[j][it], case, hf, j)
            if not ctx.check(want.shape == t[2].shape[1:], 'target', '%s: target of %s numbers, %s expected' % (
                    msg, t[2].shape[1:], want.shape)):
                return
            dt = np.abs(t[2] - want).max(1)
            near = [int(q) for q in np.where(d < tol)[0]]
            row = min(near, key=lambda q: (dt[q] > 1e-6 * (1 + np.abs(want).max()), q in used[n], dt[q]))
            got = t[2][row]
            used[n].setdefault(row, []).append((i, k))
            if not ctx.close(got, want, 'target', '%s: scale %d iteration %d target of the regression' % (msg, j, it), rtol=1e-5,
                             atol=1e-5 * (1 + np.abs(want).max())):
                return
            feats = own_features(f, f.algorithms[j], im, gt, est, pars and pars[j][it], case, hf, j)
            if feats is not None and not ctx.close(x, feats, 'own-features', '%s: scale %d iteration %d features' % (msg, j, it),
                                                   rtol=1e-5, atol=1e-5):
                return
            ctx.state(case['alg'], case.get('aam'), j, it, np.round(est, 4))
    for n, (j, it) in enumerate(steps):
        dup = {r: v for r, v in used[n].items() if len(v) > 1}
        ctx.check(len(used[n]) == len(starts), 'each-once', '%s: scale %d iteration %d: %d of %d training samples are reached from the '
                  'training boxes (shared: %s)' % (msg, j, it, len(used[n]), len(starts), list(dup.items())[:2]))


def scale_shapes(f, res, its, case):
    """estimates before every regressor application, caller coordinates, per scale"""
    r = fitters.Run(res)
    if r.n != list(its) or r.extra != 0:
        return None
    out, last = [], r.init
    for j, n in enumerate(its):
        s = r.shapes[j] if r.param else [last] + r.shapes[j]
        out.append(s[:n])
        last = s[n]
    return out, r.par.get('shape_parameters')


def parametric(alg, case):
    return bool(case.get('aam')) or getattr(alg, 'shape_model', None) is not None


def prepared(case, hf, im, j, ref):
    """image of scale j as a training image is prepared, and the map of the caller's coordinates into it"""
    im = im.copy()
    for g in list(im.landmarks):
        if g != 'PTS':
            del im.landmarks[g]
    im.landmarks['corners'] = fx.pc([[0., 0], [0, 40], [40, 0], [40, 40]])
    src = np.column_stack([im.landmarks['corners'].points, np.ones(4)])
    o = im.rescale_to_pointcloud(ref, group='PTS')
    o = hf[j](o)
    if case['scales'][j] != 1:
        o = o.rescale(case['scales'][j])
    M = np.linalg.lstsq(src, o.landmarks['corners'].points, rcond=None)[0]
    return o, M


def target(f, alg, im, gt, est, par, case, hf, j):
    """what is missing to the ground truth at an estimate"""
    o, M = prepared(case, hf, im, j, f.reference_shape)
    g, e = ap(M, gt.points), ap(M, est)
    if not parametric(alg, case):
        return (g - e).ravel()
    import copy
    model = copy.deepcopy(alg.transform if case.get('aam') else alg.shape_model)
    model.set_target(fx.pc(g))
    return model.as_vector().copy() - par


def own_features(f, alg, im, gt, est, par, case, hf, j):
    """what the regressors of this algorithm are documented to see at an estimate"""
    import copy
    name = case['alg'] if isinstance(case['alg'], str) else case['alg'][j]
    o, M = prepared(case, hf, im, j, f.reference_shape)
    if case.get('aam'):
        if case.get('sampling'):
            return None
        m = alg.appearance_model
        t = copy.deepcopy(alg.transform)
        t._from_vector_inplace(np.array(par))
        mean = m.mean()
        if 'Patch' in case['aam']:
            p = o.extract_patches(t.target, patch_shape=mean.pixels.shape[-2:], as_single_array=True).ravel()
        else:
            p = o.warp_to_mask(mean.mask, t, warp_landmarks=False).as_vector()
        mean, A = mean.as_vector(), m.components
    else:
        p = o.extract_patches(fx.pc(ap(M, est)), patch_shape=(7, 5) if j == 0 else (5, 5), as_single_array=True)
        p = np.hstack([q[0].ravel() for q in p])
        if name.startswith('NonParametric') or name.startswith('ParametricShape'):
            return p
        mean, A = np.asarray(alg.appearance_model.mean()).ravel(), alg.appearance_model.components
    if 'MeanTemplate' in name:
        return p - mean
    if 'Weights' in name:
        return np.linalg.lstsq(A.T, p - mean, rcond=None)[0]
    return p - mean - A.T.dot(np.linalg.lstsq(A.T, p - mean, rcond=None)[0])


def appearance(f, case, hf, ims, ctx, msg):
    """the appearance model of a scale describes the patches at the ground truth shapes"""
    if case.get('aam'):
        return
    for j, alg in enumerate(f.algorithms):
        name = case['alg'] if isinstance(case['alg'], str) else case['alg'][j]
        if not (name.startswith('ParametricAppearance') or name.startswith('FullyParametric')):
            continue
        rows = []
        for im in ims:
            o, M = prepared(case, hf, im, j, f.reference_shape)
            p = o.extract_patches(fx.pc(ap(M, im.landmarks['PTS'].points)), patch_shape=(7, 5) if j == 0 else (5, 5), as_single_array=True)
            rows.append(np.hstack([q[0].ravel() for q in p]))
        rows = np.array(rows)
        m = alg.appearance_model
        ctx.step()
        ctx.close(np.asarray(m.mean()).ravel(), rows.mean(0), 'appearance', '%s: mean patches of scale %d' % (msg, j), rtol=1e-6, atol=1e-6)
        e = rows - rows.mean(0)
        A = m.components
        ctx.close(e.dot(A.T).dot(A), e, 'appearance', '%s: scale %d: the components explain the training patches' % (msg, j), rtol=1e-5, atol=1e-5)


# ------------------------------------------------------------ regressor options
# which regression every algorithm is documented to use
def method(name):
    if 'PCR' in name:
        return 'pcr'
    if 'Optimal' in name:
        return 'optimal'
    if 'OPP' in name:
        return 'opp'
    return 'inverse' if 'GaussNewton' in name or 'GuassNewton' in name else 'ridge'


VALUES = dict(alpha=[0.3, 8.0], alpha2=[0.1, 4.0], bias=[True, False], variance=[0.9, 0.99], whiten=[False, True])


def solve(kind, X, Y, o):
    """linear map of a documented regression, with its options; None when it is not unique"""
    from p16 import aug, ridge
    bias = o.get('bias', True)
    if kind == 'inverse':
        J = ridge(Y, X, o.get('alpha', 0))
        R = np.linalg.solve(J.dot(J.T) + o.get('alpha2', 0) * np.eye(len(J)), J).T
        return lambda x: x.dot(R)
    Xa = aug(X, bias)
    if kind == 'ridge':
        R = ridge(Xa, Y, o.get('alpha', 0))
        return lambda x: aug(x, bias).dot(R)
    U, s, V = np.linalg.svd(Xa, full_matrices=False)
    if kind == 'opp':
        C = Xa.T.dot(Y)
        if o.get('whiten'):
            return None
        sv = np.linalg.svd(C, compute_uv=False)
        if sv[-1] < 1e-6 * sv[0]:
            return None
        Uc, _, Vc = np.linalg.svd(C, full_matrices=False)
        R = Uc.dot(Vc)
        return lambda x: aug(x, bias).dot(R)
    cum = np.cumsum(s if kind == 'pcr' else s ** 2)
    cum = cum / cum[-1]
    v = o.get('variance')
    k = int((cum < v).sum())
    if k == 0 or np.min(np.abs(cum - v)) < 1e-6:
        return None
    R = V[:k].T.dot((U[:, :k].T.dot(Y)) / s[:k, None])
    if kind == 'optimal':
        w = np.linalg.svd(U[:, :k].T.dot(Y), compute_uv=False)
        if w[min(len(w), k) - 1] < 1e-3 * w[0]:
            return None
    return lambda x: aug(x, bias).dot(R)


def k_regression(case, ctx):
    """the regressors are those of the algorithm, with the options it was given"""
    import contextlib
    import inspect
    import io
    import itertools
    from functools import partial
    import menpofit.aam as A
    import menpofit.sdm as S
    name = case['alg']
    cls = getattr(A if case.get('aam') else S, name)
    par = [a for a in VALUES if a in inspect.signature(cls.__init__).parameters]
    ims = training_images(dict(images=6))
    model = fam.aam(case['aam'], ims, scales=[0.5, 1.0], diagonal=30, max_shape_components=2, max_appearance_components=3) \
        if case.get('aam') else None
    done = 0
    # values for which at least one component is kept
    values = dict(VALUES, variance=[0.99, 0.999]) if method(name) == 'optimal' else VALUES
    for vals in itertools.product(*[values[a] for a in par]):
        o = dict(zip(par, vals))
        msg = '%s %s' % (name, o)
        alg = [partial(cls, **o)] * 2 if case['form'] == 'list' else partial(cls, **o)
        opt = dict(n_iterations=[2, 1], n_perturbations=5, verbose=False)
        with Recorder() as rec, contextlib.redirect_stdout(io.StringIO()):
            np.random.seed(3)
            if model is not None:
                f = A.SupervisedDescentAAMFitter(ims, model, group='PTS', sd_algorithm_cls=alg, **opt)
            else:
                f = S.SupervisedDescentFitter(ims, group='PTS', sd_algorithm_cls=alg, scales=[0.5, 1.0], diagonal=30,
                                              patch_shape=[(7, 5), (5, 5)], **opt)
        start = ims[0].landmarks['PTS'].bounding_box()
        with Recorder() as test:
            f.fit_from_bb(ims[0], start)
        tr = [x for x in rec.log if x[0] == 'train']
        te = [x for x in test.log if x[0] == 'predict']
        if not ctx.check(len(tr) == 3 and len(te) == 3, 'regressors', '%s: %d trained, %d applied' % (msg, len(tr), len(te))):
            return
        ctx.trace()
        for n, (t, q) in enumerate(zip(tr, te)):
            R = solve(method(name), t[1], t[2], o)
            if R is None:
                continue
            x = np.atleast_2d(q[1])
            ctx.step()
            if not ctx.close(np.atleast_2d(q[2]), R(x), 'regression', '%s: prediction of regressor %d' % (msg, n), rtol=1e-4,
                             atol=1e-4 * (1 + np.abs(R(x)).max())):
                return
            done += 1
            ctx.state(name, case.get('aam'), sorted(o.items()), n)
    ctx.check(done > 0, 'regression', '%s: nothing compared' % name)


def k_parts(case, ctx):
    """the shape model, appearance model and error measure of an algorithm are the ones it was given"""
    import contextlib
    import inspect
    import io
    import itertools
    import re
    from functools import partial
    from menpo.model import PCAVectorModel
    from menpofit.modelinstance import OrthoPDM
    import menpofit.aam as A
    import menpofit.sdm as S

    class Shapes(OrthoPDM):
        pass

    class Appearances(PCAVectorModel):
        pass

    def quarter(*a, **k):
        return 0.25

    def three(*a, **k):
        return 3.0
    name = case['alg']
    cls = getattr(A if case.get('aam') else S, name)
    values = dict(shape_model_cls=[Shapes, partial(OrthoPDM, max_n_components=1)],
                  appearance_model_cls=[Appearances, partial(PCAVectorModel, max_n_components=2)], compute_error=[quarter, three])
    par = [a for a in sorted(values) if a in inspect.signature(cls.__init__).parameters]
    ims = training_images(dict(images=6))
    model = fam.aam(case['aam'], ims, scales=[0.5, 1.0], diagonal=30, max_shape_components=2, max_appearance_components=3) \
        if case.get('aam') else None
    if model is not None:
        # a model is fitted at its own reference shape, whatever images the fitter is trained with
        ref = model.reference_shape.points.copy()
        for im in ims:
            im.landmarks['PTS'].points[:2] += [[2.0, -1.0], [0.0, 3.0]]
            im.landmarks['PTS'].points[...] = (im.landmarks['PTS'].points - 20) * 1.1 + 20
    extra = dict((a, v) for a, v in dict(alpha=1.0, alpha2=1.0, variance=0.99).items()
                 if a in inspect.signature(cls.__init__).parameters)
    for vals in itertools.product(*[[0, 1] for a in par]):
        # the second scale gets the other value
        os = [dict((a, values[a][v if j == 0 or case['form'] != 'list' else 1 - v]) for a, v in zip(par, vals)) for j in range(2)]
        algs = [partial(cls, **dict(o, **extra)) for o in os]
        msg = '%s %s' % (name, dict(zip(par, vals)))
        opt = dict(n_iterations=[2, 1], n_perturbations=3, verbose=True)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            np.random.seed(3)
            if model is not None:
                f = A.SupervisedDescentAAMFitter(ims, model, group='PTS', sd_algorithm_cls=algs if case['form'] == 'list' else algs[0], **opt)
            else:
                f = S.SupervisedDescentFitter(ims, group='PTS', sd_algorithm_cls=algs if case['form'] == 'list' else algs[0],
                                              scales=[0.5, 1.0], diagonal=30, patch_shape=[(7, 5), (5, 5)], **opt)
        ctx.trace()
        ctx.step()
        ctx.state(name, case.get('aam'), case['form'], vals)
        if model is not None:
            ctx.close(f.reference_shape.points, ref, 'reference', '%s: reference shape of the fitter' % msg)
            ctx.close(model.reference_shape.points, ref, 'reference', '%s: reference shape of the model' % msg)
        for j, (a, o) in enumerate(zip(f.algorithms, os)):
            for key, attr, k in (('shape_model_cls', 'shape_model', Shapes), ('appearance_model_cls', 'appearance_model', Appearances)):
                c = o.get(key)
                if c is None:
                    continue
                m = getattr(a, attr)
                if c is k:
                    ctx.check(isinstance(m, k), 'part', '%s: the %s of scale %d is a %s' % (msg, attr, j, type(m).__name__))
                else:
                    n = c.keywords['max_n_components']
                    ctx.check(getattr(m, 'n_active_components', None) == n and not isinstance(m, k), 'part',
                              '%s: the %s of scale %d has %s components, asked for %d' % (msg, attr, j, getattr(m, 'n_active_components', None), n))
        if 'compute_error' in par:
            got = re.findall(r'Training error -> mean: ([-0-9.naif]+), std: ([-0-9.naif]+), median: ([-0-9.naif]+)', out.getvalue())
            got = [(a, b, c.rstrip('.')) for a, b, c in got]
            want = [('%.4f' % e, '0.0000', '%.4f' % e) for j, n in enumerate(opt['n_iterations'])
                    for e in [os[j]['compute_error']()] * n]
            ctx.check(got == want or not got, 'part', '%s: printed training errors %s, the error measure gives %s' % (msg, got, want))
