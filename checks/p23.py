"""P23 - the dlib bridge preserves geometry and options.

dlib's trainer and predictors are replaced by scripted ones, so that everything
that crosses the bridge can be recorded; training and fitting over a bounded
space of configurations are then replayed through a reference transition system
(per scale: images, boxes, landmarks, options; predicted boxes handed on).
Conversions are enumerated over small boxes and point sets.  The real dlib is
used for small end-to-end cases.
"""
import itertools
import os
import shutil
import tempfile
import numpy as np
from vlib import fx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small geometries and bounded training configurations; every value crossing the bridge is '
             'recorded and replayed against a reference transition system')
RULE = ('boxes and point sets over a coordinate grid; options one (and two) at a time; scales x boxes x perturbations x references x '
        'channels x starting modes; a transition is one call across the bridge; a state is a distinct recorded value')
ASSUMPTIONS = ['coordinates reach dlib truncated to its integer grid', 'the scripted predictor answers as a function of the box']
CHUNK = 2
GRID = [-7., -3.4, 0., 1., 2.4, 3.9, 17.]
OPTS = ['be_verbose', 'cascade_depth', 'feature_pool_region_padding', 'feature_pool_size', 'lambda_param', 'nu', 'num_test_splits',
        'num_trees_per_cascade_level', 'oversampling_amount', 'random_seed', 'tree_depth']
VALS = dict(be_verbose=True, cascade_depth=3, feature_pool_region_padding=0.4, feature_pool_size=37, lambda_param=0.3, nu=0.7,
            num_test_splits=6, num_trees_per_cascade_level=9, oversampling_amount=2, random_seed='abc', tree_depth=3)
# argument of DlibERT -> dlib's option, values
ARGS = dict(feature_padding=('feature_pool_region_padding', [0, 1, 0.5]), n_pixel_pairs=('feature_pool_size', [40, 55, 70]),
            distance_prior_weighting=('lambda_param', [0.2, 0.6, 0.35]), regularisation_weight=('nu', [0.3, 0.8, 0.5]),
            n_split_tests=('num_test_splits', [3, 5, 8]), n_trees=('num_trees_per_cascade_level', [2, 4, 7]),
            n_dlib_perturbations=('oversampling_amount', [1, 2, 3]), n_tree_levels=('tree_depth', [2, 3, 4]),
            n_iterations=('cascade_depth', [1, 2, 3]))
DEFAULT = dict(feature_padding=0, n_pixel_pairs=400, distance_prior_weighting=0.1, regularisation_weight=0.1, n_split_tests=20,
               n_trees=500, n_dlib_perturbations=1, n_tree_levels=5)


def BOUNDS(tier):
    return dict(grid=GRID, scales=3, perturbations=3, images=3)


def cases(tier):
    out = [dict(m='boxes'), dict(m='points', n=1), dict(m='points', n=2), dict(m='options'), dict(m='pixels')]
    S = [[1.0], [0.5], [0.5, 1.0], [1.0, 0.5], [0.5, 0.5]] + [[0.5, 0.75, 1.0]]
    for s in S:
        for p in (1, 2, 3):
            for boxes in (None, 1, 2):
                out.append(dict(m='train', scales=s, pert=p, boxes=boxes))
        for ref in ('diag', 'none', 'box', 'shape'):
            out.append(dict(m='train', scales=s, pert=2, boxes=None, ref=ref))
            for z in (1, 2, 3, 4):
                out.append(dict(m='train', scales=s, pert=1, boxes=2, ref=ref, sizes=z))
                if len(s) == 2:
                    out.append(dict(m='train', scales=[0.35, 1.0] if s[0] < 1 else [0.7, 0.85], pert=1, boxes=2, ref=ref, sizes=z))
        for ch in (3, 4):
            out.append(dict(m='train', scales=s, pert=1, boxes=None, channels=ch))
        out.append(dict(m='train', scales=s, pert=1, boxes=None, edge=1))
        out.append(dict(m='train', scales=s, pert=2, boxes=None, group=1))
    for a in sorted(ARGS):
        for s in S:
            out.append(dict(m='train', scales=s, pert=1, boxes=None, args=[a], per_scale=0))
            out.append(dict(m='train', scales=s, pert=1, boxes=None, args=[a], per_scale=1))
    for a, b in itertools.combinations(sorted(ARGS), 2):
        out.append(dict(m='train', scales=[0.5, 1.0], pert=1, boxes=None, args=[a, b], per_scale=1))
        if tier == 'thorough':
            for s in S:
                for ps in (0, 1):
                    out.append(dict(m='train', scales=s, pert=2, boxes=1, args=[a, b], per_scale=ps))
    for how in ('object', 'str', 'Path'):
        for ch in (1, 3, 4):
            out.append(dict(m='wrapper', how=how, channels=ch))
    for s in S:
        out.append(dict(m='real', scales=s))
    if tier == 'thorough':
        for s in S + [[2.0], [0.6, 0.6], [1.5, 0.5, 1.0]]:
            for p in (1, 2, 3):
                for boxes in (None, 1, 2):
                    for ref in (None, 'diag', 'none', 'box', 'shape'):
                        for ch in (1, 3):
                            for sizes in (0, 1):
                                out.append(dict(m='train', scales=s, pert=p, boxes=boxes, ref=ref, channels=ch, sizes=sizes, edge=sizes))
    return out


def trunc(x):
    return int(np.fix(x))


def isgrid(got, x):
    """got is x on the integer grid (either neighbour when x is integer up to rounding)"""
    return got == trunc(x) or (abs(x - round(x)) < 1e-6 and abs(got - x) < 1 + 1e-6)


def run(case, ctx):
    globals()['run_' + case['m']](case, ctx)


# -------------------------------------------------------------- conversions

def run_boxes(case, ctx):
    import dlib
    from menpo.shape import bounding_box
    from menpofit.dlib import conversion as C
    for y0, x0, y1, x1 in itertools.product(GRID, repeat=4):
        if y1 < y0 or x1 < x0:
            continue
        for pts in ([[y0, x0], [y1, x1]], [[y1, x0], [y0, x1]], [[y0, x0], [y1, x0], [y1, x1], [y0, x1]]):
            r = C.pointcloud_to_dlib_rect(fx.pc(pts))
            ctx.step()
            got = (r.top(), r.left(), r.bottom(), r.right())
            ctx.check(got == tuple(map(trunc, (y0, x0, y1, x1))), 'rect', 'box of %s became %s' % (pts, got))
        r = dlib.rectangle(left=trunc(x0), top=trunc(y0), right=trunc(x1), bottom=trunc(y1))
        b = C.dlib_rect_to_bounding_box(r)
        ctx.step()
        ctx.trace()
        ctx.close(b.points, bounding_box((trunc(y0), trunc(x0)), (trunc(y1), trunc(x1))).points, 'box', 'bounding box of %s' % r)
        r2 = C.pointcloud_to_dlib_rect(b)
        ctx.check(r2 == r, 'roundtrip', 'box %s came back as %s' % (r, r2))
        ctx.state(got)


def run_points(case, ctx):
    import dlib
    from menpofit.dlib import conversion as C
    for v in itertools.product(GRID + [-2.6], repeat=2 * case['n']):
        p = np.array(v).reshape(-1, 2)
        parts = C.pointcloud_to_dlib_parts(fx.pc(p))
        ctx.step()
        want = [(trunc(a), trunc(b)) for a, b in p]
        ctx.check([(q.y, q.x) for q in parts] == want, 'parts', 'points %s became %s' % (v, [(q.y, q.x) for q in parts]))
        d = dlib.full_object_detection(dlib.rectangle(0, 0, 9, 9), parts)
        back = C.dlib_full_object_detection_to_pointcloud(d)
        ctx.close(back.points, np.array(want, dtype=float), 'detection', 'landmarks of %s' % (v,))
        bb = fx.pc([[1., 2.], [7., 2.], [7., 13.], [1., 13.]])
        fo = C.bounding_box_pointcloud_to_dlib_fo_detection(bb, fx.pc(p))
        r = fo.rect
        ctx.check((r.top(), r.left(), r.bottom(), r.right()) == (1, 2, 7, 13), 'detection-box', 'box of a detection: %s' % r)
        ctx.check([(q.y, q.x) for q in fo.parts()] == want, 'detection', 'landmarks of a detection of %s' % (v,))
        ctx.trace()
        ctx.state(want)


def run_options(case, ctx):
    import dlib
    from menpofit.dlib import conversion as C
    from menpofit.dlib.algorithm import DlibAlgorithm

    def opts(names):
        o = dlib.shape_predictor_training_options()
        for n in names:
            setattr(o, n, VALS[n])
        return o

    def snap(o):
        return {n: getattr(o, n) for n in dir(o) if '__' not in n}
    for k in (0, 1, 2, len(OPTS)):
        for names in itertools.combinations(OPTS, k):
            o = opts(names)
            before = snap(o)
            c = C.copy_dlib_options(o)
            ctx.step()
            ctx.check(snap(c) == before and c is not o, 'options-copy', 'options %s were not all copied' % (names,))
            c.cascade_depth = 77
            ctx.check(snap(o) == before, 'options-copy', 'the copied options share state with the original')
            for it in (1, 4):
                a = DlibAlgorithm(o, n_iterations=it)
                want = dict(before, cascade_depth=it)
                ctx.check(snap(a.dlib_options) == want and a.n_iterations == it, 'options-algorithm',
                          'the options of an algorithm for %s' % (names,))
                for again in (it + 2, 2, 5, 1):
                    a.n_iterations = again
                    ctx.check(snap(a.dlib_options) == dict(before, cascade_depth=again) and a.n_iterations == again,
                              'options-algorithm', 'changing the iterations to %d' % again)
                ctx.check(snap(o) == before, 'options-algorithm', 'an algorithm changed the options it was given')
                ctx.trace()
            ctx.state(names)


def run_pixels(case, ctx):
    from menpo.image import Image
    from menpofit.dlib import conversion as C
    for ch in (1, 3, 4, 6):
        for shape in ((3, 5), (7, 2)):
            p = fx.pixels(shape, 1, ch)
            im = Image(p.copy())
            got = C.image_to_dlib_pixels(im)
            ctx.step()
            ctx.trace()
            want = grid_pixels(p)
            ctx.check(got.dtype == np.uint8 and got.shape == want.shape and np.abs(got.astype(int) - want).max() <= 1, 'pixels',
                      '%d channels of %s became %s %s' % (ch, shape, got.shape, got.dtype))
            ctx.check(np.array_equal(im.pixels, p), 'pixels', 'the image was changed')
            ctx.state(got)


def grid_pixels(p):
    """(h, w) or (h, w, 3) integers; of other channel numbers only the first is used"""
    p = np.round(p * 255).astype(int)
    return np.moveaxis(p, 0, -1) if len(p) == 3 else p[0]


def dlib_pixels(im):
    """8 bit pixels as menpo makes them (it truncates), checked by the conversion cases"""
    from menpo.image import Image
    p = im.pixels if im.n_channels in (1, 3) else im.pixels[:1]
    return np.array(Image(p).as_PILImage())


# -------------------------------------------------- scripted dlib

class FakeModel(object):
    """answers as a function of the box"""
    def __init__(self, k, n, log):
        self.k, self.n, self.log = k, n, log

    def __call__(self, pix, rect):
        import dlib
        r = (rect.top(), rect.left(), rect.bottom(), rect.right())
        self.log.append(('predict', self.k, np.array(pix, copy=True), r))
        return dlib.full_object_detection(rect, [dlib.point(int(x), int(y)) for y, x in answer(self.k, self.n, r)])


def answer(k, n, r):
    """integer landmarks (y, x) predicted in box r by model k"""
    u = fx.base_points(n)
    u = (u - u.min(0)) / (u.max(0) - u.min(0))
    lo, hi = np.array(r[:2], float), np.array(r[2:], float)
    p = lo + (0.08 * (k + 1) + 0.85 * u) * (hi - lo) + [0.6 * k, -0.4]
    return np.floor(p).astype(int)


class Scripted(object):
    def __enter__(self):
        import menpofit.dlib.algorithm as A
        self.log, self.A = [], A
        self.saved = A.dlib.train_shape_predictor
        self.count = 0

        def train(images, detections, options):
            self.log.append(('train', [np.array(i, copy=True) for i in images],
                             [[((d.rect.top(), d.rect.left(), d.rect.bottom(), d.rect.right()), [(p.y, p.x) for p in d.parts()])
                               for d in ds] for ds in detections],
                             {n: getattr(options, n) for n in dir(options) if '__' not in n}))
            self.count += 1
            return FakeModel(self.count - 1, 6, self.log)
        A.dlib.train_shape_predictor = train
        return self

    def __exit__(self, *a):
        self.A.dlib.train_shape_predictor = self.saved


# ---------------------------------------------------------------- training

def images(case):
    ims = []
    for k in range(3):
        im = fx.make_image(k, n_channels=case.get('channels', 1))
        if case.get('sizes') and k == 1:
            im = im.rescale(1.5)
        if case.get('sizes') and k == 2:
            p = im.landmarks['PTS'].points
            im = im.crop(np.maximum(p.min(0) - case['sizes'], 0), p.max(0) + 1 + 2 * case['sizes'], constrain_to_boundary=True)
        if case.get('edge'):
            p = im.landmarks['PTS'].points
            im = im.crop(np.maximum(p.min(0) - 1, 0), p.max(0) + 2, constrain_to_boundary=True)
        if case.get('group'):
            q = im.landmarks['PTS'].copy()
            q.points[...] = q.points[::-1] * 0.9 + 2
            im.landmarks['AAA'] = q
        b = im.landmarks['PTS'].bounding_box()
        for j in range(case.get('boxes') or 0):
            c = b.copy()
            c.points[...] = (b.points - b.points.mean(0)) * (1 + 0.1 * j) + b.points.mean(0) + [0.7 * j, -0.9]
            im.landmarks['box_%d' % j] = c
        ims.append(im)
    return ims


def moved_box(i, gt, bb):
    """the i-th generated perturbation"""
    from menpo.shape import bounding_box
    p = bb.points
    lo, hi = p.min(0), p.max(0)
    d = (hi - lo) * [0.05 * ((i % 3) - 1), 0.04 * ((i % 4) - 1.5)]
    return bounding_box(lo + d, hi + 1.3 * d)


def bounds_of(points):
    return points.min(0), points.max(0)


def run_train(case, ctx):
    from menpofit.dlib import DlibERT
    from menpo.shape import bounding_box, mean_pointcloud
    ims = images(case)
    s = case['scales']
    n = len(s)
    kw = {}
    want_opts = [{} for _ in s]
    for a in case.get('args', []):
        opt, vals = ARGS[a]
        if case['per_scale']:
            v = vals[:n]
            kw[a] = list(v)
        elif a == 'n_iterations':
            v = [2] * n
            kw[a] = 2 * n
        else:
            v = [vals[-1]] * n
            kw[a] = vals[-1]
        for w, x in zip(want_opts, v):
            w[opt] = x
    for a, d in DEFAULT.items():
        for w in want_opts:
            w.setdefault(ARGS[a][0], d)
    if 'n_iterations' not in kw:
        kw['n_iterations'] = [3, 2, 4][:n]
        for w, x in zip(want_opts, kw['n_iterations']):
            w['cascade_depth'] = x
    gt = [i.landmarks['PTS'] for i in ims]
    ref = case.get('ref')
    mean_box = mean_pointcloud([g.bounding_box() for g in gt])
    if ref == 'box':
        given = bounding_box(*bounds_of(gt[1].points * 0.8))
        kw['reference_shape'] = given
        want_ref = given.points.copy()
    elif ref == 'shape':
        given = gt[1].copy()
        given.points[...] = given.points * 0.8
        kw['reference_shape'] = given
        want_ref = given.bounding_box().points
    elif ref == 'none':
        want_ref = mean_box.points
    else:
        d = 40 if ref is None else 26.
        kw['diagonal'] = d
        want_ref = mean_box.points * (d / np.linalg.norm(mean_box.points.max(0) - mean_box.points.min(0)))
    if case.get('boxes'):
        kw['bounding_box_group_glob'] = 'box_*'
    made = []

    def perturb(g, b):
        out = moved_box(len(made), g, b)
        made.append((g.points.copy(), b.points.copy(), out))
        return out
    with Scripted() as S:
        f = DlibERT([i.copy() for i in ims], group='PTS', scales=s if n > 1 else s[0], n_perturbations=case['pert'],
                    perturb_from_gt_bounding_box=perturb, **kw)
        trains = [e for e in S.log if e[0] == 'train']
        log = list(S.log)
        del S.log[:]
        ctx.step()
        ctx.close(f.reference_shape.bounding_box().points, fx.pc(want_ref).bounding_box().points, 'reference', 'reference box', atol=1e-9)
        if not ctx.check(len(trains) == n, 'trainings', '%d trainings for %d scales' % (len(trains), n)):
            return
        refbb = fx.pc(want_ref).bounding_box()
        # reference images at the normalised size
        norm = []
        for im in ims:
            t = im.copy()
            t.landmarks['ref_bb'] = t.landmarks['PTS'].bounding_box()
            norm.append(t.rescale_to_pointcloud(refbb, group='ref_bb'))
        # boxes at the normalised size
        boxes, q = [], 0
        for im in norm:
            bs = []
            (l0, l1) = im.bounds()
            src = [im.landmarks['PTS'].bounding_box()] if not case.get('boxes') else \
                [im.landmarks['box_%d' % j].bounding_box() for j in range(case['boxes'])]
            for b in src:
                for _ in range(case['pert']):
                    if not ctx.check(q < len(made), 'perturbations', 'too few perturbations were generated'):
                        return
                    ctx.close(made[q][1], b.points, 'perturbed-box', 'box given to the perturbation', atol=1e-6)
                    bs.append(np.clip(made[q][2].points, l0, l1))
                    q += 1
                if case.get('boxes'):
                    bs.append(np.clip(b.points, l0, l1))
            boxes.append(bs)
        ctx.check(q == len(made), 'perturbations', '%d perturbations instead of %d' % (len(made), q))
        # per scale
        it = iter(log)
        cur = boxes
        for j in range(n):
            e = next(it)
            if not ctx.check(e[0] == 'train', 'order', 'scale %d: prediction before training' % j):
                return
            _, pix, dets, opts = e
            ctx.step()
            ctx.trace()
            for k, v in want_opts[j].items():
                ctx.check(np.isclose(opts[k], v), 'option', 'scale %d: option %s is %s instead of %s' % (j, k, opts[k], v))
            ctx.check(opts['be_verbose'] is False, 'option', 'scale %d: verbose training' % j)
            sc = [im.rescale(s[j], return_transform=True) if s[j] != 1 else (im, None) for im in norm]
            inv = [(lambda p: p) if t is None else t.pseudoinverse().apply for _, t in sc]
            fwd = [(lambda p: p) if t is None else t.apply for _, t in sc]
            ctx.check(len(dets) == len(pix) == len(ims), 'images', 'scale %d: %d images' % (j, len(pix)))
            nxt = []
            for i, (im, _) in enumerate(sc):
                w = grid_pixels(im.pixels)
                ctx.check(pix[i].shape == w.shape and np.abs(pix[i].astype(int) - w).max() <= 1, 'image', 'scale %d: image %d' % (j, i))
                g = im.landmarks['PTS'].points
                if not ctx.check(len(dets[i]) == len(cur[i]), 'boxes', 'scale %d: %d boxes of image %d instead of %d' % (
                        j, len(dets[i]), i, len(cur[i]))):
                    return
                row = []
                for (r, parts), b in zip(dets[i], cur[i]):
                    b = inv[i](b)
                    lo, hi = bounds_of(b)
                    ctx.check(all(isgrid(x, y) for x, y in zip(r, list(lo) + list(hi))), 'training-box',
                              'scale %d image %d: box %s instead of %s' % (j, i, r, (lo, hi)))
                    ctx.check(len(parts) == len(g) and all(isgrid(a, c) for pp, gg in zip(parts, g) for a, c in zip(pp, gg)),
                              'training-landmarks', 'scale %d image %d: landmarks %s instead of %s' % (j, i, parts, g.tolist()))
                    p = answer(j, 6, r).astype(float)
                    lo, hi = bounds_of(p)
                    row.append(fwd[i](bounding_box(lo, hi).points))
                    ctx.state(r, parts)
                nxt.append(row)
            for i in range(len(ims)):
                for r, _ in dets[i]:
                    e = next(it, None)
                    ctx.check(e is not None and e[0] == 'predict' and e[1] == j and e[3] == r and np.array_equal(e[2], pix[i]),
                              'predict',
                              'scale %d image %d: the boxes of the next scale are not the predictions from the training boxes' % (j, i))
            cur = nxt
        ctx.check(next(it, None) is None, 'order', 'more calls than expected')
        # fitting with the scripted models
        for t in range(2):
            test = fx.make_image(7 + t, n_channels=case.get('channels', 1))
            tg = fx.pc(test.landmarks['PTS'].points)
            for mode in ('bb', 'shape'):
                start = tg.bounding_box() if mode == 'bb' else fx.pc(tg.points + [1.2, -0.8])
                fit_case(ctx, f, S, test, start, tg if t else None, mode, refbb, s)


def fit_case(ctx, f, S, test, start, gt, mode, refbb, s):
    del S.log[:]
    kw = dict(gt_shape=gt) if gt is not None else {}
    px = test.pixels.copy()
    sp = start.points.copy()
    res = (f.fit_from_bb if mode == 'bb' else f.fit_from_shape)(test, start, **kw)
    ctx.check(np.array_equal(px, test.pixels) and np.array_equal(sp, start.points), 'input', 'the inputs of a fit were changed')
    log = list(S.log)
    ctx.step()
    ctx.trace()
    n = len(s)
    if not ctx.check(len(log) == n, 'fit-calls', '%d predictions for %d scales' % (len(log), n)):
        return
    im = test.copy()
    im.landmarks['start'] = start.bounding_box()
    im, t0 = im.rescale_to_pointcloud(refbb, group='start', return_transform=True)
    back0 = t0.apply
    cur = im.landmarks['start'].points
    want = []
    for j in range(n):
        si, t = im.rescale(s[j], return_transform=True) if s[j] != 1 else (im, None)
        inv = (lambda p: p) if t is None else t.pseudoinverse().apply
        fwd = (lambda p: p) if t is None else t.apply
        lo, hi = bounds_of(inv(cur))
        _, k, pix, r = log[j]
        ctx.check(k == j, 'fit-model', 'scale %d used the model of scale %d' % (j, k))
        w = grid_pixels(si.pixels)
        ctx.check(pix.shape == w.shape and np.abs(pix.astype(int) - w).max() <= 1, 'fit-image', 'scale %d: image' % j)
        ctx.check(all(isgrid(x, y) for x, y in zip(r, list(lo) + list(hi))), 'fit-box', 'scale %d: box %s instead of %s' % (j, r, (lo, hi)))
        p = answer(k, 6, r).astype(float)
        cur = fwd(p)
        want.append(back0(cur))
        ctx.state(r)
    # integer image sizes: the way back may be the transform of the rescale or an alignment of the boxes
    ctx.check(len(res.shapes) == n and res.n_iters == n, 'fit-shapes', '%d shapes of %d scales' % (len(res.shapes), n))
    for a, b in zip(res.shapes, want):
        ctx.close(a.points, b, 'fit-shape', 'shape of a fit (%s)' % mode, atol=1e-6)
    ctx.close(res.final_shape.points, want[-1], 'fit-final', 'final shape (%s)' % mode, atol=1e-6)
    ctx.check(res.initial_shape is None, 'fit-initial', 'initial shape')
    if gt is None:
        ctx.check(res.gt_shape is None, 'fit-gt', 'ground truth')
    else:
        ctx.close(res.gt_shape.points, gt.points, 'fit-gt', 'ground truth')


# --------------------------------------------------------------- real dlib

def run_wrapper(case, ctx):
    import dlib
    from pathlib import Path
    from menpofit.dlib import DlibWrapper, conversion as C
    ims = [fx.make_image(k, n_channels=case['channels']) for k in range(3)]
    o = dlib.shape_predictor_training_options()
    o.cascade_depth, o.tree_depth, o.num_trees_per_cascade_level, o.feature_pool_size, o.oversampling_amount = 2, 2, 5, 30, 1
    o.num_threads = 1
    pix = [dlib_pixels(i) for i in ims]
    det = []
    for i in ims:
        p = np.fix(i.landmarks['PTS'].points).astype(int)
        lo, hi = bounds_of(p)
        det.append([dlib.full_object_detection(dlib.rectangle(int(lo[1]), int(lo[0]), int(hi[1]), int(hi[0])),
                                               [dlib.point(int(x), int(y)) for y, x in p])])
    model = dlib.train_shape_predictor(pix, det, o)
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, 'm.dat')
        model.save(path)
        w = DlibWrapper(dict(object=model, str=path, Path=Path(path))[case['how']])
        for k in (1, 6):
            im = fx.make_image(k, n_channels=case['channels'])
            g = fx.pc(im.landmarks['PTS'].points)
            for dd in ([0, 0], [2.3, -1.6], [-3, 4]):
                bb = fx.pc(g.points + dd).bounding_box()
                # which of the neighbouring grid points is taken is up to the conversion (checked on its own)
                ans = model(dlib_pixels(im), C.pointcloud_to_dlib_rect(bb))
                want = np.array([[p.y, p.x] for p in ans.parts()], float)
                for res in (w.fit_from_bb(im, bb), w.fit_from_bb(im, bb, gt_shape=g), w.fit_from_shape(im, fx.pc(g.points + dd)),
                            w.fit_from_shape(im, fx.pc(g.points + dd), gt_shape=g)):
                    ctx.step()
                    ctx.trace()
                    ctx.close(res.final_shape.points, want, 'wrapper', 'prediction of the wrapped model', atol=1e-9)
                    ctx.check(res.initial_shape is None, 'wrapper', 'initial shape')
                    ctx.check(res.gt_shape is None or np.array_equal(res.gt_shape.points, g.points), 'wrapper', 'ground truth')
                    ctx.close(res.image.pixels, im.pixels, 'wrapper', 'image')
                ctx.state(want)
        ctx.raises(ValueError, lambda: DlibWrapper(os.path.join(d, 'nowhere.dat')), 'missing-model', 'a missing model file')
    finally:
        shutil.rmtree(d)


def run_real(case, ctx):
    """real training: the trained models are those dlib trains from the recorded data"""
    import dlib
    import menpofit.dlib.algorithm as A
    from menpofit.dlib import DlibERT, conversion as C
    ims = images({})
    s = case['scales']
    n = len(s)
    real, rec = A.dlib.train_shape_predictor, []

    def train(images, detections, options):
        rec.append(([np.array(i) for i in images], [[(d.rect, list(d.parts())) for d in ds] for ds in detections], {
            k: getattr(options, k) for k in dir(options) if '__' not in k}))
        return real(images, detections, options)
    A.dlib.train_shape_predictor = train
    try:
        np.random.seed(0)
        f = DlibERT(ims, group='PTS', scales=s if n > 1 else s[0], n_perturbations=2, n_iterations=[2] * n, n_trees=5, n_tree_levels=2,
                    n_pixel_pairs=30, n_split_tests=3, diagonal=40)
    finally:
        A.dlib.train_shape_predictor = real
    if not ctx.check(len(rec) == n == len(f.algorithms), 'trainings', '%d trainings for %d scales' % (len(rec), n)):
        return
    models = []
    for pix, dets, opts in rec:
        o = dlib.shape_predictor_training_options()
        for k, v in opts.items():
            setattr(o, k, v)
        models.append(real(pix, [[dlib.full_object_detection(r, p) for r, p in ds] for ds in dets], o))
    for k in (1, 7):
        im = fx.make_image(k)
        g = fx.pc(im.landmarks['PTS'].points)
        res = f.fit_from_bb(im, g.bounding_box())
        res2 = f.fit_from_shape(im, g)
        ctx.step(2)
        ctx.trace()
        t = im.copy()
        t.landmarks['start'] = g.bounding_box()
        t, t0 = t.rescale_to_pointcloud(f.reference_shape, group='start', return_transform=True)
        cur = t.landmarks['start'].points
        for j in range(n):
            si, tr = t.rescale(s[j], return_transform=True) if s[j] != 1 else (t, None)
            ans = models[j](dlib_pixels(si), C.pointcloud_to_dlib_rect(fx.pc(tr.pseudoinverse().apply(cur) if tr else cur)))
            p = np.array([[q.y, q.x] for q in ans.parts()], float)
            cur = tr.apply(p) if tr else p
            for r in (res, res2):
                ctx.close(r.shapes[j].points, t0.apply(cur), 'real-fit', 'scale %d of a real fit' % j, atol=1e-6)
            ctx.state(k, j, p)
