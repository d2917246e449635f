"""P02 - fitting and training leave the caller's data untouched.

Every public operation (training, incremental training, fitting in both ways,
packaged fitting) is executed with a complete snapshot of everything the caller
passed; then it is executed again once for every point at which it accesses an
image or computes features, with an exception injected there, and the snapshots
are compared after each of these aborted histories as well.
"""
import numpy as np

from vlib import fx, fam, fitters
from vlib.fitters import Run, same
from p01 import Faults, Abort

LEVEL = 'fault_enumeration'
TECHNIQUE = ('exhaustive fault injection: every operation is run to completion and once per image access / feature call / '
             'optimiser call with an exception raised there; complete snapshots of the caller\'s data are compared')
RULE = ('operations (all models, fitters, increments, both ways of starting a fit, packaged fits) x image class x all '
        'fault points; an evaluation counts when the fault was reached (or the operation completed)')
ASSUMPTIONS = ['faults are exceptions raised by menpo image operations, feature functions or optimisers']
CHUNK = 1


def BOUNDS(tier):
    return dict(fault_points='all' if tier != 'quick' else 'all of a fit, the first 60 of a training')


SIZES = ['std', 'raw']


LISTS = fam.AAM_KINDS + fam.ATM_KINDS + ['clm', 'uni', 'aps', 'lk', 'sdm', 'sdaam', 'ert']


def cases(tier):
    lim = 60 if tier == 'quick' else 400
    for k in fam.AAM_KINDS + fam.ATM_KINDS + ['clm', 'uni', 'aps', 'lk', 'sdm', 'sdaam', 'ert']:
        for size in SIZES:
            for cls in ('Image', 'MaskedImage'):
                yield dict(kind='train', what=k, size=size, cls=cls, lim=lim)
    names = fitters.iterative(tier) + fitters.cascaded(tier)
    if tier == 'quick':
        names = [n for n in names if not n.startswith('lk:DifferentiableAlignmentSim')]
    for n in names:
        yield dict(kind='fit', fam=n)
    for n in ('aam', 'paam', 'atm', 'clm', 'uni', 'aps', 'lk', 'sdm', 'psdm', 'sdaam'):
        yield dict(kind='feature', fam=n)
    for pre in ('default', 'none'):
        yield dict(kind='packaged', pre=pre)
    yield dict(kind='helpers')
    for what in LISTS:
        for form in ('one', 'per_scale'):
            yield dict(kind='lists', what=what, form=form)


# ---------------------------------------------------------------- snapshots
def snap(o):
    """a complete description of the caller's data"""
    from menpo.image import Image
    from menpo.shape import PointCloud
    if isinstance(o, Image):
        out = [type(o).__name__, o.pixels.dtype.str, o.pixels.copy(), str(o.path if hasattr(o, 'path') else None),
               [(g, snap(o.landmarks[g])) for g in o.landmarks.group_labels]]
        if hasattr(o, 'mask') and not isinstance(o.mask, np.ndarray):
            out.append(o.mask.pixels.copy())
        return out
    if isinstance(o, PointCloud):
        out = [type(o).__name__, o.points.dtype.str, o.points.copy()]
        if hasattr(o, 'trilist'):
            out.append(o.trilist.copy())
        if hasattr(o, 'landmarks') and o.has_landmarks:
            out.append([(g, snap(o.landmarks[g])) for g in o.landmarks.group_labels])
        return out
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [snap(x) for x in o]
    if isinstance(o, dict):
        return ['dict'] + [[str(k), snap(o[k])] for k in sorted(o, key=str)]
    if isinstance(o, np.ndarray):
        return [o.dtype.str, o.copy()]
    if callable(o) or o is None or isinstance(o, type):
        return ['obj', id(o)]
    return ['val', repr(o)]


def diff(a, b, path=''):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            names = [x[0] if isinstance(x, (tuple, list)) and x and isinstance(x[0], str) else '.' for x in b]
            return '%s: %d entries became %d (%s)' % (path, len(a), len(b), names)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s/%s' % (path, i))
            if d:
                return d
        return ''
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or not np.array_equal(a, b):
            return '%s: array changed' % path
        return ''
    return '' if type(a) is type(b) and a == b else '%s: %r became %r' % (path, a, b)


class Watch(object):
    def __init__(self, **data):
        self.data = data
        self.before = {k: snap(v) for k, v in data.items()}

    def check(self, ctx, key, msg):
        for k, v in self.data.items():
            d = diff(self.before[k], snap(v))
            if d:
                ctx.bad(key, '%s: caller\'s %s changed: %s' % (msg, k, d))
                self.before[k] = snap(v)
                return False
        return True


def as_cls(im, cls):
    if cls == 'MaskedImage':
        im = im.as_masked()
    im.landmarks['other'] = fx.pc(im.landmarks['PTS'].points[:3] + 2.)
    return im


def raising(ctx, watch, op, key, msg, lim=10 ** 6, step=1):
    """run op() with an exception at every image access"""
    n = 1
    while n <= lim:
        with Faults(n) as f:
            try:
                op()
                done = f.k < n
            except Abort:
                done = False
            except (np.linalg.LinAlgError, ValueError, NotImplementedError, TypeError):
                done = f.k < n
        ctx.step()
        watch.check(ctx, key, '%s, exception at image access %d' % (msg, n))
        ctx.state(msg, 'fault', n)
        if done:
            break
        n += step
    return n


# ---------------------------------------------------------------- training
def train_op(what, ims, opts):
    import menpofit.aam as A
    import menpofit.atm as T
    if what in fam.AAM_KINDS:
        return lambda: getattr(A, what)(ims, **opts)
    if what in fam.ATM_KINDS:
        return lambda: getattr(T, what)(opts['template'], opts['shapes'], **{k: v for k, v in opts.items() if k not in (
            'template', 'shapes')})
    if what == 'clm':
        return lambda: fam.clm(ims, **opts)
    if what == 'uni':
        return lambda: fam.unified(ims, **opts)
    if what == 'aps':
        return lambda: fam.aps(ims, can_be_incremented=True, **opts)
    if what == 'lk':
        return lambda: fam.lk_fitter('InverseCompositional', 'SSD', ims[0], **opts)
    if what == 'sdm':
        return lambda: fam.sdm('NonParametricNewton', ims, **opts)
    if what == 'sdaam':
        return lambda: fam.sd_aam('MeanTemplateNewton', opts['aam'], ims, **{k: v for k, v in opts.items() if k != 'aam'})
    return lambda: fam.dlib_ert(ims, **opts)


def k_train(case, ctx):
    from menpo.feature import no_op
    what = case['what']
    n = {'uni': 8, 'aps': 14}.get(what, 4)
    ims = [as_cls(i, case['cls']) for i in fam.images(n)]
    o = dict(group='PTS', scales=[0.5, 1.0])
    if case['size'] == 'std':
        o['diagonal'] = 30
    else:
        # the images are used as they are at the last scale: the mean shape is the
        # reference, or every image already has the size of the given reference shape
        o['diagonal'] = None
        for i in ims:
            i.landmarks['PTS'].points[...] = ims[0].landmarks['PTS'].points
            if what == 'sdm':
                o['reference_shape'] = ims[0].landmarks['PTS'].copy()
    if what in fam.AAM_KINDS + fam.ATM_KINDS:
        o.update(holistic_features=[no_op, no_op], max_shape_components=[2, 3])
        if fam.needs_patch(what):
            o['patch_shape'] = [(7, 7), (7, 5)]
        if what in fam.AAM_KINDS:
            o['max_appearance_components'] = [2, 2]
        else:
            o.update(template=ims[0], shapes=[i.landmarks['PTS'].copy() for i in ims])
    elif what in ('clm', 'uni', 'aps'):
        o.update(holistic_features=[no_op, no_op], patch_shape=[(9, 9), (9, 9)])
    elif what == 'sdm':
        o.update(patch_shape=[(7, 7), (5, 7)], n_iterations=[1, 2], patch_features=[no_op, no_op], n_perturbations=2)
    elif what == 'sdaam':
        o = dict(group='PTS', n_iterations=[1, 2], n_perturbations=2)
        if case['size'] == 'raw':
            return
        o['aam'] = fitters.shared_model('HolisticAAM')
    elif what == 'ert':
        o.update(n_iterations=[1, 2], n_perturbations=2, n_trees=[2, 2])
        if case['size'] == 'std':
            o['diagonal'] = 60
    watch = Watch(images=ims, list_of_images=[id(i) for i in ims] and ims, options={k: v for k, v in o.items() if k != 'aam'})
    msg = '%s trained on %s (%s)' % (what, case['cls'], case['size'])
    op = train_op(what, ims, o)
    m = None
    if case['size'] == 'raw' and what in fam.AAM_KINDS + fam.ATM_KINDS + ['clm', 'uni', 'aps']:
        # equal shapes: no shape variation to learn from
        for k, i in enumerate(ims):
            i.landmarks['PTS'].points[...] = fx.deform(fx.base_points(), k)
        if 'shapes' in o:
            o['shapes'] = [i.landmarks['PTS'].copy() for i in ims]
        watch = Watch(images=ims, options={k: v for k, v in o.items() if k != 'aam'})
        op = train_op(what, ims, o)
    m = op()
    ctx.step()
    ctx.state(msg)
    watch.check(ctx, 'train', msg)
    # incremental training and fits with the model leave the training data alone
    if hasattr(m, 'increment') and what != 'sdm' and what != 'sdaam':
        more = [as_cls(fx.make_image(20 + k), case['cls']) for k in range(3)]
        shapes = [i.landmarks['PTS'].copy() for i in more]
        w2 = Watch(images=more, shapes=shapes)
        inc = (lambda: m.increment(more[0], shapes, group='PTS')) if what in fam.ATM_KINDS else (lambda: m.increment(more, group='PTS'))
        ok = True
        try:
            inc()
        except NotImplementedError:
            ok = False
        w2.check(ctx, 'increment', msg + ', incremented')
        watch.check(ctx, 'increment', msg + ', incremented')
        if ok and case['size'] == 'std':
            m2 = [m]

            def again():
                import copy
                m3 = copy.deepcopy(m2[0])
                return m3.increment(more[0], shapes, group='PTS') if what in fam.ATM_KINDS else m3.increment(more, group='PTS')
            raising(ctx, w2, again, 'increment-fault', msg + ', incremented', lim=case['lim'], step=3)
    if what in ('lk', 'sdm', 'sdaam', 'ert') or case['size'] == 'std':
        name = {'clm': 'clm:RegularisedLandmarkMeanShift', 'uni': 'uni:ProjectOutRegularisedLandmarkMeanShift',
                'aps': 'aps:tree:Forward'}.get(what)
        if what in fam.AAM_KINDS:
            name = 'aam:%s:WibergInverseCompositional' % what
        elif what in fam.ATM_KINDS:
            name = 'atm:%s:InverseCompositional' % what
        f = fitters.fitter(name, m, **({} if what in ('aps', 'uni') else dict(n_shape=2))) if name else m
        if what in fam.AAM_KINDS:
            f = fam.aam_fitter(m, 'WibergInverseCompositional')
        im, gt, ini = fam.test_image()
        if what == 'ert':
            fit = lambda: f.fit_from_bb(im, ini.bounding_box())
        else:
            fit = lambda: f.fit_from_shape(im, ini, max_iters=2)
        try:
            fit()
        except (np.linalg.LinAlgError, TypeError):
            pass
        watch.check(ctx, 'fit-training-data', msg + ', then fitting')
    raising(ctx, watch, op, 'train-fault', msg, lim=case['lim'], step=1 if case['size'] == 'std' else 3)


# ---------------------------------------------------------------- fitting
def fit_inputs(cls, k=7):
    im = as_cls(fx.make_image(k), cls)
    gt = im.landmarks['PTS'].copy()
    ini = fx.pc(gt.points + [1.0, -0.8])
    return im, gt, ini


def check_fit(ctx, f, name, sd, faults=True, tag=''):
    costs = fitters.has_costs(name)
    for cls in ('Image', 'MaskedImage'):
        for way in ('shape', 'bb'):
            for with_gt in (True, False):
                im, gt, ini = fit_inputs(cls)
                start = ini if way == 'shape' else ini.bounding_box()
                mi = [2, 1]
                kw = dict() if sd else dict(max_iters=mi, return_costs=costs)
                if with_gt:
                    kw['gt_shape'] = gt
                w = Watch(image=im, gt=gt, start=start, options=kw)
                go = lambda: (f.fit_from_shape if way == 'shape' else f.fit_from_bb)(im, start, **kw)
                msg = '%s%s from %s of %s%s' % (name, tag, way, cls, ' with ground truth' if with_gt else '')
                try:
                    r = go()
                except (np.linalg.LinAlgError, ValueError):
                    r = None
                ctx.step()
                ctx.state(msg)
                w.check(ctx, 'fit', msg)
                if r is not None:
                    str(r), r.displacements(), r.to_result()
                    w.check(ctx, 'fit', msg + ' reading the result')
                    before = Run(r).numbers()
                    pix = r.image.pixels.copy()
                    plain = r.to_result()
                    ip = None if plain.image is None else plain.image.pixels.copy()
                    im.pixels[...] = im.pixels * 0.5 + 1.
                    for g in list(im.landmarks.group_labels):
                        im.landmarks[g].points[...] += 3.
                    d = same(before, Run(r).numbers())
                    ctx.check(not d, 'result-alias', '%s: result changed with the image: %s' % (msg, d))
                    ctx.check(np.array_equal(pix, r.image.pixels), 'result-alias', '%s: image of the result changed' % msg)
                    ctx.check(ip is None or np.array_equal(ip, plain.image.pixels), 'result-alias', msg + ' plain result')
                    # changing what the result hands out does not reach the caller
                    im2, gt2, ini2 = fit_inputs(cls)
                if faults and cls == 'Image':
                    im, gt, ini = fit_inputs(cls)
                    start = ini if way == 'shape' else ini.bounding_box()
                    if with_gt:
                        kw['gt_shape'] = gt
                    w = Watch(image=im, gt=gt, start=start, options=kw)
                    n = raising(ctx, w, go, 'fit-fault', msg)
                    if n < 3:
                        ctx.bad('vacuous', '%s: %d fault points' % (msg, n))
                    # the optimiser of every scale fails
                    for j, alg in enumerate(f.algorithms):
                        def boom(*a, **k):
                            raise Abort()
                        alg.run = boom
                        try:
                            go()
                            ctx.bad('vacuous', '%s: optimiser %d not used' % (msg, j))
                        except Abort:
                            pass
                        except (np.linalg.LinAlgError, ValueError):
                            pass
                        finally:
                            del alg.run
                        ctx.step()
                        w.check(ctx, 'fit-fault', '%s, optimiser of scale %d raises' % (msg, j))


def k_fit(case, ctx):
    name = case['fam']
    kind = fitters.model_kind(name)
    f = fitters.fitter(name, fitters.shared_model(kind) if kind else None)
    check_fit(ctx, f, name, name.startswith('sd'))


# ------------------------------------------------------- failing features
class Feature(object):
    """identity feature that raises at call n"""
    n = 0
    k = 0

    def __call__(self, image):
        Feature.k += 1
        if Feature.k == Feature.n:
            raise Abort()
        return image.copy()

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


class RescalingFeature(Feature):
    def __call__(self, image):
        return Feature.__call__(self, image).rescale(0.9)


def k_feature(case, ctx):
    import p03
    for fns in ([Feature(), Feature()], [Feature(), RescalingFeature()], [RescalingFeature(), Feature()]):
        Feature.n = 0
        f = p03.build(case['fam'], fns)
        sd = 'sd' in case['fam']
        for way in ('shape', 'bb'):
            for with_gt in (True, False):
                for cls in ('Image', 'MaskedImage'):
                    n = 1
                    while True:
                        im, gt, ini = fit_inputs(cls)
                        start = ini if way == 'shape' else ini.bounding_box()
                        kw = {} if sd else dict(max_iters=[1, 1])
                        if with_gt:
                            kw['gt_shape'] = gt
                        w = Watch(image=im, gt=gt, start=start)
                        Feature.n, Feature.k = n, 0
                        reached = False
                        try:
                            (f.fit_from_shape if way == 'shape' else f.fit_from_bb)(im, start, **kw)
                        except Abort:
                            reached = True
                        except (np.linalg.LinAlgError, ValueError):
                            pass
                        ctx.step()
                        msg = '%s from %s of %s, feature call %d raises' % (case['fam'], way, cls, n)
                        w.check(ctx, 'feature-fault', msg)
                        ctx.state(msg, reached)
                        if not reached:
                            break
                        n += 1
                    if n == 1:
                        ctx.bad('vacuous', '%s: no feature call' % case['fam'])
                    Feature.n = 0


# ------------------------------------------------------- packaged fitters
def k_packaged(case, ctx):
    from menpofit.io import PickleWrappedFitter
    from menpofit.sdm import SupervisedDescentFitter
    ims = fam.images(4)
    kwargs = dict(fam.BASE, patch_shape=[(7, 7), (7, 7)], n_perturbations=2, n_iterations=[1, 1])
    extra = {} if case['pre'] == 'default' else dict(image_preprocess=None)
    bb_kw, sh_kw = {}, {}
    np.random.seed(0)
    w0 = Watch(images=ims, kwargs=kwargs, bb=bb_kw, sh=sh_kw)
    p = PickleWrappedFitter(SupervisedDescentFitter, [ims], kwargs, bb_kw, sh_kw, **extra)
    w0.check(ctx, 'packaged', 'packaging')
    p.algorithms = p.wrapped_fitter.algorithms
    for n_ch in (1, 3):
        if n_ch == 3 and case['pre'] == 'none':
            continue
        for way in ('shape', 'bb'):
            for with_gt in (True, False):
                im = fx.make_image(7, n_channels=n_ch)
                gt = im.landmarks['PTS'].copy()
                ini = fx.pc(gt.points + [1.0, -0.8])
                start = ini if way == 'shape' else ini.bounding_box()
                kw = dict(gt_shape=gt) if with_gt else {}
                w = Watch(image=im, gt=gt, start=start, kw=kw)
                go = lambda: (p.fit_from_shape if way == 'shape' else p.fit_from_bb)(im, start, **kw)
                msg = 'packaged fit (%s) from %s, %d channels' % (case['pre'], way, n_ch)
                r = go()
                ctx.step()
                ctx.state(msg, with_gt)
                w.check(ctx, 'packaged', msg)
                before = Run(r).numbers()
                pix = r.image.pixels.copy()
                im.pixels[...] = im.pixels * 0.5 + 1.
                ctx.check(np.array_equal(pix, r.image.pixels), 'packaged-result-alias', '%s: image of the result changed' % msg)
                d = same(before, Run(r).numbers())
                ctx.check(not d, 'packaged-result-alias', '%s: %s' % (msg, d))
                im.pixels[...] = (im.pixels - 1.) * 2
                w = Watch(image=im, gt=gt, start=start, kw=kw)
                raising(ctx, w, go, 'packaged-fault', msg)
    w0.check(ctx, 'packaged', 'packaged fits')


# ------------------------------------------------------- helper functions
def k_helpers(case, ctx):
    import menpofit.builder as B
    import menpofit.error as E
    import menpofit.fitter as F
    import menpofit.checks as K
    from menpo.feature import no_op
    ims = [as_cls(i, c) for i, c in zip(fam.images(4), ['Image', 'MaskedImage'] * 2)]
    shapes = [i.landmarks['PTS'] for i in ims]
    ref = shapes[0].copy()
    w = Watch(images=ims, shapes=shapes, ref=ref)
    frame = B.build_reference_frame(ref)
    wf = Watch(frame=frame)
    from menpofit.transform import DifferentiablePiecewiseAffine as PWA
    bb = shapes[1].bounding_box()
    ops = dict(
        compute_reference_shape=lambda: [B.compute_reference_shape(shapes, d) for d in (None, 20)],
        rescale=lambda: B.rescale_images_to_reference_shape(ims, 'PTS', ref),
        rescale_same=lambda: B.rescale_images_to_reference_shape(ims[:1], 'PTS', shapes[0]),
        normalization=lambda: B.normalization_wrt_reference_shape(ims, 'PTS', 30),
        features=lambda: B.compute_features(ims, no_op),
        scale=lambda: [B.scale_images(ims, s, return_transforms=t) for s in (0.5, 1.0, 1) for t in (True, False)],
        warp=lambda: B.warp_images(ims, shapes, frame, PWA),
        patches=lambda: B.extract_patches(ims, shapes, (5, 5)),
        frame=lambda: (B.build_reference_frame(ref), B.build_patch_reference_frame(ref, patch_shape=(5, 5))),
        densify=lambda: B.densify_shapes(shapes, frame, PWA), align=lambda: B.align_shapes(shapes),
        align_bb=lambda: F.align_shape_with_bounding_box(ref, bb),
        noisy=lambda: (F.noisy_shape_from_bounding_box(ref, bb), F.noisy_shape_from_shape(ref, shapes[1])),
        errors=lambda: [getattr(E, n)(shapes[0], shapes[1]) for n in (
            'euclidean_error', 'root_mean_square_error', 'euclidean_bb_normalised_error',
            'root_mean_square_bb_normalised_error')],
        statistics=lambda: E.compute_cumulative_error([0.3, 0.1, 0.2], [0.1, 0.2]))
    for n, op in ops.items():
        op()
        ctx.step()
        ctx.state(n)
        w.check(ctx, 'helper-' + n, n)
        wf.check(ctx, 'helper-' + n, n)


# ---------------------------------------------------------- option lists
def list_options(what, n):
    """every option that can be given per scale, as (option, value of one scale),
    for the trainer and for the fitters of its models"""
    import menpofit.aam as A
    import menpofit.atm as T
    import menpofit.lk as L
    import menpofit.sdm as S
    from menpofit.clm import CorrelationFilterExpertEnsemble
    from menpofit.modelinstance import OrthoPDM
    from menpo.feature import no_op
    o = {}
    fit = []
    if what not in ('ert', 'sdaam'):
        o['holistic_features'] = no_op
    if what in fam.AAM_KINDS + fam.ATM_KINDS:
        o.update(max_shape_components=3)
        if what in fam.AAM_KINDS or what == 'HolisticATM':
            o['shape_model_cls'] = OrthoPDM
        if fam.needs_patch(what):
            o['patch_shape'] = (7, 7)
        if what == 'PatchAAM':
            o['patch_normalisation'] = no_op
        if what in fam.AAM_KINDS:
            o['max_appearance_components'] = 3
            fit = [('aam', dict(n_shape=2, n_appearance=2, sampling=None))]
        else:
            fit = [('atm', dict(n_shape=2, sampling=None))]
    elif what == 'clm':
        o.update(patch_shape=(9, 9), expert_ensemble_cls=CorrelationFilterExpertEnsemble, max_shape_components=3,
                 shape_model_cls=OrthoPDM)
        fit = [('clm', dict(n_shape=2)), ('clm-asm', dict(n_shape=2))]
    elif what == 'uni':
        o.update(patch_shape=(9, 9), expert_ensemble_cls=CorrelationFilterExpertEnsemble, max_shape_components=3,
                 max_appearance_components=3)
        fit = [('uni', dict(n_shape=2, n_appearance=2, sampling=None))]
    elif what == 'aps':
        ug, t = fam.ring_tree()
        o.update(patch_shape=(5, 5), patch_normalisation=no_op, max_shape_components=3, n_appearance_components=8,
                 appearance_graph=ug, shape_graph=ug, deformation_graph=t)
        fit = [('aps', dict(n_shape=2, weight=200., sampling=None))]
    elif what == 'lk':
        pass
    elif what == 'sdm':
        o.update(patch_shape=(7, 7), patch_features=no_op, n_iterations=2, sd_algorithm_cls=fam.regularised(S.NonParametricNewton))
    elif what == 'sdaam':
        o.update(n_iterations=2, n_shape=2, n_appearance=2, sampling=None)
    elif what == 'ert':
        o.update(n_iterations=6, n_trees=2, n_tree_levels=2, n_pixel_pairs=20, n_split_tests=3, feature_padding=0,
                 distance_prior_weighting=0.1, regularisation_weight=0.1, n_dlib_perturbations=1)
    return o, fit


def k_lists(case, ctx):
    what, form = case['what'], case['form']
    ims = fam.images({'uni': 8, 'aps': 14}.get(what, 5))
    o, fit = list_options(what, 2)
    wrap = lambda d, n: {k: [v] if form == 'one' else [v] * n for k, v in d.items()}
    lists = wrap(o, 2)
    # with one-element lists the same objects are used again for other numbers of
    # scales, as a caller with an option dictionary would
    for scales in ([[0.5, 1.0], [0.5, 0.75, 1.0], [1.0]] if form == 'one' else [[0.5, 1.0]]):
        if what == 'sdaam' and len(scales) != 2:
            continue
        n = len(scales)
        opts = dict(lists, scales=list(scales))
        w = Watch(options=opts, images=ims)
        msg = '%s with %s lists for %d scales' % (what, form, n)
        np.random.seed(0)
        if what in fam.AAM_KINDS:
            m = fam.aam(what, ims, **opts)
        elif what in fam.ATM_KINDS:
            m = fam.atm(what, ims, **opts)
        elif what == 'clm':
            m = fam.clm(ims, **opts)
        elif what == 'uni':
            m = fam.unified(ims, **opts)
        elif what == 'aps':
            from menpofit.aps import GenerativeAPS
            m = GenerativeAPS(ims, group='PTS', diagonal=30, can_be_incremented=True, **opts)
        elif what == 'lk':
            m = fam.lk_fitter('InverseCompositional', 'SSD', ims[0], **opts)
        elif what == 'sdm':
            from menpofit.sdm import SupervisedDescentFitter
            m = SupervisedDescentFitter(ims, group='PTS', diagonal=30, n_perturbations=2, **opts)
        elif what == 'sdaam':
            opts.pop('scales')
            w = Watch(options=opts, images=ims)
            m = fam.sd_aam('MeanTemplateNewton', None, ims, **opts)
        else:
            m = fam.dlib_ert(ims, **opts)
        ctx.step()
        ctx.state(msg)
        w.check(ctx, 'option-lists', msg)
        fs = []
        for how, fo in fit:
            fo = wrap(fo, n)
            wf = Watch(options=fo)
            f = {'aam': lambda: fam.aam_fitter(m, 'WibergInverseCompositional', **fo),
                 'atm': lambda: fam.atm_fitter(m, 'InverseCompositional', **fo),
                 'clm': lambda: fam.gd_fitter(m, 'RegularisedLandmarkMeanShift', **fo),
                 'clm-asm': lambda: fam.gd_fitter(m, 'ActiveShapeModel', **fo),
                 'uni': lambda: fam.uni_fitter(m, fam.UNI_ALGS[0], **fo),
                 'aps': lambda: fam.aps_fitter(m, 'Inverse', **fo)}[how]()
            ctx.step()
            wf.check(ctx, 'option-lists', '%s, fitter %s' % (msg, how))
            w.check(ctx, 'option-lists', '%s, fitter %s' % (msg, how))
            fs.append((f, wf))
        if not fit:
            fs = [(m, w)]
        im, gt, ini = fam.test_image()
        for f, wf in fs:
            for mi in ([[2]] if form == 'one' else [[1] * n, tuple([1] * n)]):
                kw = {} if what in ('sdm', 'sdaam', 'ert') else dict(max_iters=mi)
                wk = Watch(kw=kw)
                start = ini.bounding_box()
                f.fit_from_bb(im, start, **kw)
                str(f), str(m)
                ctx.step()
                for x in (w, wf, wk):
                    x.check(ctx, 'option-lists', '%s, fit' % msg)
        if hasattr(m, 'increment') and what not in ('lk', 'sdm', 'sdaam', 'ert'):
            more = [fx.make_image(20 + k) for k in range(3)]
            if what in fam.ATM_KINDS:
                m.increment(more[0], [i.landmarks['PTS'] for i in more], group='PTS')
            else:
                m.increment(more, group='PTS')
            ctx.step()
            w.check(ctx, 'option-lists', '%s, incremented' % msg)


def run(case, ctx):
    {'train': k_train, 'fit': k_fit, 'feature': k_feature, 'packaged': k_packaged, 'helpers': k_helpers, 'lists': k_lists}[case['kind']](case, ctx)
