"""P28 - equivalent requests get the same answer.

How a caller hands over the same data - list, tuple or lazy list of images,
named or only landmark group, unrelated landmark groups, landmark values stored
as integers or floats, point clouds or meshes, images with or without an
(everywhere true) mask, row- or column-major memory, the order of the training
images, the way a fit is started, a ground truth that is only used for errors -
must not change the trained model or the fit.  The whole product of the ways is
enumerated for every family; the oracle is the plainest way.
"""
import contextlib
import io
import itertools
import numpy as np
from vlib import fx, fam, fitters
from vlib.fitters import Run, same

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the product of all ways to express one training or fitting request (containers, '
             'groups, value types, classes, memory orders, masks, entry points) and of all orders of the training images')
RULE = ('model family x container x group x other groups x value type x image class x memory order; model family x all '
        'permutations of the training images; fitting method x starting value type x class x image class x memory order x '
        'ground truth x image landmarks x entry point; a state is one request, a trace is one answer compared with the plain one')
ASSUMPTIONS = ['mask pixels of patch based masks are found by rounding down: requests which change the rounding of sums '
               '(memory order, image order) are not made for the masked families',
               'orthogonal Procrustes regression is not unique for so few samples: as above',
               'dlib draws random numbers per image, so the order of its images matters']
CHUNK = 1
TRAIN = (['aam:' + k for k in fam.AAM_KINDS] + ['atm:' + k for k in fam.ATM_KINDS] + ['clm', 'uni', 'aps'] +
         ['sdm:' + a for a in fam.SDM_ALGS] + ['sdaam:' + a for a in fam.AAM_SD_ALGS] + ['dlib', 'pdm', 'orthopdm', 'experts'])
NEED = dict(uni=8, aps=12, sdaam=4, sdm=4)


def BOUNDS(tier):
    return dict(permuted=4 if tier == 'quick' else 5, product='full', iterations=[1, 2] if tier == 'quick' else [4, 5])


def cases(tier):
    for k in sorted(functions()):
        yield dict(kind='function', name=k)
    for k in TRAIN:
        yield dict(kind='train', fam=k)
    for k in TRAIN:
        if k != 'dlib' and 'Masked' not in k and 'OPP' not in k:
            yield dict(kind='order', fam=k, n=BOUNDS(tier)['permuted'])
    for k in ('SDM', 'RegularizedSDM'):
        for part in range(4):
            yield dict(kind='named', cls=k, part=part, parts=4, together=2 if tier == 'quick' else 3)
    for n in fitters.iterative(tier) + fitters.cascaded(tier) + ['dlib']:
        yield dict(kind='entry', fam=n)
        yield dict(kind='fit', fam=n, iters=BOUNDS(tier)['iterations'])


# ---- training --------------------------------------------------------------
AXES = dict(cont=['list', 'tuple', 'lazy', 'views'], group=['named', 'only', 'among'], dtype=['float', 'int'],
            cls=['Image', 'Masked'], order=['C', 'F'])


def requests(kind):
    """all requests, as dicts"""
    names = sorted(AXES)
    for v in itertools.product(*[AXES[a] for a in names]):
        r = dict(zip(names, v))
        if ('Masked' in kind or 'OPP' in kind) and r['order'] == 'F':
            continue
        yield r


def training_images(n, r, first=0):
    from menpo.image import MaskedImage
    from menpo.base import LazyList
    from menpo.shape import PointCloud
    ims = []
    for k in range(first, first + n):
        im = fx.make_image(k)
        s = im.landmarks['PTS']
        p = np.round(s.points)
        px = im.pixels
        if r['order'] == 'F':
            px = np.asfortranarray(px)
            p = np.asfortranarray(p)
        if r['cls'] == 'Masked':
            im = MaskedImage(px, copy=False)
        else:
            im.pixels = px
        im.landmarks.clear()
        if r['group'] == 'among':           # other groups are added before and after
            im.landmarks['AAA'] = PointCloud(p[::-1] * 0.5 + 3)
        im.landmarks['PTS'] = s
        im.landmarks['PTS'].points = p.astype(int) if r['dtype'] == 'int' else p
        if r['group'] == 'among':
            im.landmarks['ZZZ'] = PointCloud(p[:3])
        ims.append(im)
    return contain(ims, r['cont'])


def contain(ims, how):
    from menpo.base import LazyList
    if how == 'tuple':
        return tuple(ims)
    if how == 'lazy':
        return LazyList([lambda im=im: im.copy() for im in ims])
    if how == 'views':
        return Sequence(ims)
    return ims


class Sequence(object):
    """a minimal sequence that loads its items on access"""
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [x.copy() for x in self.items[i]]
        return self.items[i].copy()


def perturb(shape, bb, noise_type=None, noise_percentage=None, **kw):
    """a perturbation that depends on nothing but the box, so that the order of the images may change"""
    from menpofit.fitter import align_shape_with_bounding_box
    s = align_shape_with_bounding_box(shape, bb)
    c = np.cos(s.points.sum() * np.arange(1, 3)) * 1.5
    return fx.pc(s.points + c)


def fam_atm(a, template, shapes, group):
    import menpofit.atm as T
    kw = dict(patch_shape=(7, 7)) if fam.needs_patch(a) else {}
    return getattr(T, a)(template, shapes, group=group, scales=(0.5, 1.0), diagonal=30, max_shape_components=3, **kw)


def train(kind, ims, group, r, fixed=False):
    kw = dict(group=group)
    k, _, a = kind.partition(':')
    np.random.seed(4)
    if k == 'aam':
        return fam.aam(a, ims, max_shape_components=3, max_appearance_components=3, **kw)
    if k == 'atm':
        return fam_atm(a, ims[0], contain([i.landmarks[group].copy() for i in ims], r['cont']), group)
    if k == 'clm':
        return fam.clm(ims, **kw)
    if k == 'uni':
        return fam.unified(ims, **kw)
    if k == 'aps':
        return fam.aps(ims, can_be_incremented=True, **kw)
    if k in ('sdm', 'sdaam'):
        if fixed:
            kw.update(perturb_from_gt_bounding_box=perturb, n_perturbations=1)
        if k == 'sdm':
            return fam.sdm(a, ims, seed=4, **kw)
        m = fam.aam('HolisticAAM', ims, max_shape_components=3, max_appearance_components=3, **dict(group=group))
        return fam.sd_aam(a, m, ims, seed=4, **kw)
    if k == 'dlib':
        return fam.dlib_ert(ims, **kw)
    if k in ('pdm', 'orthopdm'):
        from menpofit.modelinstance import PDM, OrthoPDM
        return (PDM if k == 'pdm' else OrthoPDM)(contain([i.landmarks[group].copy() for i in ims], r['cont']), max_n_components=3)
    from menpofit.clm import CorrelationFilterExpertEnsemble
    return CorrelationFilterExpertEnsemble(ims, contain([i.landmarks[group].copy() for i in ims], r['cont']),
                                           patch_shape=(9, 9), context_shape=(17, 17))


def grow(kind, m, ims, group, template=None):
    k = kind.partition(':')[0]
    if k in ('aam', 'clm', 'aps'):
        m.increment(ims, group=group)
    elif k == 'atm':
        m.increment(ims[0] if template is None else template, [i.landmarks[group].copy() for i in ims], group=group)
    elif k in ('pdm', 'orthopdm'):
        m.increment([i.landmarks[group].copy() for i in ims])
    elif k == 'experts':
        m.increment(ims, [i.landmarks[group].copy() for i in ims])
    else:
        return False
    return True


def answers(kind, m, costs=True):
    """what the user sees of a trained model: its summary, its means and fits"""
    k, _, a = kind.partition(':')
    out = {}
    im = fx.make_image(7)
    init = fx.pc(im.landmarks['PTS'].points + [1.0, -0.8])
    if k in ('pdm', 'orthopdm'):
        m.set_target(init)
        return dict(target=m.target.points, mean=m.model.mean().points, n=m.n_parameters)
    if k == 'experts':
        return dict(response=m.predict_response(im, init), n=m.n_experts)
    out['str'] = str(m)
    if hasattr(m, 'shape_models'):
        out['shape'] = [s.model.mean().points for s in m.shape_models]
        out['n_shape'] = [s.n_active_components for s in m.shape_models]
    if k in ('aam', 'uni'):
        out['app'] = [x.mean().as_vector() for x in m.appearance_models]
    if k == 'atm':
        out['app'] = [x.as_vector() for x in m.warped_templates]
    f = []
    if k == 'aam':
        f = [fam.aam_fitter(m, 'AlternatingInverseCompositional'), fam.aam_fitter(m, 'WibergForwardCompositional')]
    elif k == 'atm':
        f = [fam.atm_fitter(m, 'InverseCompositional'), fam.atm_fitter(m, 'ForwardCompositional')]
    elif k == 'clm':
        f = [fam.gd_fitter(m, x) for x in fam.CLM_ALGS]
    elif k == 'uni':
        f = [fam.uni_fitter(m, x) for x in fam.UNI_ALGS]
    elif k == 'aps':
        f = [fam.aps_fitter(m, x) for x in fam.APS_ALGS]
    else:
        f = [m]
    it = {} if k in ('sdm', 'sdaam', 'dlib') else dict(max_iters=[2, 1])
    for i, g in enumerate(f):
        np.random.seed(5)
        r = g.fit_from_shape(im, init, **it)
        out['fit%d' % i] = [s.points for s in r.shapes]
    np.random.seed(5)
    out['bb'] = f[0].fit_from_bb(im, init.bounding_box(), **it).final_shape.points
    return out


def run_train(case, ctx):
    kind = case['fam']
    n = NEED.get(kind.partition(':')[0], 5)
    ref = None
    plain = dict((a, v[0]) for a, v in AXES.items())
    rs = [plain] + [r for r in requests(kind) if r != plain]
    for r in rs:
        tag = '%s trained with %s' % (kind, ' '.join('%s=%s' % (a, r[a]) for a in sorted(r) if r[a] != plain[a]) or 'plain data')
        ctx.step()
        ctx.state(kind, tag)
        group = None if r['group'] == 'only' else 'PTS'
        ims = training_images(n, r)
        # (these are given shapes, not groups)
        if kind.partition(':')[0] in ('pdm', 'orthopdm', 'experts', 'atm') and group is None:
            group = 'PTS'
        try:
            m = train(kind, ims, group, r)
            got = [answers(kind, m)]
            if grow(kind, m, training_images(3, dict(r, cont='list' if r['cont'] == 'views' else r['cont']), 20), group):
                got.append(answers(kind, m))
        except Exception as e:
            ctx.bad('exception', '%s: %s: %s' % (tag, type(e).__name__, str(e)[:300]))
            if r is plain:
                return
            continue
        if r is plain:
            ref = got
            continue
        ctx.trace()
        d = same(got, ref, 1e-5)
        ctx.check(not d, 'train', '%s: the answers differ from those of plain training: %s' % (tag, d))


def run_order(case, ctx):
    kind = case['fam']
    n = NEED.get(kind.partition(':')[0], 5)
    r = dict((a, v[0]) for a, v in AXES.items())
    ref = None
    mv = min(n, case['n'])
    for p in itertools.permutations(range(mv)):
        perms = [list(p) + list(range(mv, n))]
        if ref is None:
            perms.append(perms[0][::-1])        # a reversal of all
        for q in perms:
            ctx.step()
            ctx.state(kind, tuple(q))
            ims = training_images(n, r)
            a = ims[0]
            ims = [ims[i] for i in q]
            if kind.startswith('atm'):
                m = fam_atm(kind[4:], a, [i.landmarks['PTS'] for i in ims], 'PTS')
            else:
                m = train(kind, ims, 'PTS', r, fixed=True)
            got = [answers(kind, m)]
            more = training_images(4, r, 20)
            if grow(kind, m, [more[i] for i in p if i < 4], 'PTS', more[0]):
                got.append(answers(kind, m))
            if ref is None:
                ref = got
                continue
            ctx.trace()
            d = same(got, ref, 1e-5)
            ctx.check(not d, 'order', '%s: trained with the images in the order %s differs from the natural order: %s' % (kind, q, d))


# ---- fitting ---------------------------------------------------------------
FIT = dict(dtype=['float', 'int'], cls=['cloud', 'mesh', 'graph'], image=['Image', 'Masked'], order=['C', 'F'],
           gt=['none', 'mesh', 'int'], lms=['none', 'groups'])


def shape_of(points, cls, dtype, order='C'):
    from menpo.shape import PointCloud, TriMesh, PointDirectedGraph
    p = np.array(points, dtype=int if dtype == 'int' else float, order=order)
    n = len(p)
    adj = np.zeros((n, n), dtype=int)
    for i in range(n):
        adj[i, (i + 1) % n] = 1
    if cls == 'mesh':
        s = TriMesh(p, trilist=np.array([[0, 1, 2], [1, 2, 3]]), copy=False)
    elif cls == 'graph':
        s = PointDirectedGraph(p, adj, copy=False)
    else:
        s = PointCloud(p, copy=False)
    s.points = p            # (constructors change the memory order)
    return s


def run_fit(case, ctx):
    from menpo.image import Image, MaskedImage
    from menpo.shape import PointCloud
    name = case['fam']
    if name == 'dlib':
        f = fam.dlib_ert()
    else:
        kind = fitters.model_kind(name)
        f = fitters.fitter(name, fitters.model(kind) if kind else None)
    it = dict(max_iters=list(case['iters'])) if name.split(':')[0] not in ('sdm', 'sdaam', 'dlib') else {}
    src = fx.make_image(7)
    true = np.round(src.landmarks['PTS'].points)
    start = np.round(true + np.array([1.0, -1.0]))
    box = PointCloud(start).bounding_box().points
    names = sorted(FIT)
    plain = dict((a, v[0]) for a, v in FIT.items())
    rs = [dict(zip(names, v)) for v in itertools.product(*[FIT[a] for a in names])]
    rs = [plain] + [r for r in rs if r != plain]

    def go(r, bb):
        px = np.array(src.pixels, order=r['order'])
        im = (MaskedImage if r['image'] == 'Masked' else Image)(px, copy=False)
        if r['lms'] == 'groups':
            im.landmarks['PTS'] = PointCloud(true[::-1] + 5)
            # among them the names that fitters use for their own purposes
            for i, g in enumerate(('initial_shape', '__initial_shape', '__gt_shape', '__perturbed_bb', 'source', 'LJSON')):
                im.landmarks[g] = PointCloud(true[i % 3:] * 0.5 + i)
        gt = None if r['gt'] == 'none' else shape_of(true, 'mesh', 'int' if r['gt'] == 'int' else 'float', r['order'])
        init = shape_of(box if bb else start, r['cls'], r['dtype'], r['order'])
        np.random.seed(3)
        try:
            res = (f.fit_from_bb if bb else f.fit_from_shape)(im, init, gt_shape=gt, **it)
        except (np.linalg.LinAlgError, ValueError) as e:
            if 'ECC' not in name:
                raise                   # (ECC may diverge, and then ends in a degenerate warp)
            return dict(error=type(e).__name__), None, None
        out = dict(shapes=[s.points for s in res.shapes], n=getattr(res, 'n_iters', None))
        for a in ('shape_parameters', 'appearance_parameters', 'homogeneous_parameters'):
            v = getattr(res, a, None)
            out[a] = None if v is None else [np.asarray(x, dtype=float) for x in v]
        return out, res, None if gt is None else np.asarray(res.errors(), dtype=float)

    for bb in (False, True):
        ref = err = None
        for r in rs:
            tag = '%s %s with %s' % (name, 'fit_from_bb' if bb else 'fit_from_shape',
                                     ' '.join('%s=%s' % (a, r[a]) for a in names if r[a] != plain[a]) or 'plain data')
            ctx.step()
            ctx.state(name, bb, tag)
            try:
                got, res, e = go(r, bb)
            except Exception as ex:
                ctx.bad('exception', '%s: %s: %s' % (tag, type(ex).__name__, str(ex)[:300]))
                if r is plain:
                    return
                continue
            if r is plain:
                ref = got
                if bb and res is not None:
                    # the same fit, started from the shape that the box was turned into
                    np.random.seed(3)
                    again = f.fit_from_shape(Image(src.pixels), res.initial_shape or PointCloud(box), **it)
                    d = same([s.points for s in again.shapes], got['shapes'], 1e-5)
                    ctx.check(not d, 'entry', '%s: starting from the shape reported for the box gives another fit: %s' % (tag, d))
                continue
            ctx.trace()
            d = same(got, ref, 1e-5)
            ctx.check(not d, 'fit', '%s differs from the fit of plain data: %s' % (tag, d))
            if e is not None:
                if err is None:
                    err = e
                d = same(e, err, 1e-5)
                ctx.check(not d, 'errors', '%s reports other errors than the same fit: %s' % (tag, d))


# ---- functions of shapes ----------------------------------------------------
def functions():
    import menpofit.error as E
    import menpofit.error.human.face as H
    import menpofit.fitter as F
    import menpofit.builder as B
    from menpofit.modelinstance import PDM, OrthoPDM
    from menpofit.transform import (DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity,
                                    DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines)
    pts = np.round(fx.base_points(6)) + 0.0

    def seeded(f):
        def g(a, b):
            np.random.seed(7)
            return f(a, b)
        return g

    def pdm(cls):
        def g(a, b):
            m = cls([a, b] + [fx.pc(fx.deform(fx.base_points(a.n_points), k)) for k in range(3)], max_n_components=3)
            m.set_target(b)
            out = [m.target.points, m.model.mean().points]
            m.increment([b, a])
            m.set_target(a)
            return out + [m.target.points, m.model.mean().points]
        return g

    def tr(cls):
        def g(a, b):
            t = cls(a, b)
            q = np.dot(np.eye(6)[:3] * 0.5 + 1 / 12., pts)     # (inside the triangulation)
            return [t.apply(q), t.as_vector() if hasattr(t, 'as_vector') else 0,
                    t.d_dp(q) if hasattr(t, 'd_dp') else t.d_dl(a.points + 0.0)]
        return g
    out = dict()
    for n in ('root_mean_square_error', 'euclidean_error', 'root_mean_square_bb_normalised_error', 'euclidean_bb_normalised_error'):
        out[n] = (6, getattr(E, n))
    for n in ('root_mean_square_distance_indexed_normalised_error', 'euclidean_distance_indexed_normalised_error'):
        out[n] = (6, lambda a, b, f=getattr(E, n): f(a, b, 1, 4))
    for n in ('root_mean_square_distance_normalised_error', 'euclidean_distance_normalised_error'):
        out[n] = (6, lambda a, b, f=getattr(E, n): f(a, b, lambda p, q: np.abs(np.asarray(getattr(p, 'points', p))).sum() + np.asarray(getattr(q, 'points', q))[0, 0]))
    for n in ('bb_area', 'bb_perimeter', 'bb_avg_edge_length', 'bb_diagonal'):
        out[n] = (6, lambda a, b, f=getattr(E, n): f(a) + 0 * f(b))
    for n in dir(H):
        if n.endswith('_error') and n[0] != '_' and any(c.isdigit() for c in n):
            out[n] = (int([w for w in n.split('_') if w.isdigit()][0]), getattr(H, n))
    out['distance_two_indices'] = (6, lambda a, b: E.distance_two_indices(1, 4, a) + E.distance_two_indices(0, 2, b))
    out['align_shape_with_bounding_box'] = (6, lambda a, b: F.align_shape_with_bounding_box(a, b.bounding_box()).points)
    out['noisy_shape_from_shape'] = (6, seeded(lambda a, b: F.noisy_shape_from_shape(a, b).points))
    out['noisy_shape_from_bounding_box'] = (6, seeded(lambda a, b: F.noisy_shape_from_bounding_box(a, b.bounding_box()).points))
    out['compute_reference_shape'] = (6, lambda a, b: [B.compute_reference_shape([a, b], d).points for d in (None, 30)])
    out['rescale_reference_shape'] = (6, lambda a, b: [B.rescale_reference_shape(a, d).points for d in (None, 30)])
    out['align_shapes'] = (6, lambda a, b: [x.points for x in B.align_shapes([a, b, a])])
    out['build_reference_frame'] = (6, lambda a, b: frame(B.build_reference_frame(a, boundary=4)))
    out['PDM'] = (6, pdm(PDM))
    out['OrthoPDM'] = (6, pdm(OrthoPDM))
    for c in (DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity, DifferentiablePiecewiseAffine,
              DifferentiableThinPlateSplines):
        out[c.__name__] = (6, tr(c))
    return out


def frame(f):
    return [np.array(f.shape), f.mask.mask, f.landmarks['source'].points]


def run_function(case, ctx):
    n, f = functions()[case['name']]
    b = fx.base_points(6) if n == 6 else None
    if case['name'].startswith('bb_avg_edge_length_'):
        n = 68
    r = np.random.RandomState(n)
    x = np.round(b) if n == 6 else np.round(r.rand(n, 2) * 80)
    y = np.round(x + r.randn(n, 2) * 3 + [2, -1])
    what = list(itertools.product(('float', 'int'), ('cloud', 'mesh', 'graph'), 'CF'))
    if case['name'].startswith('DifferentiablePiecewise'):
        what = [w for w in what if w[1] == 'mesh']      # (a triangulation is made for the others)
    ref = None
    for u in what:
        for v in what:
            ctx.step()
            ctx.state(case['name'], u, v)
            tag = '%s of %s and %s shapes' % (case['name'], u, v)
            a, c = shape_of(x, u[1], *u[::2]), shape_of(y, v[1], *v[::2])
            if u[1] == 'mesh' and n == 6:
                a.trilist = fx.trilist(x)
            if v[1] == 'mesh' and n == 6:
                c.trilist = fx.trilist(x)
            try:
                got = f(a, c)
            except Exception as e:
                ctx.bad('exception', '%s: %s: %s' % (tag, type(e).__name__, str(e)[:200]))
                return
            if ref is None:
                ref = got
                continue
            ctx.trace()
            d = same(got, ref, 1e-6)
            ctx.check(not d, 'function', '%s differs from that of the plain ones: %s' % (tag, d))


def run_entry(case, ctx):
    """fit_from_bb takes every option that fit_from_shape takes, to the same effect"""
    import inspect
    import warnings
    from menpo.image import Image
    from menpo.shape import PointCloud
    from menpofit.fitter import align_shape_with_bounding_box
    name = case['fam']
    if name == 'dlib':
        f = fam.dlib_ert()
    else:
        kind = fitters.model_kind(name)
        f = fitters.fitter(name, fitters.model(kind) if kind else None)
    src = fx.make_image(7)
    true = src.landmarks['PTS'].points.copy()
    box = PointCloud(true + [1.0, -1.5]).bounding_box()
    start = box if name == 'dlib' else align_shape_with_bounding_box(f.reference_shape, box)
    axes = dict(gt_shape=[None, PointCloud(true)], return_costs=[False, True])
    iterative = name.split(':')[0] not in ('sdm', 'sdaam', 'dlib')
    if iterative:
        axes['max_iters'] = [None, 2, [1, 2]] if f.n_scales == 2 else [None, 2]
        if 'prior' in inspect.signature(f.algorithms[0].run).parameters:
            axes['prior'] = [None, False, True]
    if name == 'dlib':
        del axes['return_costs']
    names = sorted(axes)
    for v in itertools.product(*[axes[a] for a in names]):
        kw = dict((a, x) for a, x in zip(names, v) if x is not None)
        tag = '%s with %s' % (name, ' '.join('%s=%s' % (a, 'given' if a == 'gt_shape' else kw[a]) for a in sorted(kw)) or 'no options')

        def go(call, first):
            np.random.seed(3)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    r = call(Image(src.pixels), first, **kw)
                except (np.linalg.LinAlgError, ValueError) as e:
                    if 'ECC' not in name and not isinstance(e, np.linalg.LinAlgError):
                        raise
                    return dict(error=type(e).__name__)
            out = dict(shapes=[s.points for s in r.shapes], costs=r.costs is not None and len(r.costs) > 0 and list(r.costs),
                       gt=r.gt_shape is not None and r.gt_shape.points, image=r.image.pixels,
                       errors=r.gt_shape is not None and r.errors(),
                       warned=sorted(set(x.category.__name__ for x in w if x.category.__name__.startswith('MenpoFit'))))
            for a in ('shape_parameters', 'appearance_parameters'):
                p = getattr(r, a, None)
                out[a] = p is not None and [np.asarray(x, dtype=float) for x in p]
            return out
        ctx.step()
        ctx.state(name, 'options', tag)
        want, got = go(f.fit_from_shape, start), go(f.fit_from_bb, box)
        ctx.trace()
        d = same(got, want, 1e-6)
        ctx.check(not d, 'entry', '%s: fit_from_bb differs from fit_from_shape on the aligned reference shape: %s' % (tag, d))
        if 'gt_shape' in kw and 'error' not in want:
            ctx.check(got['gt'] is not False, 'entry', '%s: the result has no ground truth' % tag)


# ---- named shorthands ------------------------------------------------------
def run_named(case, ctx):
    """SDM and RegularizedSDM are the general trainer with a fixed algorithm"""
    from functools import partial
    from menpo.feature import gradient, no_op
    import menpofit.sdm as S
    ims = training_images(5, dict((a, v[0]) for a, v in AXES.items()))
    for i, im in enumerate(ims):
        for g in range(2):
            b = im.landmarks['PTS'].bounding_box()
            b.points += 0.5 * (g + 1) - 0.2 * i
            im.landmarks['box_%d' % g] = b
    ref = fx.pc(ims[1].landmarks['PTS'].points * [1.0, 1.3])
    options = dict(group='PTS', bounding_box_group_glob='box_*', reference_shape=ref, diagonal=35, holistic_features=gradient,
                   patch_features=[gradient, no_op], patch_shape=[(5, 7), (7, 5)], scales=(0.4, 0.8), n_iterations=[1, 3],
                   n_perturbations=2, perturb_from_gt_bounding_box=perturb, batch_size=2, alpha=[1.0, 50.0], verbose=True)
    # small and quick where an option is not chosen
    base = dict(group='PTS', patch_shape=(7, 7), n_iterations=[1, 1], n_perturbations=3, diagonal=30)
    names = sorted(a for a in options if case['cls'] == 'RegularizedSDM' or a != 'alpha')
    sets = [c for n in range(case['together'] + 1) for c in itertools.combinations(names, n)]
    sets += [tuple(a for a in names if a not in ('batch_size',) + d) for d in [()] + [(x,) for x in names]]
    for c in sets[case['part']::case['parts']]:
        k = dict(base)
        k.update((a, options[a]) for a in c)
        alphas = k.pop('alpha', [None])
        for alpha in alphas:
            msg = '%s with %s' % (case['cls'], ', '.join(c) or 'no options')

            def answer(general):
                kw = dict(k)
                if general:
                    cls, alg = S.SupervisedDescentFitter, S.NonParametricNewton
                    if case['cls'] == 'RegularizedSDM':
                        alg = partial(alg, alpha=0.0001 if alpha is None else alpha)
                    kw['sd_algorithm_cls'] = alg
                else:
                    cls = getattr(S, case['cls'])
                    if alpha is not None:
                        kw['alpha'] = alpha
                np.random.seed(9)
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    try:
                        m = cls(ims, **kw)
                    except NotImplementedError as e:
                        return 'NotImplementedError'
                r = dict(answers('sdm', m), shape=m.reference_shape.points, printed=out.getvalue(), scales=m.scales,
                         boxes=m.algorithms[0].regressors[0].W)
                return r
            ctx.step()
            ctx.state(case['cls'], c, alpha)
            want, got = answer(True), answer(False)
            ctx.trace()
            d = same(got, want, 1e-6)
            ctx.check(not d, 'named', '%s: the answers differ from those of SupervisedDescentFitter with the same options: %s' % (msg, d))


def run(case, ctx):
    dict(function=run_function, train=run_train, order=run_order, fit=run_fit, named=run_named, entry=run_entry)[case['kind']](case, ctx)
