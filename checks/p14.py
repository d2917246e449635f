"""P14 - per-scale options are expanded, ordered and rejected consistently."""
import copy
import itertools
from functools import partial
import numpy as np

from vlib import fam, fx

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of option shapes x scales against a reference expander; wiring checked on trained models'
RULE = ('every option checker x 1-4 scales x every scalar/list/tuple of up to n+1 entries over {two valid values, one '
        'invalid}; every model/fitter constructor x every per-scale option as scalar, one-element list, per-scale list '
        '(both orders), wrong lengths and wrong kinds; non-trivial = distinct expansion')
ASSUMPTIONS = ['any exception counts as rejection, provided no training data was read before it']
CHUNK = 1


def f_a(x):
    return x


def f_b(x):
    return x


class Base(object):
    pass


class AlgA(Base):
    pass


class AlgB(Base):
    pass


def checker(name):
    import menpofit.checks as C
    ug, tree = fam.ring_tree()
    arr = np.array([True, False])
    return {
        'multi': (lambda p, n: C.check_multi_scale_param(n, (int,), 'x', p), [3, 5], ['no', 1.5, None]),
        'multi_float': (lambda p, n: C.check_multi_scale_param(n, (float, int), 'x', p), [2.5, 7], ['no', None]),
        'callable': (C.check_callable, [f_a, f_b], [3, None]),
        'patch': (C.check_patch_shape, [(5, 7), [9, 11]], [None, 'a', (7, 9, 5)]),
        'max_comp': (lambda p, n: C.check_max_components(p, n, 'x'), [3, 0.9, None, 1.0, 0.0], ['a', -1, 1.5, 0]),
        'sampling': (C.check_sampling, [arr, 2, None], ['a', 1.5]),
        'algorithm': (lambda p, n: C.check_algorithm_cls(p, n, Base), [AlgA, partial(AlgB, x=1)], [int, 3, None]),
        'graph': (lambda p, n: C.check_graph(p, [type(ug), type(tree)], 'g', n), [ug, tree, None], [3, 'a']),
    }[name]


CHECKERS = ['multi', 'multi_float', 'callable', 'patch', 'max_comp', 'sampling', 'algorithm', 'graph']
WIRED = ['aam:HolisticAAM', 'aam:MaskedAAM', 'aam:LinearAAM', 'aam:LinearMaskedAAM', 'aam:PatchAAM', 'atm:HolisticATM',
         'atm:MaskedATM', 'atm:LinearATM', 'atm:LinearMaskedATM', 'atm:PatchATM', 'clm', 'unified', 'aps', 'sdm', 'dlib', 'lk',
         'fitters']


def cases(tier):
    for c in CHECKERS:
        for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            yield dict(kind='fn', fn=c, n=n)
    yield dict(kind='misc')
    for w in WIRED:
        yield dict(kind='wire', what=w)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (type(a) == type(b) and a == b)


def run_fn(case, ctx):
    fn, good, bad = checker(case['fn'])
    n = case['n']

    def accept(p, want, tag):
        ctx.step()
        before = copy.copy(p) if isinstance(p, (list, tuple)) else p
        try:
            out = fn(p, n)
        except Exception as e:
            ctx.bad('%s-rejects' % case['fn'], '%d scales, %s: rejected with %s: %s' % (n, tag, type(e).__name__, e))
            return
        ok = len(out) == n and all(same(x, y) for x, y in zip(out, want))
        ctx.check(ok, '%s-expand' % case['fn'], lambda: '%d scales, %s: expanded to %s' % (n, tag, list(out)))
        ctx.check(same(p, before), '%s-mutates' % case['fn'], tag)
        ctx.state(case['fn'], n, tag)
        if isinstance(p, list) and len(p) != n and isinstance(out, list):
            out.append('x')
            ctx.check(same(p, before), '%s-alias' % case['fn'], tag)

    def reject(p, tag):
        ctx.step()
        before = copy.copy(p) if isinstance(p, (list, tuple)) else p
        try:
            out = fn(p, n)
        except Exception:
            ctx.check(same(p, before), '%s-mutates' % case['fn'], tag)
            return
        ctx.bad('%s-accepts' % case['fn'], '%d scales, %s: accepted as %s' % (n, tag, out))

    for v in good:
        accept(v, [v] * n, 'scalar %s' % (v,))
    for v in bad:
        if v is None and case['fn'] in ('max_comp', 'sampling', 'graph'):
            continue
        reject(v, 'scalar %r' % (v,))
    types = (list,) if case['fn'] == 'graph' else (list, tuple)
    for L in range(0, n + 2):
        for combo in itertools.product(range(len(good) + 1), repeat=L):
            vals = [good[i] if i < len(good) else bad[0] for i in combo]
            isbad = any(i == len(good) for i in combo)
            for t in types:
                p = t(vals)
                tag = '%s of %s' % (t.__name__, ['v%d' % i if i < len(good) else 'bad' for i in combo])
                if isbad or L not in (1, n):
                    reject(p, tag)
                elif L == 1:
                    accept(p, [vals[0]] * n, tag)
                else:
                    accept(p, vals, tag)
    for b in bad[1:]:
        for pos in range(n):
            vals = [good[0]] * n
            vals[pos] = b
            if b is None and case['fn'] in ('max_comp', 'sampling', 'graph'):
                continue
            reject(list(vals), 'bad kind %r at %d' % (b, pos))


class Comp(object):
    n_active_components = 'unset'


def shared(out, k, n):
    """n shares of k iterations: as equal as possible, k altogether (k is the documented total over all scales)"""
    v = [int(x) for x in out]
    return len(v) == n and v == list(out) and sum(v) == k and max(v) - min(v) <= 1 and min(v) >= 0


def run_misc(ctx):
    import menpofit.checks as C
    for k in range(0, 13):
        for n in (1, 2, 3, 4):
            ctx.step()
            out = C.check_max_iters(k, n)
            ctx.check(shared(out, k, n), 'iters-int',
                      lambda: '%s over %s scales -> %s' % (k, n, out))
            if n > 1:
                lst = [k]
                out = C.check_max_iters(lst, n)
                ctx.check(shared(out, k, n), 'iters-one', str(out))
            ctx.state(k, n, [int(v) for v in out])
    for n in (1, 2, 3):
        for L in range(0, n + 2):
            for vals in itertools.product((0, 2, 5), repeat=L):
                for t in (list, tuple):
                    ctx.step()
                    p = t(vals)
                    if L == n:
                        out = C.check_max_iters(p, n)
                        ctx.check(list(out) == list(vals) and p == t(vals), 'iters-list', lambda: '%s -> %s' % (vals, out))
                    elif L != 1:
                        ctx.raises(Exception, lambda: C.check_max_iters(p, n), 'iters-reject', str((vals, n)))
    for s, want in ((1, [1]), (0.5, [0.5]), ((0.5, 1.0), [0.5, 1.0]), ([0.25, 0.5, 1], [0.25, 0.5, 1]), ([1], [1]),
                    ((0.2, 0.4, 0.6, 1.0), [0.2, 0.4, 0.6, 1.0])):
        ctx.step()
        keep = copy.copy(s)
        out = C.check_scales(s)
        ctx.check(list(out) == want and s == keep, 'scales', lambda: '%s -> %s' % (s, out))
        ctx.state('scales', want)
    for s in ([], (), 'a', ['a'], [0.5, 'a'], [None], None, [0.5, None], [[None]]):
        ctx.step()
        ctx.raises(Exception, lambda: C.check_scales(s), 'scales-reject', repr(s))
    for d in (None, 20, 20.5, 100):
        ctx.check(C.check_diagonal(d) == d, 'diag', str(d))
        ctx.step()
    for d in (19, 19.99, 0, -30):
        ctx.raises(ValueError, lambda: C.check_diagonal(d), 'diag-reject', str(d))
        ctx.step()
    for n in (1, 2, 3):
        for v in (None, 3, 0.5):
            ms = [Comp() for _ in range(n)]
            C.set_models_components(ms, v)
            ctx.step()
            want = ['unset' if v is None else v] * n
            ctx.check([m.n_active_components for m in ms] == want, 'comps', lambda: '%s' % [m.n_active_components for m in ms])
        for L in range(0, n + 2):
            for vals in itertools.product((2, 0.7, 4), repeat=L):
                ms = [Comp() for _ in range(n)]
                ctx.step()
                if L in (1, n):
                    C.set_models_components(ms, list(vals))
                    want = list(vals) * n if L == 1 else list(vals)
                    got = [m.n_active_components for m in ms]
                    ctx.check(got == want, 'comps-list', lambda: '%s -> %s' % (vals, got))
                else:
                    ctx.raises(Exception, lambda: C.set_models_components(ms, list(vals)), 'comps-reject', str((vals, n)))
    ctx.raises(ValueError, lambda: C.check_model(3, Comp), 'model')
    C.check_model(Comp(), Comp)


# ---- wiring ----------------------------------------------------------------
class Probe(list):
    """training data that notices being read"""
    touched = False

    def __iter__(self):
        self.touched = True
        return list.__iter__(self)

    def __getitem__(self, i):
        self.touched = True
        return list.__getitem__(self, i)


def two(x):
    from menpo.image import Image
    px = x.pixels if hasattr(x, 'pixels') else x
    out = np.concatenate([px, px * 0.5 + 0.1], 0)
    if hasattr(x, 'pixels'):
        o = x.copy()
        o.pixels = out
        return o
    return out


def three(x):
    o = x.copy()
    o.pixels = np.concatenate([x.pixels, x.pixels ** 2, x.pixels * 0.3], 0)
    return o


def norm_half(x, *a, **k):
    return (x.pixels if hasattr(x, 'pixels') else x) * 0.5


def nch(img):
    return img.n_channels


def run_wire(case, ctx):
    what = case['what']
    ims = fam.images(5)

    def reject(build, opt, val, tag):
        ctx.step()
        n = 14 if what == 'aps' else 8 if what == 'unified' else 5
        data = Probe(fam.images(n))
        try:
            build(data, **{opt: val})
        except Exception:
            ctx.check(not data.touched, 'late-%s' % opt, lambda: '%s %s=%r was rejected only after reading the training data'
                      % (what, opt, tag))
            return
        ctx.bad('accepts-%s' % opt, '%s accepted %s=%r' % (what, opt, tag))

    def battery(build, opt, a, b, observe, bad, scales=(0.5, 1.0)):
        """observe(model, j) -> value of the option actually used at scale j"""
        vals = {}
        for tag, val, want in (('scalar', a, (a, a)), ('one', [a], (a, a)), ('list', [a, b], (a, b)),
                               ('rev', [b, a], (b, a)), ('tuple', (b, a), (b, a))):
            ctx.step()
            keep = copy.copy(val) if isinstance(val, (list, tuple)) else val
            if tag == 'scalar' and isinstance(a, tuple):
                pass
            if opt.endswith('graph') and tag == 'tuple':
                continue
            m = build(None, **{opt: val})
            got = [observe(m, j) for j in range(2)]
            vals[tag] = got
            ctx.check(same(val, keep), 'mutates-%s' % opt, lambda: '%s changed the list given as %s' % (what, opt))
            ctx.state(what, opt, tag, str(got))
        A, B = vals['scalar'][0], vals['list'][1]
        exp = dict(scalar=[A, vals['scalar'][1]], one=vals['scalar'])
        ctx.check(same(vals['one'], vals['scalar']), 'one-%s' % opt, lambda: '%s: one-element list %s vs scalar %s' % (
            what, vals['one'], vals['scalar']))
        # order: scale 0 of the per-scale list shows what the scalar showed at scale 0
        ctx.check(same(vals['list'][0], vals['scalar'][0]) and same(vals['rev'][1], vals['scalar'][1]), 'order-%s' % opt,
                  lambda: '%s %s: %s' % (what, opt, vals))
        ctx.check(not same(vals['list'][1], vals['scalar'][1]) and not same(vals['rev'][0], vals['scalar'][0]),
                  'unused-%s' % opt, lambda: '%s %s: entry of its own scale is not used: %s' % (what, opt, vals))
        if 'tuple' in vals:
            ctx.check(same(vals['tuple'], vals['rev']), 'tuple-%s' % opt, lambda: str(vals))
        reject(build, opt, [a, b, a], [a, b, a])
        reject(build, opt, [], [])
        reject(build, opt, [a, bad], 'bad entry')
        reject(build, opt, bad, bad)

    if what.startswith('aam:'):
        kind = what[4:]

        def build(data, **k):
            return fam.aam(kind, ims if data is None else data, **k)
        battery(build, 'holistic_features', two, three, lambda m, j: nch_model(m.appearance_models[j], kind), 3)
        battery(build, 'max_shape_components', 2, 1, lambda m, j: m.shape_models[j].n_active_components, 'x')
        battery(build, 'max_appearance_components', 3, 2, lambda m, j: m.appearance_models[j].n_components, 'x')
        if fam.needs_patch(kind):
            battery(build, 'patch_shape', (7, 7), (5, 9), lambda m, j: size_model(m.appearance_models[j], kind), 'x')
        if kind == 'HolisticAAM':
            from menpofit.modelinstance import OrthoPDM, PDM

            class MyPDM(OrthoPDM):
                pass
            battery(build, 'shape_model_cls', OrthoPDM, MyPDM, lambda m, j: type(m.shape_models[j]), 3)
        scale_forms(ctx, lambda **k: fam.aam(kind, ims, **k), what)
    elif what.startswith('atm:'):
        kind = what[4:]

        def build(data, **k):
            if data is None:
                return fam.atm(kind, ims, **k)
            import menpofit.atm as T
            kk = dict(fam.BASE)
            if fam.needs_patch(kind):
                kk['patch_shape'] = (7, 7)
            kk.update(k)
            return getattr(T, kind)(fx.make_image(0), data, **kk)
        battery(build, 'holistic_features', two, three, lambda m, j: m.warped_templates[j].n_channels if kind != 'PatchATM'
                else m.warped_templates[j].pixels.shape[2], 3)
        battery(build, 'max_shape_components', 2, 1, lambda m, j: m.shape_models[j].n_active_components, 'x')
        if fam.needs_patch(kind):
            battery(build, 'patch_shape', (7, 7), (5, 9), lambda m, j: (
                m.warped_templates[j].n_true_pixels() if kind != 'PatchATM' else m.warped_templates[j].pixels.shape), 'x')
        scale_forms(ctx, lambda **k: fam.atm(kind, ims, **k), what)
    elif what == 'clm':
        def build(data, **k):
            return fam.clm(ims if data is None else data, **k)
        battery(build, 'holistic_features', two, three, lambda m, j: m.expert_ensembles[j].spatial_filter_images[0].n_channels
                if hasattr(m.expert_ensembles[j], 'spatial_filter_images') else 0, 3)
        battery(build, 'max_shape_components', 2, 1, lambda m, j: m.shape_models[j].n_active_components, 'x')
        battery(build, 'patch_shape', (9, 9), (7, 11), lambda m, j: tuple(m.expert_ensembles[j].patch_shape), 'x')
        battery(build, 'context_shape', (17, 17), (15, 19), lambda m, j: tuple(m.expert_ensembles[j].context_shape), 'x')
        scale_forms(ctx, build_scales(build), what)
    elif what == 'unified':
        ims8 = fam.images(8)

        def build(data, **k):
            return fam.unified(ims8 if data is None else data, **k)
        battery(build, 'max_shape_components', 3, 2, lambda m, j: m.shape_models[j].n_active_components, 'x')
        battery(build, 'max_appearance_components', 4, 3, lambda m, j: m.appearance_models[j].n_components, 'x')
        battery(build, 'holistic_features', two, three, lambda m, j: m.appearance_models[j].mean().n_channels, 3)
        battery(build, 'patch_shape', (9, 9), (7, 11), lambda m, j: tuple(m.expert_ensembles[j].patch_shape), 'x')
        battery(build, 'context_shape', (17, 17), (15, 19), lambda m, j: tuple(m.expert_ensembles[j].context_shape), 'x')
    elif what == 'aps':
        ims14 = fam.images(14)
        ug, tree = fam.ring_tree()

        def build(data, **k):
            return fam.aps(ims14 if data is None else data, **k)
        from menpo.shape import UndirectedGraph, Tree
        adj = np.zeros((fam.N, fam.N))
        for i in range(fam.N - 1):
            adj[i, i + 1] = adj[i + 1, i] = 1
        ug2 = UndirectedGraph(adj)
        t2 = np.zeros((fam.N, fam.N))
        for i in range(fam.N - 1):
            t2[i, i + 1] = 1
        tree2 = Tree(t2, 0)
        battery(build, 'appearance_graph', ug, ug2, lambda m, j: m.appearance_models[j].graph.n_edges, 3)
        battery(build, 'shape_graph', ug, ug2, lambda m, j: np.round(
            m.shape_models[j].model.eigenvalues, 8) if hasattr(m.shape_models[j].model, 'eigenvalues') else 0, 3)
        battery(build, 'deformation_graph', tree, tree2, lambda m, j: m.deformation_models[j].graph.get_adjacency_list(), 3)
        battery(build, 'max_shape_components', 3, 2, lambda m, j: m.shape_models[j].n_active_components, 'x')
        battery(build, 'patch_shape', (5, 5), (3, 7), lambda m, j: np.shape(m.appearance_models[j].mean()), 'x')
        battery(build, 'holistic_features', two, three, lambda m, j: m.appearance_models[j].mean().shape, 3)
    elif what == 'sdm':
        def build(data, **k):
            return fam.sdm(ims=ims if data is None else data, **k)
        from menpofit.sdm import NonParametricNewton, NonParametricGaussNewton

        def feats(m, j):
            return m.algorithms[j].regressors[0].W.shape
        battery(build, 'holistic_features', two, three, feats, 3)
        battery(build, 'patch_shape', (7, 7), (5, 9), feats, 'x')
        battery(build, 'n_iterations', [1, 1], None, None, None) if False else None
        for it in ([1, 1], [1, 2], [2, 1], [3, 0]):
            if 0 in it:
                continue
            m = build(None, n_iterations=it)
            ctx.step()
            ctx.check([len(a.regressors) for a in m.algorithms] == it, 'n_iterations', str(it))
        battery(lambda data, **k: fam.sdm(**dict(dict(ims=ims if data is None else data), **{('alg' if o == 'sd_algorithm_cls' else o): v for o, v in k.items()})),
                'sd_algorithm_cls', NonParametricNewton, NonParametricGaussNewton, lambda m, j: type(m.algorithms[j]), 'x')
        battery(build, 'patch_features', patch_one, two_patch, feats, 3)
        scale_forms(ctx, lambda **k: fam.sdm(ims=ims, **dict(dict(patch_shape=(7, 7), n_iterations=2), **k)), what)
    elif what == 'dlib':
        # options are observed at the trainer of dlib; no training is needed
        from p23 import Scripted
        names = dict(feature_padding=(0, 2, 'feature_pool_region_padding'), n_pixel_pairs=(20, 30, 'feature_pool_size'),
                     distance_prior_weighting=(0.1, 0.3, 'lambda_param'), regularisation_weight=(0.1, 0.4, 'nu'),
                     n_split_tests=(3, 5, 'num_test_splits'), n_trees=(4, 6, 'num_trees_per_cascade_level'),
                     n_dlib_perturbations=(1, 2, 'oversampling_amount'), n_tree_levels=(2, 3, 'tree_depth'))
        with Scripted() as dlib_calls:
            def build(data, **k):
                del dlib_calls.log[:]
                m = fam.dlib_ert(ims if data is None else data, **k)
                m.recorded = [x[3] for x in dlib_calls.log if x[0] == 'train']
                return m
            for opt, (a, b, attr) in names.items():
                battery(build, opt, a, b, lambda m, j: m.recorded[j][attr], 'x')
    elif what == 'lk':
        def build(data, **k):
            return fam.lk_fitter(**k)
        for tag, val, want in (('scalar', two, [2, 2]), ('one', [two], [2, 2]), ('list', [two, three], [2, 3]), ('rev', (three, two), [3, 2])):
            m = build(None, holistic_features=val)
            got = [t.n_channels for t in m.templates]
            ctx.step()
            ctx.check(got == want, 'lk-features', lambda: '%s: %s' % (tag, got))
            ctx.state('lk', tag, got)
        for bad in ([], [two, three, two], [two, 3], 3):
            ctx.raises(Exception, lambda: build(None, holistic_features=bad), 'lk-reject', str(bad))
        scale_forms(ctx, lambda **k: fam.lk_fitter(**k), what)
    else:
        fitters(ctx)


def patch_one(x):
    return x


def two_patch(x):
    if hasattr(x, 'pixels'):
        o = x.copy()
        o.pixels = np.concatenate([x.pixels, x.pixels ** 2], 0)
        return o
    return np.concatenate([x, x ** 2], 0)


def build_scales(build):
    return lambda **k: build(None, **k)


def nch_model(am, kind):
    mean = am.mean()
    return mean.pixels.shape[2] if kind == 'PatchAAM' else mean.n_channels


def size_model(am, kind):
    mean = am.mean()
    return mean.pixels.shape if kind == 'PatchAAM' else mean.n_true_pixels()


def scale_forms(ctx, build, what):
    for s, want in ((1.0, [1.0]), (1, [1]), ([0.5], [0.5]), ((0.5, 1.0), [0.5, 1.0]), ([0.25, 0.5, 1.0], [0.25, 0.5, 1.0])):
        if len(want) != 2 and what == 'sdm':
            m = build(scales=s, patch_shape=[(7, 7)] * len(want))
        else:
            m = build(scales=s)
        ctx.step()
        ctx.check(list(m.scales) == want and m.n_scales == len(want), 'scales-%s' % what, lambda: '%s -> %s' % (s, m.scales))
        ctx.state(what, 'scales', want)
    ctx.raises(Exception, lambda: build(scales=[]), 'scales-reject')
    ctx.raises(Exception, lambda: build(diagonal=10), 'diagonal-reject')


def fitters(ctx):
    """n_shape / n_appearance / sampling / weight at fitter construction"""
    ims = fam.images(5)

    def fresh():
        return fam.aam('HolisticAAM', ims)
    for opt, get in (('n_shape', lambda f, j: f.aam.shape_models[j].n_active_components),
                     ('n_appearance', lambda f, j: f.aam.appearance_models[j].n_active_components)):
        for val, want in ((2, [2, 2]), ([2], [2, 2]), ([1, 3], [1, 3]), ([3, 1], [3, 1])):
            f = fam.aam_fitter(fresh(), 'WibergInverseCompositional', **{opt: val})
            ctx.step()
            got = [get(f, j) for j in range(2)]
            ctx.check(got == want, 'fitter-' + opt, lambda: '%s=%s -> %s' % (opt, val, got))
            ctx.state(opt, str(val), got)
        for bad in ([1, 2, 3], [], 'x'):
            ctx.raises(Exception, lambda: fam.aam_fitter(fresh(), 'WibergInverseCompositional', **{opt: bad}), 'fitter-reject-' + opt, str(bad))
    m = fresh()
    np_ = [a.mean().n_true_pixels() for a in m.appearance_models]
    masks = [np.arange(n) % 3 == 0 for n in np_]
    masks2 = [np.arange(n) % 2 == 0 for n in np_]

    def used(f, j):
        return len(f.algorithms[j].interface.i_mask)
    for val, want in ((None, np_), ([masks[0], masks[1]], [int(k.sum()) for k in masks]),
                      ([masks[0], masks2[1]], [int(masks[0].sum()), int(masks2[1].sum())]),
                      ([None, masks[1]], [np_[0], int(masks[1].sum())]),
                      (2, [int(k.sum()) for k in masks2]), ([2, 3], [int(masks2[0].sum()), int(masks[1].sum())]),
                      ([3, 2], [int(masks[0].sum()), int(masks2[1].sum())]), ([3], [int(k.sum()) for k in masks]),
                      (np.int64(3), [int(k.sum()) for k in masks])):
        for alg in ('WibergInverseCompositional', 'ProjectOutForwardCompositional'):
            f = fam.aam_fitter(fresh(), alg, sampling=val)
            ctx.step()
            got = [used(f, j) for j in range(2)]
            ctx.check(got == list(want), 'sampling', lambda: 'sampling %s -> %s expected %s' % (type(val), got, want))
            ctx.state('sampling', got)
    for bad in ('x', [1, 2, 3], [], ['a', 'b'], 1.5):
        ctx.raises(Exception, lambda: fam.aam_fitter(fresh(), 'WibergInverseCompositional', sampling=bad), 'sampling-reject', str(bad))
    t = fam.atm('HolisticATM', ims)
    nt = [w.n_true_pixels() for w in t.warped_templates]
    f = fam.atm_fitter(t, 'InverseCompositional', sampling=[2, 3], n_shape=[1, 2])
    ctx.check([len(a.interface.i_mask) for a in f.algorithms] == [(nt[0] + 1) // 2, (nt[1] + 2) // 3], 'atm-sampling')
    ctx.check([s.n_active_components for s in t.shape_models] == [1, 2], 'atm-n_shape')
    a = fam.aps()
    for val, want in ((3.0, [3.0, 3.0]), ([5], [5, 5]), ([1.0, 2], [1.0, 2]), ((2, 1.0), [2, 1.0])):
        f = fam.aps_fitter(a, 'Inverse', weight=val)
        ctx.step()
        got = [al.interface.weight for al in f.algorithms]
        ctx.check(got == want, 'weight', lambda: '%s -> %s' % (val, got))
    for bad in ('x', [1, 2, 3], [], [1, 'x'], None):
        ctx.raises(Exception, lambda: fam.aps_fitter(a, 'Inverse', weight=bad), 'weight-reject', str(bad))


def run(case, ctx):
    if case['kind'] == 'fn':
        run_fn(case, ctx)
    elif case['kind'] == 'misc':
        run_misc(ctx)
    else:
        run_wire(case, ctx)
