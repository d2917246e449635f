"""P11 - a packaged fitter behaves like the fitter it wraps.

A scripted fitter, whose construction and calls are recorded, is packaged with
every combination of preparation, option sources and result kind; histories of
fits (and of failing fits) through one package are enumerated and each one is
compared with the manual pipeline: prepare, fit with the wrapped fitter, map the
recorded shapes back.  Real fitters of every family are compared the same way,
before and after the recipe went through the disk.
"""
import itertools
import os
import shutil
import tempfile
from functools import partial

import numpy as np

from vlib import fx, fam, fitters, stub11

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of configurations and of fit histories (to depth 3) of a packaged fitter, each compared '
             'with the manual pipeline around a scripted fitter and around the real fitters')
RULE = ('result kinds x initial shape known/unknown x iterations x preparations x starting modes x {option absent, packaged, '
        'given at the call, both} for 3 options x ground truth; all call sequences to depth 3 over 6 calls; recipes through '
        'the disk; real fitters of every family; a state is a distinct (configuration, outcome)')
ASSUMPTIONS = ['a preparation returns the prepared image and the homogeneous transform from it to the original image',
               'options given when a recipe is loaded are keywords of the recipe (functools.partial) and replace the packaged ones']


def BOUNDS(tier):
    return dict(depth=3 if tier == 'quick' else 4)


def cases(tier):
    preps = ['none', 'default', 'crop', 'shift', 'scale', 'aniso', 'rot', 'affine', 'dependent']
    for kind in stub11.KINDS:
        for init in (0, 1):
            if kind.startswith('ms') and not init:
                continue
            for prep in preps:
                yield dict(kind='matrix', res=kind, init=init, prep=prep)
    for prep in preps:
        yield dict(kind='options', prep=prep)
    for prep in ('none', 'default', 'dependent'):
        yield dict(kind='history', prep=prep, depth=BOUNDS(tier)['depth'])
    for prep in preps:
        yield dict(kind='recipe', prep=prep)
    for name in ('aam:HolisticAAM:WibergInverseCompositional', 'aam:PatchAAM:AlternatingInverseCompositional',
                 'atm:MaskedATM:InverseCompositional', 'clm:RegularisedLandmarkMeanShift',
                 'uni:ProjectOutRegularisedLandmarkMeanShift', 'aps:tree:Inverse', 'sdm:NonParametricNewton',
                 'lk:DifferentiableAlignmentAffine:InverseCompositional:SSD', 'sdaam:ProjectOutNewton', 'ert', 'wrapper'):
        for prep in (['none', 'default', 'crop', 'rot'] if tier == 'quick' else preps):
            yield dict(kind='real', fam=name, prep=prep)
    yield dict(kind='default')


def preparation(name):
    from menpofit.io import image_greyscale_crop_preprocess as dflt
    if name == 'none':
        return None
    if name == 'default':
        return dflt
    if name == 'crop':
        return partial(dflt, crop_proportion=0.4)
    return stub11.OWN[name]


def oracle(name, image, start):
    """(pixels of the prepared image, 3 x 3 matrix from it to the original image)"""
    pix, pts = image.pixels, np.asarray(start.points, dtype=float)
    if name == 'none':
        return pix, np.eye(3)
    if name in ('default', 'crop'):
        if pix.shape[0] == 3:
            pix = image.as_greyscale(mode='luminosity').pixels
        prop = 1.0 if name == 'default' else 0.4
        lo, hi = pts.min(0), pts.max(0)
        d = prop * (hi - lo).min()
        lo, hi = np.floor(lo - d), np.ceil(hi + d)
        lo, hi = np.maximum(lo, 0), np.minimum(hi, pix.shape[1:])
        m = np.eye(3)
        m[:2, 2] = lo
        lo, hi = lo.astype(int), hi.astype(int)
        return pix[:, lo[0]:hi[0], lo[1]:hi[1]], m
    if name == 'dependent':
        m = np.eye(3)
        m[:2, 2] = pts.mean(0)
        return pix * 0.25, m
    return pix[:, ::-1, 1:] * 0.5, np.array(stub11.MATS[name], dtype=float)


def apply(m, p):
    return np.asarray(p, dtype=float).dot(m[:2, :2].T) + m[:2, 2]


def read(r, m=None):
    """everything a result reports, shapes mapped by m"""
    f = (lambda s: None if s is None else np.array(s.points)) if m is None else (
        lambda s: None if s is None else apply(m, s.points))
    d = dict(cls=type(r).__name__, final=f(r.final_shape), initial=f(r.initial_shape), it=bool(r.is_iterative),
             gt=None if r.gt_shape is None else np.array(r.gt_shape.points))
    if r.is_iterative:
        d['shapes'] = [f(s) for s in r.shapes]
        d['n'] = int(r.n_iters)
        d['costs'] = None if r.costs is None else [float(c) for c in r.costs]
    for a in ('n_iters_per_scale', 'n_scales', 'shape_parameters', 'appearance_parameters', 'homogeneous_parameters',
              '_reconstruction_indices'):
        v = getattr(r, a, None)
        if v is not None:
            d[a] = np.array(v) if np.isscalar(v) else [np.array(x) for x in v]
    for a in ('reconstructed_initial_shapes',):
        v = getattr(r, a, None)
        if v is not None:
            d[a] = [f(s) for s in v]
    v = getattr(r, 'reconstructed_initial_shape', None)
    if v is not None:
        d['rec'] = f(v)
    return d


def compare(ctx, got, want, mat, image, msg, tol=1e-9):
    """got: result of the package, want: result of the manual pipeline"""
    ctx.step()
    ctx.trace()
    a, b = read(got), read(want, mat)
    d = fitters.same(a, b, tol)
    ctx.check(not d, 'result', lambda: '%s: %s' % (msg, d))
    ctx.check(got.image is not None and got.image.pixels.shape == image.pixels.shape
              and np.array_equal(got.image.pixels, image.pixels), 'image', lambda: '%s: the result does not hold the image '
              'that was given (%s)' % (msg, None if got.image is None else got.image.pixels.shape))
    if a['gt'] is not None and not d:
        from menpofit.error import euclidean_bb_normalised_error as err
        g = got.gt_shape
        w = err(fx.pc(b['final']), g)
        ctx.close(got.final_error(), w, 'final-error', msg)
        if a['initial'] is not None:
            ctx.close(got.initial_error(), err(fx.pc(b['initial']), g), 'initial-error', msg)
        if a['it']:
            ctx.close(got.errors(), [err(fx.pc(s), g) for s in b['shapes']], 'errors', msg)
        if 'rec' in a:
            ctx.close(got.reconstructed_initial_error(), err(fx.pc(b['rec']), g), 'reconstructed-error', msg)
    if a['it'] and not d:
        w = [np.linalg.norm(p - q, axis=1) for p, q in zip(b['shapes'], b['shapes'][1:])]
        ctx.check(not fitters.same([np.array(x) for x in got.displacements()], w, tol), 'displacements', msg)
        if a['cls'] != 'Result':
            p = got.to_result()
            ctx.close(p.final_shape.points, b['final'], 'to-result', msg)
            ctx.check((p.initial_shape is None) == (b['initial'] is None), 'to-result', msg)
            if b['initial'] is not None:
                ctx.close(p.initial_shape.points, b['initial'], 'to-result', msg)
    ctx.state(msg, np.round(a['final'], 6))


def image_of(k, ch):
    return fx.make_image(k, n_channels=ch)


def starts(im, mode):
    p = fx.pc(im.landmarks['PTS'].points + np.array([0.75, -0.5]))
    return p.bounding_box() if mode == 'bb' else p


def fit(f, mode, im, st, **kw):
    return (f.fit_from_bb if mode == 'bb' else f.fit_from_shape)(im, st, **kw)


def snapshot(im, st, gt, opts):
    return [im.pixels.copy(), {k: np.array(im.landmarks[k].points) for k in im.landmarks}, np.array(st.points),
            None if gt is None else np.array(gt.points), repr(opts)]


def manual(ctx, spec, mode, prep, im, st, opts, gt):
    """the result the wrapped (scripted) fitter gives to the prepared image, and the mapping back"""
    from menpo.image import Image
    pix, m = oracle(prep, im, st)
    inv = np.linalg.inv(m)
    s2 = fx.pc(apply(inv, st.points))
    return stub11.result(spec, mode, Image(pix), s2, gt, opts), m, pix, s2


def one(ctx, w, spec, mode, prep, im, st, gt, call, effective, msg):
    """one fit through the package w against the manual pipeline"""
    before = snapshot(im, st, gt, (call,))
    n = len(stub11.CALLS)
    kw = dict(call)
    if gt is not None:
        kw['gt_shape'] = gt
    got = fit(w, mode, im, st, **kw)
    want, m, pix, s2 = manual(ctx, spec, mode, prep, im, st, effective, gt)
    compare(ctx, got, want, m, im, msg)
    new = stub11.CALLS[n:]
    ctx.check(len(new) == 1, 'one-fit', '%s: the wrapped fitter was called %d times' % (msg, len(new)))
    if new:
        f, md, px, p, o = new[0]
        ctx.check(f is w.wrapped_fitter and md == mode, 'which-fit', '%s: %s' % (msg, md))
        ctx.check(px.shape == pix.shape and np.allclose(px, pix, rtol=0, atol=1e-9), 'prepared-image',
                  '%s: wrapped fitter got an image of %s, expected %s' % (msg, px.shape, pix.shape))
        ctx.close(p, s2.points, 'prepared-start', msg, rtol=1e-9, atol=1e-8)
        g = o.pop('gt_shape', None)
        ctx.check((g is None) == (gt is None) and (gt is None or np.array_equal(g.points, gt.points)), 'gt', msg)
        ctx.check(o == effective, 'options', lambda: '%s: options %s, expected %s' % (msg, o, effective))
    after = snapshot(im, st, gt, (call,))
    ctx.check(not fitters.same(before[:4], after[:4], 0) and before[4] == after[4], 'inputs-changed', msg)
    return got


def run(case, ctx):
    stub11.BUILT[:] = []
    stub11.CALLS[:] = []
    return globals()['run_' + case['kind']](case, ctx)


def package(spec, bb, shape, prep, **kw):
    from menpofit.io import PickleWrappedFitter
    if prep == 'default' and kw.pop('implicit', False):
        return PickleWrappedFitter(stub11.StubFitter, (spec,), dict(payload=1), bb, shape)
    return PickleWrappedFitter(stub11.StubFitter, (spec,), dict(payload=1), bb, shape, image_preprocess=preparation(prep))


def run_matrix(case, ctx):
    for n, ch, mode, with_gt, costs in itertools.product((0, 1, 2, [1, 2]), (1, 2, 3), ('bb', 'shape'), (0, 1), (0, 1)):
        if isinstance(n, list) and not case['res'].startswith('ms'):
            continue
        spec = dict(kind=case['res'], init=case['init'], n=n)
        im = image_of(3, ch)
        st = starts(im, mode)
        gt = fx.pc(im.landmarks['PTS'].points) if with_gt else None
        if gt is not None and mode == 'bb':
            gt = gt.bounding_box()
        w = package(spec, {}, {}, case['prep'], implicit=bool(ch % 2))
        call = dict(return_costs=True) if costs else {}
        one(ctx, w, spec, mode, case['prep'], im, st, gt, call, call,
            '%s init %s prep %s n %s channels %s %s gt %s costs %s' % (case['res'], case['init'], case['prep'], n, ch, mode,
                                                                      with_gt, costs))


def run_options(case, ctx):
    """every option is absent / packaged / given at the call / both, for both modes and with the other mode's
    options different"""
    spec = dict(kind='nonparam', init=1, n=1)
    P = dict(max_iters=2, alpha=1.5, return_costs=False)
    C = dict(max_iters=3, alpha=0.5, return_costs=True)
    F = dict(max_iters=0, alpha=None, return_costs=False)      # empty values given at the call win too
    O = dict(max_iters=1, alpha=-2.0, return_costs=True, other=7)
    im = image_of(2, 3)
    for mode in ('bb', 'shape'):
        st = starts(im, mode)
        for src in itertools.product((0, 1, 2, 3, 7), repeat=3):
            packed = {k: P[k] if s < 4 else C[k] for k, s in zip(sorted(P), src) if s & 1}
            call = {k: C[k] if s < 4 else F[k] for k, s in zip(sorted(P), src) if s & 2}
            eff = dict(packed)
            eff.update(call)
            bb, sh = (packed, O) if mode == 'bb' else (O, packed)
            keep = (dict(bb), dict(sh))
            w = package(spec, bb, sh, case['prep'])
            msg = 'prep %s %s packaged %s call %s' % (case['prep'], mode, packed, call)
            one(ctx, w, spec, mode, case['prep'], im, st, None, call, eff, msg)
            ctx.check((bb, sh) == keep, 'packaged-options-changed', msg)
            # the wrapped fitter itself stays without the packaged options
            n = len(stub11.CALLS)
            fit(w.wrapped_fitter, mode, im, st)
            ctx.check(stub11.CALLS[n][4] == {}, 'wrapped-fitter-options', '%s: %s' % (msg, stub11.CALLS[n][4]))


def run_history(case, ctx):
    """sequences of fits through one package: each equals the fit of a new package"""
    prep = case['prep']
    spec = dict(kind='ms-param', init=1, n=[1, 1])
    BB, SH = dict(max_iters=[1, 2]), dict(alpha=1.0)
    ims = [image_of(2, 1), image_of(4, 3)]
    calls = []
    for i, im in enumerate(ims):
        calls.append(('bb', i, {}))
        calls.append(('shape', i, {}))
    calls.append(('bb', 0, dict(max_iters=[0, 1], return_costs=True)))
    calls.append(('shape', 1, dict(alpha=3.0, max_iters=[2, 0])))
    calls.append(('fail', 0, dict(max_iters='x')))
    for L in range(1, case['depth'] + 1):
        for seq in itertools.product(range(len(calls)), repeat=L):
            if L == case['depth'] and len(set(seq)) == 1 and L > 2:
                continue
            bb, sh = dict(BB), dict(SH)
            w = package(spec, bb, sh, prep)
            first = w.wrapped_fitter
            for k, c in enumerate(seq):
                mode, i, call = calls[c]
                im = ims[i]
                if mode == 'fail':
                    try:
                        fit(w, 'bb', im, starts(im, 'bb'), **call)
                        ctx.bad('history-fail', '%s step %d: a failing fit returned' % (seq, k))
                    except Exception:
                        pass
                    continue
                eff = dict(BB if mode == 'bb' else SH)
                eff.update(call)
                one(ctx, w, spec, mode, prep, im, starts(im, mode), None, call, eff, 'prep %s history %s step %d' % (
                    prep, seq, k))
                ctx.check(bb == BB and sh == SH, 'packaged-options-changed', 'history %s step %d' % (seq, k))
            ctx.check(w.wrapped_fitter is first, 'wrapped-fitter-replaced', str(seq))


def run_recipe(case, ctx):
    import menpo.io as mio
    from menpofit.io import PickleWrappedFitter
    spec = dict(kind='param', init=1, n=2)
    arr = np.arange(6.)
    d = tempfile.mkdtemp(prefix='verif-p11-')
    try:
        for form in ('positional', 'keyword'):
            bb, sh = dict(max_iters=1), dict(max_iters=3, alpha=2.0)
            prep = preparation(case['prep'])
            if form == 'positional':
                rec = partial(PickleWrappedFitter, stub11.StubFitter, (spec,), dict(payload=arr), bb, sh, image_preprocess=prep)
            else:
                rec = partial(PickleWrappedFitter, fitter_cls=stub11.StubFitter, fitter_args=(spec,),
                              fitter_kwargs=dict(payload=arr), fit_from_bb_kwargs=bb, fit_from_shape_kwargs=sh,
                              image_preprocess=prep)
            n = len(stub11.BUILT)
            path = os.path.join(d, '%s.pkl' % form)
            mio.export_pickle(rec, path)
            ctx.check(len(stub11.BUILT) == n, 'built-at-export', '%s: packaging built the fitter' % form)
            loaded = []
            for k in range(2):
                rec2 = mio.import_pickle(path)
                ctx.check(len(stub11.BUILT) == n, 'built-at-load', '%s: unpickling a recipe built the fitter' % form)
                for j in range(2):
                    w = rec2()
                    n += 1
                    ctx.step()
                    ctx.check(len(stub11.BUILT) == n, 'built-once', '%s: %d fitters built, expected %d' % (
                        form, len(stub11.BUILT), n))
                    ctx.check(isinstance(w.wrapped_fitter, stub11.StubFitter)
                              and all(w.wrapped_fitter is not v.wrapped_fitter for v in loaded), 'created-anew', form)
                    a, kw = stub11.BUILT[-1]
                    ctx.check(len(a) == 1 and a[0] == spec and sorted(kw) == ['payload']
                              and np.array_equal(kw['payload'], arr), 'constructor-arguments', '%s: %s %s' % (form, a, kw))
                    loaded.append(w)
                    for mode, packed in (('bb', bb), ('shape', sh)):
                        im = image_of(5, 3)
                        for call in ({}, dict(alpha=0.25)):
                            eff = dict(packed)
                            eff.update(call)
                            one(ctx, w, spec, mode, case['prep'], im, starts(im, mode), None, call, eff,
                                'recipe %s prep %s load %d.%d %s %s' % (form, case['prep'], k, j, mode, call))
                if form == 'keyword':
                    # options given at load time replace the packaged ones, those of the call still win
                    w = rec2(fit_from_bb_kwargs=dict(alpha=9.0), fitter_kwargs=dict(payload=3))
                    n += 1
                    im = image_of(5, 1)
                    one(ctx, w, spec, 'bb', case['prep'], im, starts(im, 'bb'), None, {}, dict(alpha=9.0), 'load-time options')
                    one(ctx, w, spec, 'bb', case['prep'], im, starts(im, 'bb'), None, dict(alpha=1.0, max_iters=2),
                        dict(alpha=1.0, max_iters=2), 'load-time and call options')
                    one(ctx, w, spec, 'shape', case['prep'], im, starts(im, 'shape'), None, {}, sh, 'load-time options, other mode')
                    ctx.check(w.wrapped_fitter.payload == 3, 'load-time-constructor', str(w.wrapped_fitter.payload))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recipe_of(name):
    """(fitter class, args, kwargs, options per mode, call options)"""
    import menpofit.aam as A
    import menpofit.atm as T
    import menpofit.clm as C
    import menpofit.aps as P
    import menpofit.sdm as S
    import menpofit.lk as L
    import menpofit.unified_aam_clm as U
    import menpofit.transform as TR
    import menpofit.dlib as D
    k = name.split(':')
    if k[0] == 'aam':
        return (A.LucasKanadeAAMFitter, (fam.aam(k[1]),), dict(lk_algorithm_cls=getattr(A, k[2]), n_shape=3, n_appearance=2),
                dict(max_iters=[2, 1]), dict(max_iters=1))
    if k[0] == 'atm':
        return (T.LucasKanadeATMFitter, (fam.atm(k[1]),), dict(lk_algorithm_cls=getattr(T, k[2]), n_shape=3),
                dict(max_iters=[2, 1]), dict(max_iters=1))
    if k[0] == 'clm':
        return C.GradientDescentCLMFitter, (fam.clm(),), dict(n_shape=3), dict(max_iters=[1, 2]), dict(max_iters=1)
    if k[0] == 'uni':
        from menpofit.unified_aam_clm import algorithm as ua
        return (U.UnifiedAAMCLMFitter, (fam.unified(),), dict(algorithm_cls=getattr(ua, k[1])), dict(max_iters=[1, 2]),
                dict(max_iters=1))
    if k[0] == 'aps':
        from menpofit.aps.algorithm.gn import Inverse
        return (P.GaussNewtonAPSFitter, (fam.aps(),), dict(gn_algorithm_cls=Inverse, n_shape=3), dict(max_iters=[1, 2]),
                dict(max_iters=1))
    if k[0] == 'lk':
        return (L.LucasKanadeFitter, (fx.make_image(0),), dict(fam.BASE), dict(max_iters=[1, 2]), dict(max_iters=1))
    return None


class Ready(object):
    """hands out an already trained fitter (training is random)"""

    def __init__(self, fitter):
        self.fitter = fitter

    def __call__(self):
        return self.fitter


def run_real(case, ctx):
    from menpofit.io import PickleWrappedFitter
    name = case['fam']
    r = recipe_of(name)
    if r is None:
        if name.startswith('sdm') or name.startswith('sdaam'):
            f = fitters.fitter(name)
        else:
            import menpofit.dlib as D
            f = fam.dlib_ert()
            if name == 'wrapper':
                f = D.DlibWrapper(f.algorithms[-1].dlib_model)
        r = Ready(f), (), {}, {}, {}
    cls, args, kw, packed, call = r
    prep = preparation(case['prep'])
    w = PickleWrappedFitter(cls, args, kw, dict(packed), dict(packed), image_preprocess=prep)
    ref = cls(*args, **kw)
    for k in (7, 1):
        im = fx.make_image(k)
        gt = fx.pc(im.landmarks['PTS'].points)
        for mode in ('bb', 'shape'):
            st = starts(im, mode)
            for c in ([{}] + ([call] if call else [])):
                for g in (None, gt):
                    opts = dict(packed)
                    opts.update(c)
                    extra = {} if g is None else dict(gt_shape=g)
                    if prep is None:
                        im2, m = im, np.eye(3)
                        st2 = st
                    else:
                        im2, t = prep(im, st)
                        m = t.h_matrix
                        st2 = t.pseudoinverse().apply(st)
                    msg = '%s prep %s image %d %s call %s gt %s' % (name, case['prep'], k, mode, c, g is not None)
                    try:
                        want = fit(ref, mode, im2, st2, **dict(opts, **extra))
                    except Exception as e:
                        want = e
                    try:
                        got = fit(w, mode, im, st, **dict(c, **extra))
                    except Exception as e:
                        if not isinstance(want, Exception):
                            ctx.bad('real-raises', '%s: %s: %s' % (msg, type(e).__name__, e))
                        ctx.step()
                        continue
                    if isinstance(want, Exception):
                        ctx.bad('real-raises-not', '%s: the wrapped fitter raises %s' % (msg, want))
                        continue
                    compare(ctx, got, want, m, im, msg, tol=1e-7)


def run_default(case, ctx):
    """the default preparation: grey image cropped around the start, mapped back by the returned transform"""
    from menpofit.io import image_greyscale_crop_preprocess as prep
    for ch in (1, 2, 3, 4):
        for shift in ((0, 0), (-9, 0), (9, 12), (0.5, -0.25)):
            for prop in (None, 0.0, 0.1, 0.5, 1.0, 2.0):
                im = image_of(1, ch)
                p = fx.pc(fx.base_points() + np.array(shift))
                kw = {} if prop is None else dict(crop_proportion=prop)
                keep = im.pixels.copy(), p.points.copy()
                out, t = prep(im, p, **kw)
                ctx.step()
                v = 1.0 if prop is None else prop
                pix = im.pixels
                if ch == 3:
                    pix = im.as_greyscale(mode='luminosity').pixels
                lo, hi = p.points.min(0), p.points.max(0)
                d = v * (hi - lo).min()
                lo, hi = np.floor(lo - d), np.ceil(hi + d)
                lo, hi = np.maximum(lo, 0).astype(int), np.minimum(hi, pix.shape[1:]).astype(int)
                msg = 'channels %d shift %s proportion %s' % (ch, shift, prop)
                want = pix[:, lo[0]:hi[0], lo[1]:hi[1]]
                ctx.check(out.pixels.shape == want.shape and np.allclose(out.pixels, want, rtol=0, atol=1e-9), 'default-image',
                          lambda: '%s: %s expected %s' % (msg, out.pixels.shape, want.shape))
                ctx.close(t.apply(np.array([[0., 0.], [1., 2.]])), np.array([[0., 0.], [1., 2.]]) + lo, 'default-transform', msg)
                ctx.check(np.array_equal(keep[0], im.pixels) and np.array_equal(keep[1], p.points), 'default-inputs', msg)
                ctx.state(ch, shift, prop)
