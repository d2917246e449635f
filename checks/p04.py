"""P04 - fitting results account for every iteration exactly once.

Part 1 (explicit state): every small history - iterations per scale, which
optional data exist - is turned into result objects of every class of the
library and all accessors are compared with the history itself.
Part 2 (binding): the same accounting model is compared with results produced
by real fits of every fitter family.
"""
import itertools
import numpy as np
from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all small fitting histories (iterations per scale x available data x transforms) with '
             'every result class against the history, plus conformance of the results of real fits of every fitter')
RULE = ('all tuples of 0..3 iterations over 1..3 scales x initial shape x ground truth x image x costs x per-scale '
        'transforms; all view selections of small histories; all fitter families x budgets; a state is a distinct accounting')
ASSUMPTIONS = ['iteration numbers shown by viewers count the performed iterations from one']
CHUNK = 4


def BOUNDS(tier):
    return dict(iterations_per_scale=3, scales=3, fits='every family' if tier == 'quick' else 'every family and algorithm')


class Aff(object):
    """affine x -> x*d + t recorded as plain numbers"""
    def __init__(self, d, t):
        self.d, self.t = np.array(d, float), np.array(t, float)

    def menpo(self):
        from menpo.transform import Affine
        h = np.diag([self.d[0], self.d[1], 1.])
        h[:2, 2] = self.t
        return Affine(h)

    def __call__(self, p):
        return p * self.d + self.t


AFF = [[(1, 1), (0, 0)], [(1.5, 1.25), (2, -3)], [(0.8, 0.9), (-1, 4)]]
SCT = [[(2, 2), (0, 0)], [(1.25, 1.3), (0, 0)], [(1, 1), (0, 0)]]


def pts(tag):
    """a unique shape"""
    b = fx.base_points(4)
    return b * (1 + 0.01 * tag) + np.array([0.37 * tag, np.sin(tag)])


CLASSES = ['NP', 'P', 'LK', 'AAM', 'APS', 'UNI']


def classes(name):
    import menpofit.result as R
    import menpofit.lk.result as L
    import menpofit.aam.result as A
    import menpofit.aps.result as S
    import menpofit.unified_aam_clm.result as U
    return dict(NP=(R.NonParametricIterativeResult, R.MultiScaleNonParametricIterativeResult),
                P=(R.ParametricIterativeResult, R.MultiScaleParametricIterativeResult),
                LK=(L.LucasKanadeAlgorithmResult, L.LucasKanadeResult),
                AAM=(A.AAMAlgorithmResult, A.AAMResult), APS=(S.APSAlgorithmResult, S.APSResult),
                UNI=(U.UnifiedAAMCLMAlgorithmResult, U.UnifiedAAMCLMResult))[name]


def cases(tier):
    m = 3 if tier == 'quick' else 4
    for cls in CLASSES:
        for ns in (1, 2, 3):
            for iters in itertools.product(range(m if ns < 3 or tier != 'quick' else 3), repeat=ns):
                yield dict(kind='hist', cls=cls, iters=list(iters))
    for cls in CLASSES[:3]:
        for iters in ([1], [2], [0], [3], [0, 2], [2, 0], [1, 2], [0, 0], [2, 2, 1], [12, 1]):
            yield dict(kind='view', cls=cls, iters=list(iters))
    yield dict(kind='plain')
    for f in fit_families(tier):
        yield dict(kind='fit', fam=f)


# ------------------------------------------------------------- the reference
class History(object):
    """what happened: per scale the input shape, estimates, parameters, costs"""
    def __init__(self, cls, iters, init, gt, image, costs):
        self.cls, self.iters = cls, iters
        self.param = cls != 'NP'
        tag = itertools.count(1)
        self.scales = []
        for j, n in enumerate(iters):
            k = n + 1 if self.param else n
            self.scales.append(dict(
                init=pts(next(tag)) if init else None,
                est=[pts(next(tag)) for _ in range(k)],
                par=[np.arange(4.) + next(tag) for _ in range(k)],
                app=[np.arange(3.) - next(tag) for _ in range(k)],
                costs=[float(next(tag)) for _ in range(k)] if costs else None))
        self.gt = pts(50.5) if gt else None
        self.image = image

    def tr(self, j, p):
        return Aff(*AFF[j])(Aff(*SCT[j])(p))

    # --- single scale
    def single(self, j=0):
        C = classes(self.cls)[0]
        s = self.scales[j]
        kw = dict(initial_shape=None if s['init'] is None else fx.pc(s['init']), image=self.image,
                  gt_shape=None if self.gt is None else fx.pc(self.gt), costs=None if s['costs'] is None else list(s['costs']))
        sh = s['given'] = [fx.pc(p) for p in s['est']]
        par = [p.copy() for p in s['par']]
        if self.cls == 'NP':
            return C(sh, **kw)
        if self.cls == 'P':
            return C(sh, par, **kw)
        if self.cls == 'LK':
            return C(sh, par, **kw)
        if self.cls in ('AAM', 'UNI'):
            return C(sh, par, [a.copy() for a in s['app']], **kw)
        return C(sh, par, appearance_costs=None if s['costs'] is None else [c + .25 for c in s['costs']],
                 deformation_costs=None if s['costs'] is None else [c + .75 for c in s['costs']], **kw)

    def multi(self):
        C = classes(self.cls)[1]
        n = len(self.iters)
        rs = [self.single(j) for j in range(n)]
        return rs, C(results=rs, scales=[0.5 + 0.1 * (j // 2) for j in range(n)],
                     affine_transforms=[Aff(*AFF[j]).menpo() for j in range(n)],
                     scale_transforms=[Aff(*SCT[j]).menpo() for j in range(n)], image=self.image,
                     gt_shape=None if self.gt is None else fx.pc(self.gt))


def raises(ctx, fn, what):
    ctx.raises(ValueError, fn, 'missing-' + what, what)


def err(a, b):
    return float(np.sum(np.abs(a.points - 1.5 * b.points) * [[1, 2]]))


def bb_err(a, b):
    """normalised by the box of the ground truth: default of all errors"""
    r = b.max(0) - b.min(0)
    return np.mean(np.sqrt(((a - b) ** 2).sum(1))) / np.mean(r)


def account(ctx, r, shapes, init, gt, recon, n_iters, msg):
    """everything that follows from the list of shapes"""
    ctx.trace()
    ctx.step()
    ctx.check(r.n_iters == n_iters, 'n_iters', '%s: %r instead of %d' % (msg, r.n_iters, n_iters))
    ctx.check(bool(r.is_iterative), 'is_iterative', msg)
    got = [s.points for s in r.shapes]
    if not ctx.check(len(got) == len(shapes), 'shapes', '%s: %d shapes instead of %d' % (msg, len(got), len(shapes))):
        return
    for k, (a, b) in enumerate(zip(got, shapes)):
        ctx.close(a, b, 'shapes', '%s shape %d' % (msg, k))
    ctx.close(r.final_shape.points, shapes[-1], 'final_shape', msg)
    if init is None:
        ctx.check(r.initial_shape is None, 'initial_shape', msg)
    else:
        ctx.close(r.initial_shape.points, init, 'initial_shape', msg)
    if gt is None:
        ctx.check(r.gt_shape is None, 'gt_shape', msg)
        raises(ctx, lambda: r.errors(), 'gt-errors')
        raises(ctx, lambda: r.final_error(), 'gt-final')
        raises(ctx, lambda: r.initial_error(), 'gt-initial')
        if recon is not None:
            raises(ctx, lambda: r.reconstructed_initial_error(), 'gt-recon')
    else:
        ctx.close(r.gt_shape.points, gt, 'gt_shape', msg)
        f = [float(np.sum(np.abs(s - 1.5 * gt) * [[1, 2]])) for s in shapes]
        for ce, ref in ((err, f), (None, None)):
            e = r.errors(compute_error=ce) if ce else r.errors()
            if ref is None:
                from menpofit.error import euclidean_bb_normalised_error as d
                ref = [d(fx.pc(s), fx.pc(gt)) for s in shapes]
            ctx.close(e, ref, 'errors', msg)
            ctx.close(r.final_error(compute_error=ce), ref[-1], 'final_error', msg)
            if init is None:
                raises(ctx, lambda: r.initial_error(compute_error=ce), 'initial')
            else:
                ctx.close(r.initial_error(compute_error=ce), ref[0], 'initial_error', msg)
            if recon is not None:
                ctx.close(r.reconstructed_initial_error(compute_error=ce), ref[recon[0]], 'reconstructed_initial_error', msg)
    d = [np.sqrt(((a - b) ** 2).sum(1)) for a, b in zip(shapes, shapes[1:])]
    gd = r.displacements()
    if ctx.check(len(gd) == len(d), 'displacements', '%s: %d' % (msg, len(gd))):
        for a, b in zip(gd, d):
            ctx.close(a, b, 'displacements', msg)
        for st, fn in dict(mean=np.mean, median=np.median, max=np.max, min=np.min).items():
            ctx.close(r.displacements_stats(stat_type=st), [fn(x) for x in d], 'displacements_stats', '%s %s' % (msg, st))
        ctx.close(r.displacements_stats(), [np.mean(x) for x in d], 'displacements_stats', msg + ' default')
        ctx.raises(ValueError, lambda: r.displacements_stats(stat_type='typo'), 'displacements_stats', 'unknown statistic')
    text = str(r)
    ctx.check(str(r.final_shape.n_points) in text, 'str', msg)
    if gt is not None:
        ctx.check('Final error: %.4f' % r.final_error() in text, 'str', '%s: %r' % (msg, text))
        ctx.check(('Initial error' in text) == (init is not None), 'str', '%s: %r' % (msg, text))
        if init is not None:
            ctx.check('Initial error: %.4f' % r.initial_error() in text, 'str', '%s: %r' % (msg, text))
    else:
        ctx.check('error' not in text, 'str', text)
    # reduced result
    for a, b, c in itertools.product((True, False), repeat=3):
        p = r.to_result(pass_image=a, pass_initial_shape=b, pass_gt_shape=c)
        ctx.close(p.final_shape.points, shapes[-1], 'to_result', msg)
        ctx.check((p.image is not None) == (a and r.image is not None), 'to_result', 'image')
        if p.image is not None:
            ctx.check(np.array_equal(p.image.pixels, r.image.pixels), 'to_result', 'image pixels')
        ctx.check((p.initial_shape is not None) == (b and init is not None), 'to_result', 'initial shape')
        ctx.check((p.gt_shape is not None) == (c and gt is not None), 'to_result', 'ground truth')
        if p.initial_shape is not None:
            ctx.close(p.initial_shape.points, init, 'to_result', msg)
        if p.gt_shape is not None:
            ctx.close(p.gt_shape.points, gt, 'to_result', msg)
        ctx.check(not p.is_iterative, 'to_result', 'iterative')
    p = r.to_result()
    ctx.check((p.image is None) == (r.image is None) and (p.gt_shape is None) == (gt is None) and
              (p.initial_shape is None) == (init is None), 'to_result', 'defaults')


def seq(ctx, got, exp, key, msg):
    if exp is None:
        ctx.check(got is None, key, '%s: %r' % (msg, got))
        return
    if ctx.check(got is not None and len(got) == len(exp), key, '%s: %s entries instead of %d' % (
            msg, None if got is None else len(got), len(exp))):
        for a, b in zip(got, exp):
            ctx.close(a, b, key, msg)


def k_hist(case, ctx):
    from menpo.image import Image
    cls, iters = case['cls'], case['iters']
    for init, gt, im, costs in itertools.product((True, False), repeat=4):
        if cls == 'NP' and not init and iters[0] == 0 and sum(iters) == 0:
            continue     # nothing at all is known about such a fit
        image = Image(fx.pixels((8, 9), 1)) if im else None
        H = History(cls, iters, init, gt, image, costs)
        one = 1 if H.param else 0
        # ---- per scale
        for j, n in enumerate(iters):
            s = H.scales[j]
            if not s['est'] and not init:
                continue
            r = H.single(j)
            sh = ([s['init']] if init else []) + s['est']
            rec = [1 if init else 0] if H.param else None
            account(ctx, r, sh, s['init'], H.gt, rec, n, '%s scale %d of %s' % (cls, j, iters))
            extras(ctx, H, r, s['par'], s['app'], s['costs'], 'single')
            if H.param:
                ctx.close(r.reconstructed_initial_shape.points, s['est'][0], 'reconstructed_initial_shape', cls)
            ctx.check((r.image is None) == (not im), 'image', 'image')
            if im:
                ctx.check(np.array_equal(r.image.pixels, image.pixels), 'image', 'pixels')
        if any(not s['est'] and s['init'] is None for s in H.scales):
            continue
        # ---- multi scale
        rs, r = H.multi()
        before = [[x.points.copy() for x in q.shapes] for q in rs]
        sh, idx, par, app, cst = [], [], [], [], [] if costs else None
        if init:
            sh.append(H.tr(0, H.scales[0]['init']))
        for j, s in enumerate(H.scales):
            idx.append(len(sh))
            sh += [H.tr(j, p) for p in s['est']]
            par += s['par']
            app += s['app']
            if costs:
                cst += s['costs']
        msg = '%s multi %s init=%s' % (cls, iters, init)
        account(ctx, r, sh, sh[0] if init else None, H.gt, idx if H.param else None, sum(iters), msg)
        extras(ctx, H, r, par, app, cst, 'multi')
        ctx.check(list(r.n_iters_per_scale) == list(iters), 'n_iters_per_scale', '%s: %s' % (msg, r.n_iters_per_scale))
        ctx.check(r.n_scales == len(iters), 'n_scales', msg)
        if H.param:
            rec = r.reconstructed_initial_shapes
            if ctx.check(len(rec) == len(iters), 'reconstructed_initial_shapes', msg):
                for j in range(len(iters)):
                    ctx.close(rec[j].points, sh[idx[j]], 'reconstructed_initial_shapes', '%s scale %d' % (msg, j))
        for q, b in zip(rs, before):
            ctx.check(len(q.shapes) == len(b) and all(np.array_equal(x.points, y) for x, y in zip(q.shapes, b)),
                      'aliasing', 'results of the scales were modified')
        for s in H.scales:
            ctx.check(len(s['given']) == len(s['est']) and all(np.array_equal(x.points, y) for x, y in zip(s['given'], s['est'])),
                      'given-shapes', '%s: the list of shapes given was changed to %d' % (msg, len(s['given'])))
        ctx.state(cls, iters, init, gt, im, costs, r.n_iters, len(r.shapes))
    C = classes(cls)[1]
    H = History(cls, iters, True, False, None, False)
    rs, _ = H.multi()
    n = len(iters)
    ctx.raises(ValueError, lambda: C(results=rs, scales=[1.0] * (n + 1), affine_transforms=[Aff(*AFF[0]).menpo()] * (n + 1),
                                     scale_transforms=[Aff(*SCT[0]).menpo()] * (n + 1)), 'scales-mismatch', 'one scale too many')


def extras(ctx, H, r, par, app, costs, msg):
    if H.cls in ('P', 'AAM', 'APS', 'UNI'):
        seq(ctx, r.shape_parameters, par, 'shape_parameters', msg)
    if H.cls == 'LK':
        seq(ctx, r.homogeneous_parameters, par, 'homogeneous_parameters', msg)
    if H.cls in ('AAM', 'UNI'):
        seq(ctx, r.appearance_parameters, app, 'appearance_parameters', msg)
    seq(ctx, r.costs, costs, 'costs', msg)
    if H.cls == 'APS':
        seq(ctx, r.appearance_costs, None if costs is None else [c + .25 for c in costs], 'appearance_costs', msg)
        seq(ctx, r.deformation_costs, None if costs is None else [c + .75 for c in costs], 'deformation_costs', msg)


def lines(plt):
    a = plt.gca()
    return [l.get_xydata() for l in a.lines]


def k_view(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from menpo.image import Image
    cls, iters = case['cls'], case['iters']
    try:
        for init, multi, im in itertools.product((True, False), (False, True), (True, False)):
            if (len(iters) > 1) != multi and not (multi and len(iters) == 1):
                continue
            H = History(cls, iters, init, True, Image(fx.pixels((30, 40), 1)) if im else None, True)
            if any(not s['est'] and s['init'] is None for s in H.scales) or not any(s['est'] or s['init'] is not None for s in H.scales):
                continue
            if multi:
                r = H.multi()[1]
            else:
                r = H.single(0)
            exp = []       # (kind, number, points)
            num = 0
            for j, s in enumerate(H.scales):
                t = (lambda p, j=j: H.tr(j, p)) if multi else (lambda p: p)
                if init and j == 0:
                    exp.append(('Initial', None, t(s['init'])))
                for k, p in enumerate(s['est']):
                    if H.param and k == 0:
                        exp.append(('Reconstruction', j, t(p)))
                    else:
                        num += 1
                        exp.append(('iteration', num, t(p)))
            if exp[-1][0] == 'iteration':
                exp[-1] = ('Final', None, exp[-1][2])
            sel = [None] + [[k] for k in range(len(exp))][:6] + ([[len(exp) - 1, 0]] if len(exp) > 1 else []) + [0]
            for it in sel:
                want = exp if it is None else [exp[k] for k in ([it] if isinstance(it, int) else it)]
                for sub in ((False, True) if it is None else (False,)):
                    r.view_iterations(iters=it, subplots_enabled=sub, new_figure=True, render_lines=False)
                    f = plt.gcf()
                    if sub:
                        titles = [a.get_title() for a in f.axes]
                        pts_ = [a.lines[0].get_xydata() for a in f.axes]
                    else:
                        leg = f.axes[0].get_legend()
                        titles = [t.get_text() for t in leg.get_texts()] if leg is not None else None
                        pts_ = [l.get_xydata() for l in f.axes[0].lines]
                    ctx.step()
                    ctx.trace()
                    msg = '%s %s init=%s multi=%s iters=%s' % (cls, iters, init, multi, it)
                    if ctx.check(len(pts_) == len(want), 'view-count', '%s: %d drawn' % (msg, len(pts_))):
                        for k, w in enumerate(want):
                            ctx.close(pts_[k][:, ::-1], w[2], 'view-points', '%s: item %d (%s)' % (msg, k, w[0]))
                            if titles is None or (sub is False and len(titles) != len(want)):
                                ctx.bad('view-label', '%s: labels %s' % (msg, titles))
                                continue
                            t = titles[k]
                            ok = t.lower().startswith(w[0].lower())
                            if w[0] == 'iteration':
                                ok = ok and int(t.split()[-1]) == w[1]
                            ctx.check(ok, 'view-label', '%s: item %d labelled %r, expected %s' % (msg, k, t, w[:2]))
                        if titles:
                            ctx.check(len(set(titles)) == len(titles), 'view-label', 'ambiguous labels %s' % titles)
                    plt.close('all')
            # curves
            for fn, y in ((lambda: r.plot_errors(), r.errors()), (lambda: r.plot_displacements(stat_type='max'),
                          r.displacements_stats('max')), (lambda: r.plot_costs(), r.costs)):
                if len(y) == 0:
                    continue
                fn()
                d = plt.gca().lines[0].get_xydata()
                ctx.step()
                ctx.close(d, np.column_stack([np.arange(len(y)), y]), 'plot', 'curve')
                plt.close('all')
            # final / initial / ground truth view
            for ini, g, sub in itertools.product((True, False), repeat=3):
                r.view(render_initial_shape=ini, render_gt_shape=g, subplots_enabled=sub, new_figure=True, render_lines=False)
                f = plt.gcf()
                pl = [l.get_xydata()[:, ::-1] for a in f.axes for l in a.lines]
                want = [exp[-1][2]] + ([exp[0][2]] if ini and init else []) + ([H.gt] if g else [])
                ctx.step()
                if ctx.check(len(pl) == len(want), 'view-result', '%d shapes drawn, %d expected' % (len(pl), len(want))):
                    for a, b in zip(pl, want):
                        ctx.close(a, b, 'view-result', 'drawn shape')
                plt.close('all')
            ctx.state(cls, iters, init, multi, im)
    finally:
        plt.close('all')


def k_plain(case, ctx):
    from menpofit.result import Result
    from menpo.image import Image, MaskedImage
    for init, gt, im in itertools.product((True, False), (True, False), (0, 1, 2)):
        image = [None, Image(fx.pixels((5, 6), 0)), MaskedImage(fx.pixels((5, 6), 0))][im]
        r = Result(fx.pc(pts(1)), image=image, initial_shape=fx.pc(pts(2)) if init else None, gt_shape=fx.pc(pts(3)) if gt else None)
        ctx.step()
        ctx.trace()
        ctx.state(init, gt, im)
        ctx.check(not r.is_iterative, 'plain', 'iterative')
        ctx.close(r.final_shape.points, pts(1), 'plain', 'final')
        ctx.check((r.initial_shape is None) == (not init) and (r.gt_shape is None) == (not gt) and (r.image is None) == (im == 0),
                  'plain', 'missing data')
        if gt:
            ctx.close(r.final_error(compute_error=err), err(fx.pc(pts(1)), fx.pc(pts(3))), 'plain', 'final error')
            if init:
                ctx.close(r.initial_error(compute_error=err), err(fx.pc(pts(2)), fx.pc(pts(3))), 'plain', 'initial error')
            else:
                raises(ctx, lambda: r.initial_error(), 'initial')
        else:
            raises(ctx, lambda: r.final_error(), 'gt-final')
            raises(ctx, lambda: r.initial_error(), 'gt-initial')
        str(r)


# ----------------------------------------------------------------- real fits
def fit_families(tier):
    out = ['lk:%s:%s' % (a, r) for a in fam.LK_ALGS for r in ('SSD',)]
    out += ['aam:%s' % a for a in (fam.AAM_ALGS if tier != 'quick' else fam.AAM_ALGS[1::2])]
    out += ['atm:%s' % a for a in ('ForwardCompositional', 'InverseCompositional')]
    out += ['clm:%s' % a for a in fam.CLM_ALGS] + ['uni:%s' % a for a in fam.UNI_ALGS] + ['aps:%s' % a for a in fam.APS_ALGS]
    out += ['sdm:%s' % a for a in (fam.SDM_ALGS if tier != 'quick' else
            ['NonParametricNewton', 'ParametricShapeNewton', 'ParametricAppearanceProjectOutNewton', 'FullyParametricProjectOutNewton'])]
    out += ['sdaam:%s' % a for a in (fam.AAM_SD_ALGS if tier != 'quick' else fam.AAM_SD_ALGS[::2])]
    return out


def build(f, n_iterations=(2, 1)):
    k = f.split(':')
    if k[0] == 'lk':
        return fam.lk_fitter(k[1], k[2])
    if k[0] == 'aam':
        return fam.aam_fitter(fam.aam('HolisticAAM'), k[1], n_shape=3, n_appearance=2)
    if k[0] == 'atm':
        return fam.atm_fitter(fam.atm('HolisticATM'), k[1], n_shape=3)
    if k[0] == 'clm':
        return fam.gd_fitter(fam.clm(), k[1], n_shape=3)
    if k[0] == 'uni':
        return fam.uni_fitter(fam.unified(), k[1])
    if k[0] == 'aps':
        return fam.aps_fitter(fam.aps(), k[1], n_shape=3)
    if k[0] == 'sdm':
        return fam.sdm(k[1], n_iterations=list(n_iterations))
    return fam.sd_aam(k[1], n_iterations=list(n_iterations))


def recorded(run, runs):
    import inspect
    sig = inspect.signature(run)

    def f(*args, **kw):
        b = sig.bind(*args, **kw).arguments
        kept = {}
        for k, v in b.items():
            kept[k] = v.copy() if hasattr(v, 'copy') and not isinstance(v, dict) else v
        r = run(*args, **kw)
        runs.append((kept, r))
        return r
    return f


def check_runs(ctx, runs, budget, with_gt, msg):
    """the result of each scale's algorithm carries what that algorithm was given"""
    ctx.check(len(runs) == len(budget), 'alg-runs', '%s: %d runs' % (msg, len(runs)))
    for j, (a, r) in enumerate(runs):
        m = '%s algorithm of scale %d' % (msg, j)
        ctx.step()
        ctx.check(r.n_iters == budget[j], 'alg-n_iters', '%s: %s' % (m, r.n_iters))
        if ctx.check(r.image is not None, 'alg-image', m + ': no image'):
            ctx.check(np.array_equal(r.image.pixels, a['image'].pixels), 'alg-image', m + ': another image')
        ctx.close(r.initial_shape.points, a['initial_shape'].points, 'alg-initial', m, atol=1e-9)
        ctx.check((r.gt_shape is not None) == with_gt == (a.get('gt_shape') is not None), 'alg-gt', '%s: ground truth %s' % (m, r.gt_shape))
        if with_gt and r.gt_shape is not None:
            ctx.close(r.gt_shape.points, a['gt_shape'].points, 'alg-gt', m, atol=1e-9)
            want = [np.sqrt(np.mean(np.sum((s.points - a['gt_shape'].points) ** 2, axis=1))) for s in r.shapes]

            def dist(x, y):
                return float(np.sqrt(np.mean(np.sum((x.points - y.points) ** 2, axis=1))))
            ctx.close(r.errors(compute_error=dist), want, 'alg-errors', m, atol=1e-9)
        ctx.check(r.costs is None, 'alg-costs', '%s: costs nobody asked for' % m)


def k_fit(case, ctx):
    f = case['fam']
    fit = None if f.startswith('sd') else build(f)
    im, gt, init = fam.test_image()
    sd = f.startswith('sd')
    budgets = [[2, 1], [0, 2], [1, 0], [0, 0]]
    for b in budgets:
        if sd:
            fit = build(f, b)
        for with_gt in (True, False):
            kw = {} if sd else dict(max_iters=b)
            runs = []
            for a in fit.algorithms:
                a.run = recorded(a.run, runs)
            try:
                r = fit.fit_from_shape(im, init, gt_shape=gt if with_gt else None, **kw)
            finally:
                for a in fit.algorithms:
                    a.__dict__.pop('run', None)
            want = b
            msg = '%s budget %s' % (f, b)
            check_runs(ctx, runs, b, with_gt, msg)
            ctx.step()
            ctx.trace()
            ctx.check(list(r.n_iters_per_scale) == want, 'fit-n_iters', '%s: iterations %s' % (msg, r.n_iters_per_scale))
            ctx.check(r.n_iters == sum(want), 'fit-n_iters', '%s: %s iterations' % (msg, r.n_iters))
            par = hasattr(r, 'reconstructed_initial_shapes')
            n = 1 + sum(want) + (2 if par else 0)
            ctx.check(len(r.shapes) == n, 'fit-shapes', '%s: %d shapes instead of %d' % (msg, len(r.shapes), n))
            for attr in ('shape_parameters', 'homogeneous_parameters', 'appearance_parameters'):
                try:
                    v = getattr(r, attr)
                except AttributeError:
                    continue
                if v is not None:
                    ctx.check(len(v) == n - 1, 'fit-parameters', '%s: %d %s' % (msg, len(v), attr))
            if par:
                ctx.check(len(r.reconstructed_initial_shapes) == 2, 'fit-recon', msg)
                # each scale's reconstruction is close to where the previous scale ended
                i1 = 1 + want[0] + 1
                ctx.close(r.reconstructed_initial_shapes[1].points, r.shapes[i1].points, 'fit-recon', msg)
                ctx.check(np.abs(r.reconstructed_initial_shapes[0].points - init.points).max() < 6., 'fit-recon',
                          '%s: reconstruction of the start is far from it' % msg)
            ctx.close(r.initial_shape.points, init.points, 'fit-initial', msg, atol=1e-6)
            ctx.close(r.final_shape.points, r.shapes[-1].points, 'fit-final', msg)
            if with_gt:
                ctx.close(r.gt_shape.points, gt.points, 'fit-gt', msg, atol=1e-6)
                ctx.check(len(r.errors()) == n, 'fit-errors', msg)
            ctx.check(np.array_equal(r.image.pixels, im.pixels), 'fit-image', 'image of the result')
            ctx.state(f, want, n)


def run(case, ctx):
    globals()['k_' + case['kind']](case, ctx)
