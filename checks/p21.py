"""P21 Optimisers take the documented Gauss-Newton or Newton step.

Every transition (recorded estimate j -> j+1) of every optimiser is recomputed
by a reference model from the recorded state alone and compared with the
implementation: parameters, appearance parameters, shapes and costs.
"""
import numpy as np
from copy import deepcopy

from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of every optimiser x model variant x options; each transition of the '
             'recorded run is replayed through an independent reference transition function')
RULE = ('cases = every (model variant, algorithm or residual, ML/MAP, scale, sampling, start); a case runs the real '
        'optimiser and recomputes each of its steps with the reference; a transition counts when its step is non-zero')
ASSUMPTIONS = ['menpo (warping by bilinear sampling, gradients, patch extraction) and numpy are correct',
               'the analytic warp Jacobian is taken from the transform at its mean shape (decided by P07)',
               'expert responses are taken from the ensemble (decided by P18)']
CHUNK = 1
STARTS = [(1.0, -0.8), (-1.4, 0.6), (0.3, 1.9)]


def BOUNDS(tier):
    return dict(iterations=n_it(tier), starts=len(_starts(tier)), scales=2,
                kinds=fam.AAM_KINDS + fam.ATM_KINDS + ['APS', 'Unified', 'LK'])


def _starts(tier):
    return [0, 1] if tier == 'quick' else [0, 1, 2]


def n_it(tier):
    return 4 if tier == 'quick' else 8


FEATS = ['no_op', 'two']


def two(pixels):
    """a two channel feature"""
    return np.concatenate([pixels, 0.5 * pixels ** 2 + 0.1])


def _feat(name):
    from menpo.feature import no_op, ndfeature
    return no_op if name == 'no_op' else ndfeature(two)


def cases(tier):
    its = n_it(tier)
    for st in _starts(tier):
        for kind in fam.AAM_KINDS:
            for feat in FEATS:
                yield dict(f='aam', kind=kind, feat=feat, start=st, its=its)
        for kind in fam.ATM_KINDS:
            for feat in FEATS:
                yield dict(f='atm', kind=kind, feat=feat, start=st, its=its)
        for tr in ('DifferentiableAlignmentAffine', 'DifferentiableAlignmentSimilarity'):
            for feat in FEATS:
                for alg in fam.LK_ALGS:
                    yield dict(f='lk', tr=tr, feat=feat, alg=alg, start=st, its=its)
        for dg in ('tree', None):
            for ag in ('ring',):
                for uproc in (True, False):
                    yield dict(f='aps', dg=dg, ag=ag, uproc=uproc, start=st, its=its)
        for feat in FEATS:
            yield dict(f='uni', feat=feat, start=st, its=its)
    yield dict(f='big')


# ---------------------------------------------------------------- reference
class Ref(object):
    """image side of an optimiser: residual vectors and steepest descent images"""

    def __init__(self, T, template, sampling=None, patch=None, norm=None):
        self.T, self.template, self.patch, self.norm = T, template, patch, norm
        self.sampling = sampling
        n = template.n_channels
        if patch is None:
            N = template.mask.n_true()
            m = np.zeros(N, bool)
            m[slice(None) if sampling is None else (slice(None, None, sampling)
              if isinstance(sampling, int) else sampling)] = True
            self.sel = np.tile(m, n)
            self.pm = m
            self.idx = template.mask.true_indices()
        else:
            s = np.ones(patch, bool) if sampling is None else sampling
            shp = template.pixels.shape
            self.sel = np.broadcast_to(s, shp).ravel()
            self.shp = shp

    def set_p(self, p):
        self.T._from_vector_inplace(np.asarray(p, float).copy())

    def warp(self, image, p):
        self.set_p(p)
        if self.patch is None:
            v = image.sample(PC(self.T.apply(self.idx)), order=1, mode='constant', cval=0.0)
            return self.template.from_vector(np.asarray(v).ravel())
        from menpo.image import Image
        parts = image.extract_patches(self.T.target, patch_shape=self.patch, as_single_array=True)
        return Image(np.asarray(self.norm(parts) if self.norm is not None else parts), copy=False)

    def vec(self, img):
        return img.as_vector()[self.sel]

    def jacobian(self, img, dW):
        """d img / dp stacked like vec()"""
        if self.patch is None:
            from menpo.feature import gradient
            g = gradient(img)
            g = g.set_boundary_pixels()
            C = img.n_channels
            g = g.as_vector().reshape(2, C, -1)          # d/dy of every channel, then d/dx
            J = np.einsum('dcn,ndp->cnp', g, dW)
        else:
            gy, gx = np.gradient(img.pixels, axis=(-2, -1))
            J = np.einsum('dkocij,kdp->kocijp', np.stack([gy, gx]), dW)
        return J.reshape(-1, dW.shape[-1])[self.sel]


class Degenerate(Exception):
    """the linear system of the documented step is (nearly) singular: the run has diverged"""


COND = 1e8
TOL = [1e-5]


def solve(H, b):
    d = np.sqrt(np.abs(np.diag(H)))
    ok = np.all(np.isfinite(H)) and np.all(d > 0)
    c = np.linalg.cond(H / np.outer(d, d)) if ok else np.inf
    if not c < COND:
        raise Degenerate()
    TOL[0] = 1e-5 * max(1., c / 1e4)
    return np.linalg.solve(H, b)


def run_trace(alg, im, ini, its, **kw):
    """(result, crashed): the longest run that does not end in a singular system"""
    for n in range(its, -1, -1):
        try:
            return alg.run(im, ini, max_iters=n, return_costs=True, **kw), n < its
        except Exception as e:
            err = e
    raise err


def PC(p):
    from menpo.shape import PointCloud
    return PointCloud(p)


def mean_shape_of(T):
    pdm = getattr(T, 'pdm', T)
    return pdm.model.mean()


def per_scale(v, s):
    return v[s] if isinstance(v, (list, tuple)) else v


def estimates(r, n):
    """the n recorded estimates (a given starting shape precedes them)"""
    return r.shapes[len(r.shapes) - n:]


def make_ref(alg, kind, model, s, sampling):
    T = deepcopy(alg.transform)
    T.set_target(mean_shape_of(T))
    patch = None
    if 'Patch' in kind:
        patch = tuple(model.patch_shape[s])
    tmpl = alg.template
    R = Ref(T, tmpl, sampling, patch, per_scale(model.patch_normalisation, s) if patch else None)
    dW = T.d_dp(tmpl.mask.true_indices() if patch is None else None)   # (n_points, n_params, n_dims)
    return R, np.swapaxes(np.asarray(dW), 1, 2)


def eps_ok(a, b):
    return np.allclose(a, b, rtol=1e-5, atol=1e-7 * max(1, np.abs(b).max()))


def cmp_step(ctx, key, got, want, what, tol=1e-5):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return ctx.bad(key, '%s: shape %s instead of %s' % (what, got.shape, want.shape))
    sc = max(1e-8, np.abs(want).max())
    if not np.all(np.abs(got - want) <= tol * sc + 1e-7):
        ctx.bad(key, '%s: got %s, the documented step gives %s' % (
            what, np.array2string(got, precision=6, threshold=12), np.array2string(want, precision=6, threshold=12)))


def aam_reference(name, Rf, A, abar, S, L, dW, image, ps, cs, use_map, s2, crashed):
    """yields (p_next, c_next or None, cost of the current estimate) for each recorded transition"""
    fwd = 'Forward' in name
    sg = 1.0 if fwd else -1.0
    Ainv = np.linalg.pinv(A)
    Q = lambda X: X - A.dot(Ainv.dot(X))
    am = Rf.vec(abar['img'])
    D = np.hstack((np.zeros(4), s2 / L))
    E = s2 / S
    Jdp = 0.
    n = len(ps)
    for j in range(n):
        p = ps[j]
        I = Rf.warp(image, p)
        i = Rf.vec(I)
        c = cs[j] if cs is not None else None
        a_img = abar['inst'](c) if c is not None else None
        if name.startswith(('ProjectOut', 'Wiberg')):
            e = i - am
            cost = e.dot(Q(e))
        else:
            e = i - Rf.vec(a_img)
            cost = e.dot(e)
        if j == n - 1:
            yield None, None, cost
            if not crashed:
                return
        if fwd:
            J = Rf.jacobian(I, dW)
        elif name.startswith('ProjectOut'):
            J = -Rf.jacobian(abar['img'], dW)
        else:
            J = -Rf.jacobian(a_img, dW)
        P = np.diag(D) if use_map else 0.
        pr = D * (sg * p) if use_map else 0.
        cn = None
        if name.startswith('ProjectOut'):
            dp = -solve(J.T.dot(Q(J)) + P, J.T.dot(Q(e)) + pr)
        elif name.startswith('Wiberg'):
            dp = -solve(J.T.dot(Q(J)) + P, J.T.dot(Q(e)) + pr)
            i2 = Rf.vec(Rf.warp(image, p + sg * dp))
            cn = c + Ainv.dot(i2 - Rf.vec(a_img) + J.dot(dp))
        elif name.startswith('Simultaneous'):
            Js = np.hstack((-A, J))
            H, b = Js.T.dot(Js), Js.T.dot(e)
            if use_map:
                H = H + np.diag(np.hstack((E, D)))
                b = b + np.hstack((E * c, pr))
            dq = -solve(H, b)
            dc, dp = dq[:A.shape[1]], dq[A.shape[1]:]
            cn = c + dc
        elif name.startswith('ModifiedAlternating'):
            dp = -solve(J.T.dot(J) + P, J.T.dot(e) + pr)
            cn = Ainv.dot(Rf.vec(Rf.warp(image, p + sg * dp)) - am)
        else:                                       # Alternating
            if use_map:
                dc = solve(A.T.dot(A) + np.diag(E), A.T.dot(e + Jdp) - E * c)
            else:
                dc = Ainv.dot(e + Jdp)
            dp = -solve(J.T.dot(J) + P, J.T.dot(e - A.dot(dc)) + pr)
            cn = c + dc
            Jdp = J.dot(dp)
        yield p + sg * dp, cn, cost


def rescaled(model, s, feat):
    """an image, its landmarks at the size of scale s"""
    im = fx.make_image(7)
    im = im.rescale_to_pointcloud(model.reference_shape, group='PTS')
    im = _feat(feat)(im.rescale(model.scales[s]))
    return im


def run_model(case, ctx, family):
    kind, feat = case['kind'], case['feat']
    model = (fam.aam if family == 'aam' else fam.atm)(kind, holistic_features=_feat(feat), diagonal=60)
    algs = fam.AAM_ALGS if family == 'aam' else ['ForwardCompositional', 'InverseCompositional']
    patchk = 'Patch' in kind
    if patchk:
        chk = np.zeros((7, 7), bool)
        chk[::2, 1::2] = chk[1::2, ::2] = True
        samplings = [None, chk]
    else:
        samplings = [None, 3]
    comps = [None, (2, 3)] if family == 'aam' else [None, 2]
    for samp in samplings:
        for ncomp in (comps if samp is None else comps[:1]):
            for name in algs:
                m = deepcopy(model)
                kw = dict(sampling=None if samp is None else [samp] * 2)
                if family == 'aam':
                    if ncomp:
                        kw.update(n_shape=ncomp[0], n_appearance=ncomp[1])
                    fitter = fam.aam_fitter(m, name, **kw)
                else:
                    if ncomp:
                        kw.update(n_shape=ncomp)
                    fitter = fam.atm_fitter(m, name, **kw)
                for s in range(2):
                    check_alg(ctx, case, family, kind, name, fitter, m, s, samp)


def check_alg(ctx, case, family, kind, name, fitter, m, s, samp):
    alg = fitter.algorithms[s]
    im = rescaled(m, s, case['feat'])
    gt = im.landmarks['PTS'].points
    ini = PC(gt + np.array(STARTS[case['start']]) * m.scales[s])
    ref_alg = deepcopy(alg)
    for use_map in (False, True):
        tag = '%s/%s/%s' % (family, name, 'map' if use_map else 'ml')
        try:
            r, crashed = run_trace(alg, im, ini, case['its'], map_inference=use_map)
        except Exception as e:
            ctx.bad('crash %s' % tag, '%s %s scale %d: %s: %s' % (kind, tag, s, type(e).__name__, e))
            continue
        Rf, dW = make_ref(ref_alg, kind, m, s, samp)
        ps = [np.array(p) for p in r.shape_parameters]
        # estimates recorded belong to the parameters recorded
        for p, sh in zip(ps, estimates(r, len(ps))):
            Rf.set_p(p)
            tgt = Rf.T.sparse_target if hasattr(Rf.T, 'sparse_target') else Rf.T.target
            cmp_step(ctx, 'shape of recorded parameters', sh.points, tgt.points, '%s %s' % (kind, tag))
        pdm = getattr(Rf.T, 'pdm', Rf.T)
        L = pdm.model.eigenvalues
        nv = pdm.model.noise_variance() or 1.
        if family == 'aam':
            app = m.appearance_models[s]
            cs = None
            if getattr(r, 'appearance_parameters', None) is not None and not name.startswith('ProjectOut'):
                cs = [np.array(c) for c in r.appearance_parameters]
                ctx.check(len(cs) == len(ps), 'number of appearance parameters',
                          '%s %s: %d appearance parameters for %d shapes' % (kind, tag, len(cs), len(ps)))
                if len(cs) != len(ps):
                    continue
            A = app.components.T[Rf.sel]
            ab = dict(img=app.mean(), inst=app.instance)
            s2 = app.noise_variance() / nv
            S = app.eigenvalues
            if cs is not None:
                c0 = np.linalg.pinv(A).dot(Rf.vec(Rf.warp(im, ps[0])) - Rf.vec(ab['img']))
                cmp_step(ctx, '%s first appearance' % tag, cs[0], c0, '%s %s' % (kind, tag))
            ref = aam_reference(name, Rf, A, ab, S, L, dW, im, ps, cs, use_map, s2, crashed)
        else:
            s2 = 1. / nv
            cs = None
            ref = atm_reference(name, Rf, m.warped_templates[s], L, dW, im, ps, use_map, s2, crashed)
        j = 0
        while True:
            what = '%s %s scale %d start %d iteration %d' % (kind, tag, s, case['start'], j)
            try:
                pn, cn, cost = next(ref)
            except StopIteration:
                break
            except Degenerate:
                ctx.state('degenerate', what)
                break
            if j >= len(ps):
                ctx.bad('crash %s' % tag, '%s: the run fails although the documented step exists' % what)
                break
            if j < len(r.costs):
                cmp_step(ctx, '%s cost' % tag, [r.costs[j]], [cost], what)
            if pn is not None:
                ctx.step()
                ctx.trace()
                cmp_step(ctx, '%s step' % tag, ps[j + 1] - ps[j], pn - ps[j], what, TOL[0])
                if cn is not None:
                    cmp_step(ctx, '%s appearance step' % tag, cs[j + 1] - cs[j], cn - cs[j], what, TOL[0])
                ctx.state(what, np.round(pn, 5))
            j += 1
        ctx.check(len(r.costs) == len(ps), '%s number of costs' % tag,
                  '%s %s: %d costs for %d estimates' % (kind, tag, len(r.costs), len(ps)))


def atm_reference(name, Rf, tmpl, L, dW, image, ps, use_map, s2, crashed):
    fwd = 'Forward' in name
    sg = 1. if fwd else -1.
    t = Rf.vec(tmpl)
    D = np.hstack((np.zeros(4), s2 / L))
    for j, p in enumerate(ps):
        I = Rf.warp(image, p)
        e = Rf.vec(I) - t
        if j == len(ps) - 1:
            yield None, None, e.dot(e)
            if not crashed:
                return
        J = Rf.jacobian(I, dW) if fwd else -Rf.jacobian(tmpl, dW)
        H, b = J.T.dot(J), J.T.dot(e)
        if use_map:
            H, b = H + np.diag(D), b + D * (sg * p)
        yield p - sg * solve(H, b), None, e.dot(e)


# ---------------------------------------------------------------- Lucas-Kanade
def norm_img(x):
    x = x - x.mean()
    return x / np.linalg.norm(x)


def img_grad(px):
    """(2, C, h, w) gradient with the boundary set to zero"""
    g = np.stack(np.gradient(px, axis=(-2, -1)))
    g[..., 0, :] = g[..., -1, :] = 0
    g[..., :, 0] = g[..., :, -1] = 0
    return g


def reg_grad(px):
    g = img_grad(px)
    g2 = g.reshape((-1,) + g.shape[2:])
    ab = np.sqrt((g2 ** 2).sum(0))
    return g / (ab + np.median(ab))


def lk_step(res, kern, J_img, dW, IW, T, fimg=None):
    """residual specific (dp_of_H_solve, cost); J_img is the image whose gradient is used"""
    h, w = T.shape[-2:]
    n = dW.shape[-1]
    dWi = dW.reshape(h, w, 2, n)

    def sdi(g):            # g (2, C, h, w) -> (C*h*w, n)
        return np.einsum('dchw,hwdp->chwp', g, dWi).reshape(-1, n)

    if res in ('SSD', 'FourierSSD'):
        g = img_grad(J_img) if fimg is None else fimg(J_img)
        J = sdi(g)
        e = (IW - T).ravel()
        if kern is None:
            return J.T.dot(J), J.T.dot(e), e.dot(e)
        C = T.shape[0]
        K = lambda X: np.real(np.fft.ifft2(kern * np.fft.fft2(X)))
        KJ = np.stack([K(J[:, k].reshape(C, h, w)).ravel() for k in range(n)], -1)
        return KJ.T.dot(J), KJ.T.dot(e), e.dot(K((IW - T)).ravel())
    if res == 'ECC':
        Jn = norm_img(J_img)
        J = sdi(img_grad(Jn) if fimg is None else fimg(Jn))
        iw, t = norm_img(IW).ravel(), norm_img(T).ravel()
        H = J.T.dot(J)
        Pj = lambda a, b: a.dot(J).dot(solve(H, J.T.dot(b)))
        den = t.dot(iw) - Pj(t, iw)
        if den > 0:
            lam = (iw.dot(iw) - Pj(iw, iw)) / den
        else:
            lam = max(np.sqrt(Pj(iw, iw) / Pj(t, t)), -den / Pj(t, t))
        return H, J.T.dot(lam * iw - t), t.dot(iw)
    if res == 'GradientImages':
        gJ = reg_grad(J_img)                         # (2, C, h, w)
        g2 = img_grad(gJ)                            # (2, 2, C, h, w) d g_k / d x_d
        g2[1, 0] = g2[0, 1]
        J = np.einsum('dkchw,hwdp->kchwp', g2, dWi).reshape(-1, n)
        e = (reg_grad(IW) - reg_grad(T)).ravel()
        return J.T.dot(J), J.T.dot(e), e.dot(e)
    # gradient correlation: angles of the image gradients
    ang = lambda px: np.arctan2(img_grad(px)[0], img_grad(px)[1])
    phJ, phI, phT = ang(J_img), ang(IW), ang(T)
    s, c = np.sin(phJ), np.cos(phJ)
    q = img_grad(np.stack([s, c]))                   # q[d, 0] = d sin / d x_d, q[d, 1] = d cos / d x_d
    q[1, 0] = q[0, 1]
    q[1] = -s * q[1]
    q[0] = c * q[0]
    aux = q[..., None] * dWi.transpose(2, 0, 1, 3)[None, :, None]
    J = aux.reshape((-1,) + aux.shape[2:]).sum(0).reshape(-1, n)
    e = np.sin(phI - phT).ravel()
    qp = np.cos(phI - phT).sum()
    N = T.size
    return J.T.dot(J), N / qp * J.T.dot(e), qp / N


def run_lk(case, ctx):
    import menpofit.lk as LK
    import menpofit.transform as MT
    feat = _feat(case['feat'])
    tr = getattr(MT, case['tr'])
    for res in fam.LK_RES:
        if res.startswith('Gradient') and case['alg'] == 'ForwardAdditive':
            continue
        kerns = [None, 'gauss'] if 'SSD' in res else [None]
        for kern in kerns:
            # (the correlation must be positive: for ECC the template is the image itself)
            tmpl_im = fx.make_image(7 if res == 'ECC' else 0)
            f = fam.lk_fitter(case['alg'], res, im=tmpl_im, transform=tr, holistic_features=feat,
                              scales=(0.5, 1.0) if kern is None else 1.0)
            for s in range(len(f.scales)):
                tmpl = f.templates[s]
                T = tmpl.pixels
                h, w = T.shape[-2:]
                src = f.sources[s].points
                k = None
                if kern:
                    fy, fx_ = np.fft.fftfreq(h)[:, None], np.fft.fftfreq(w)[None]
                    k = np.exp(-30 * (fy ** 2 + fx_ ** 2)) + 0.05
                    alg = getattr(LK, case['alg'])(tmpl, tr(f.sources[s], f.sources[s]),
                                                   getattr(LK, res)(kernel=k))
                else:
                    alg = f.algorithms[s]
                im = fx.make_image(7).rescale_to_pointcloud(f.reference_shape, group='PTS')
                im = feat(im.rescale(f.scales[s]))
                ini = PC(im.landmarks['PTS'].points + np.array(STARTS[case['start']]) * f.scales[s])
                tag = 'lk/%s/%s%s' % (case['alg'], res, '/kernel' if kern else '')
                try:
                    r, crashed = run_trace(alg, im, ini, case['its'])
                except Exception as e:
                    ctx.bad('crash %s' % tag, '%s: %s: %s' % (tag, type(e).__name__, e))
                    continue
                idx = np.stack(np.meshgrid(np.arange(h), np.arange(w), indexing='ij'), -1).reshape(-1, 2)
                ps = [np.array(p) for p in r.homogeneous_parameters]
                base = tr(PC(src), PC(src))
                mat = lambda p: base.from_vector(p).h_matrix
                dW0 = np.swapaxes(np.asarray(base.d_dp(idx)), 1, 2)
                costs = []
                for j, p in enumerate(ps):
                    M = mat(p)
                    pts = idx.dot(M[:2, :2].T) + M[:2, 2]
                    IW = np.asarray(im.sample(PC(pts), order=1, mode='constant', cval=0.0)).reshape(T.shape)
                    if j:
                        cmp_step(ctx, 'lk shape of parameters', estimates(r, len(ps))[j].points,
                                 src.dot(M[:2, :2].T) + M[:2, 2], tag)
                    fimg = None
                    if case['alg'] == 'InverseCompositional':
                        Ji = T
                    elif case['alg'] == 'ForwardCompositional':
                        Ji = IW
                    else:
                        Ji = im.pixels

                        def fimg(px, pts=pts):
                            from menpo.image import Image
                            g = np.stack(np.gradient(px, axis=(-2, -1)))
                            gi = Image(g.reshape((-1,) + px.shape[-2:]))
                            return np.asarray(gi.sample(PC(pts), order=1, mode='constant', cval=0.)).reshape(
                                (2,) + T.shape)
                    what = '%s %s scale %d iteration %d' % (tag, case['tr'], s, j)
                    try:
                        H, b, cost = lk_step(res, k, Ji, dW0, IW, T, fimg)
                        costs.append(cost)
                        if j == len(ps) - 1 and not crashed:
                            break
                        dp = solve(H, b)
                    except Degenerate:
                        ctx.state('degenerate', what)
                        break
                    if j == len(ps) - 1:
                        ctx.bad('crash %s' % tag, '%s: the run fails although the documented step exists' % what)
                        break
                    if case['alg'] == 'ForwardAdditive':
                        want = p - dp
                    elif case['alg'] == 'ForwardCompositional':
                        want_M = M.dot(mat(-dp))
                    else:
                        want_M = M.dot(np.linalg.inv(mat(dp)))
                    ctx.step()
                    ctx.trace()
                    if case['alg'] == 'ForwardAdditive':
                        cmp_step(ctx, tag + ' step', ps[j + 1] - p, want - p, what, TOL[0])
                    else:
                        cmp_step(ctx, tag + ' step', mat(ps[j + 1]) - M, want_M - M, what, TOL[0])
                    ctx.state(what, np.round(ps[j + 1], 5))
                ctx.check(len(r.costs) == len(ps), 'lk number of costs',
                          '%s: %d costs for %d estimates' % (tag, len(r.costs), len(ps)))
                m = min(len(r.costs), len(costs))
                cmp_step(ctx, tag + ' costs', np.real(r.costs[:m]), costs[:m], tag)


# ---------------------------------------------------------------- pictorial structures
def run_aps(case, ctx):
    model = fam.aps(dg=case['dg'], ag=case['ag'], use_procrustes=case['uproc'])
    chk = np.zeros((5, 5), bool)
    chk[::2, ::2] = True
    for name in fam.APS_ALGS:
        for samp in (None, chk):
            for weight in (200., 3.):
                for ncomp in (None, 2):
                    m = deepcopy(model)
                    f = fam.aps_fitter(m, name, weight=weight, sampling=None if samp is None else [samp] * 2,
                                       n_shape=ncomp)
                    for s in range(2):
                        aps_alg(ctx, case, name, m, f, s, samp, weight)


def dense(q):
    # (a block matrix in single precision may hold duplicates: sum them in double precision)
    return np.asarray(q.astype(float).todense()) if hasattr(q, 'todense') else np.asarray(q)


def aps_alg(ctx, case, name, m, f, s, samp, weight):
    alg = f.algorithms[s]
    T = deepcopy(alg.transform)
    T.set_target(T.model.mean())
    patch = tuple(m.patch_shape[s])
    abar = m.appearance_models[s].mean()
    R = Ref(T, abar, samp, patch, per_scale(m.patch_normalisation, s))
    dW = np.swapaxes(np.asarray(T.d_dp(None)), 1, 2)        # (k, 2, n)
    dS = dW.reshape(-1, dW.shape[-1])                       # y0, x0, y1, x1, ...
    Qa = dense(m.appearance_models[s].precision)[np.ix_(R.sel, R.sel)]
    Qd = dense(m.deformation_models[s].precision)
    mu = np.asarray(m.deformation_models[s].mean_vector).ravel()
    Hs = dS.T.dot(Qd).dot(dS) * weight
    im = rescaled(m, s, 'no_op')
    ini = PC(im.landmarks['PTS'].points + np.array(STARTS[case['start']]) * m.scales[s])
    tag = 'aps/%s%s' % (name, '/sampling' if samp is not None else '')
    try:
        r, crashed = run_trace(alg, im, ini, case['its'])
    except Exception as e:
        ctx.bad('crash %s' % tag, '%s: %s: %s' % (tag, type(e).__name__, e))
        return
    ps = [np.array(p) for p in r.shape_parameters]
    am = R.vec(abar)
    for j, p in enumerate(ps):
        I = R.warp(im, p)
        e = R.vec(I) - am
        what = '%s scale %d weight %g iteration %d' % (tag, s, weight, j)
        cmp_step(ctx, 'aps shape of parameters', estimates(r, len(ps))[j].points, R.T.target.points, what)
        d = estimates(r, len(ps))[j].as_vector() - mu
        ca, cd = e.dot(Qa).dot(e), weight * d.dot(Qd).dot(d)
        for nm, got, want in (('appearance', r.appearance_costs, ca), ('deformation', r.deformation_costs, cd),
                              ('total', r.costs, ca + cd)):
            if len(got) == len(ps):
                cmp_step(ctx, '%s %s cost' % (tag, nm), [np.ravel(got[j])[0]], [want], what)
            else:
                ctx.bad('aps number of costs', '%s %s' % (len(got), what))
        if j == len(ps) - 1 and not crashed:
            break
        q = p.copy()
        if case['uproc']:
            q[:4] = 0
        J = R.jacobian(I if name == 'Forward' else abar, dW)
        try:
            H = J.T.dot(Qa).dot(J) + Hs
            dp = solve(H, J.T.dot(Qa).dot(e) + Hs.dot(q))
        except Degenerate:
            ctx.state('degenerate', what)
            break
        if j == len(ps) - 1:
            ctx.bad('crash %s' % tag, '%s: the run fails although the documented step exists' % what)
            break
        ctx.step()
        ctx.trace()
        cmp_step(ctx, tag + ' step', ps[j + 1] - p, -dp, what, TOL[0])
        ctx.state(what, case['dg'], case['ag'], np.round(ps[j + 1], 5))


# ---------------------------------------------------------------- unified
def run_uni(case, ctx):
    model = fam.unified(holistic_features=_feat(case['feat']))
    for name in fam.UNI_ALGS:
        for samp in (None, 3):
            for ncomp in (None, (2, 2)):
                m = deepcopy(model)
                kw = dict(sampling=samp)
                if ncomp:
                    kw.update(n_shape=ncomp[0], n_appearance=ncomp[1])
                f = fam.uni_fitter(m, name, **kw)
                for s in range(2):
                    for prior in (False, True):
                        for a in (0.5, 0.2):
                            uni_alg(ctx, case, name, m, f, s, samp, prior, a)


def uni_alg(ctx, case, name, m, f, s, samp, prior, a):
    alg = f.algorithms[s]
    T = deepcopy(alg.transform)
    T.set_target(T.pdm.model.mean())
    app = m.appearance_models[s]
    abar = app.mean()
    R = Ref(T, abar, samp)
    dW = np.swapaxes(np.asarray(T.d_dp(R.idx)), 1, 2)
    dX = np.swapaxes(np.asarray(T.pdm.d_dp(None)), 1, 2)
    Jc = dX.reshape(-1, dX.shape[-1])
    n = len(T.as_vector())
    sig, rho = app.inverse_noise_variance(), T.pdm.model.inverse_noise_variance()
    A = app.components.T
    Am = A[R.sel]
    Ainv = np.linalg.pinv(Am)
    prj = np.hstack((np.zeros(4), 1. / T.pdm.model.eigenvalues))
    from scipy.stats import multivariate_normal
    ph, pw = m.patch_shape[s]
    yy, xx = np.meshgrid(np.arange(ph) - ph // 2, np.arange(pw) - pw // 2, indexing='ij')
    grid = np.stack([yy, xx], -1)
    kern = np.exp(-0.5 * (grid ** 2).sum(-1) / (m.response_covariance * rho))
    im = rescaled(m, s, case['feat'])
    ini = PC(im.landmarks['PTS'].points + np.array(STARTS[case['start']]) * m.scales[s])
    tag = 'uni/%s/prior=%s/a=%s' % (name[:5], prior, a)
    try:
        r, crashed = run_trace(alg, im, ini, case['its'], prior=prior, a=a)
    except Exception as e:
        ctx.bad('crash %s' % tag, '%s: %s: %s' % (tag, type(e).__name__, e))
        return
    ps = [np.array(p) for p in r.shape_parameters]
    po = name.startswith('ProjectOut')
    for j, p in enumerate(ps):
        I = R.warp(im, p)
        i = R.vec(I)
        what = '%s scale %d sampling %s iteration %d' % (tag, s, samp, j)
        tgt = R.T.target
        cmp_step(ctx, 'uni shape of parameters', estimates(r, len(ps))[j].points, tgt.points, what)
        if po:
            e = R.vec(abar) - i
            Jt = R.jacobian(abar, dW)
            Jt = Jt - Am.dot(Ainv.dot(Jt))
        else:
            c = Ainv.dot(i - R.vec(abar))
            cmp_step(ctx, 'uni appearance', r.appearance_parameters[j], c, what)
            t = abar.from_vector(A.dot(c) + abar.as_vector())
            e = R.vec(t) - i
            Jt = R.jacobian(t, dW)
        resp = m.expert_ensembles[s].predict_probability(im, tgt)
        resp = np.where(np.isfinite(resp), resp, .5).reshape(len(tgt.points), ph, pw)
        wgt = resp * kern
        wgt = wgt / wgt.sum(axis=(-2, -1), keepdims=True)
        ec = np.einsum('khw,hwd->kd', wgt, grid.astype(float)).ravel()
        cost = a * e.dot(e) + ec.dot(ec)
        if len(r.costs) == len(ps):
            cmp_step(ctx, 'uni cost', [r.costs[j]], [cost], what)
        else:
            ctx.bad('uni number of costs', what)
        if j == len(ps) - 1 and not crashed:
            break
        H = a * sig * Jt.T.dot(Jt) + (1 - a) * rho * Jc.T.dot(Jc)
        b = a * sig * Jt.T.dot(e) + (1 - a) * rho * Jc.T.dot(ec)
        if prior:
            H, b = H + np.diag(prj), b - prj * p
        try:
            dp = solve(H, b)
        except Degenerate:
            ctx.state('degenerate', what)
            break
        if j == len(ps) - 1:
            ctx.bad('crash %s' % tag, '%s: the run fails although the documented step exists' % what)
            break
        ctx.step()
        ctx.trace()
        cmp_step(ctx, '%s step' % tag, ps[j + 1] - p, dp, what, TOL[0])
        ctx.state(what, np.round(ps[j + 1], 5))


def run_big(case, ctx):
    """many parameters (more than small-integer identity covers) solve the same system"""
    from menpofit.aam.algorithm.lk import LucasKanadeBaseInterface as B, LucasKanadeStandardInterface as S
    for n in (4, 255, 256, 257, 258, 300):
        t = np.arange(n)
        J = np.cos(np.outer(np.arange(n + 7), t + 1) * 0.37) + np.eye(n + 7, n) * 3
        H, e = J.T.dot(J), np.sin(np.arange(n + 7))
        d, p = 1 + 0.1 * np.cos(t), np.sin(1.3 * t)
        H0 = H.copy()
        want = -np.linalg.solve(H0 + np.diag(d), d * p + J.T.dot(e))
        try:
            got = B.solve_shape_map(H, J, e, d, p)
        except Exception as ex:
            ctx.bad('map solve size', 'n=%d: %s: %s' % (n, type(ex).__name__, ex))
        else:
            cmp_step(ctx, 'map solve', got, want, 'n=%d' % n)
        ctx.check(np.array_equal(H, H0), 'hessian modified', 'solve_shape_map changed the Hessian it was given')
        ctx.step()
        ctx.state('big', n)


def run(case, ctx):
    f = case['f']
    if f in ('aam', 'atm'):
        run_model(case, ctx, f)
    elif f == 'lk':
        run_lk(case, ctx)
    elif f == 'aps':
        run_aps(case, ctx)
    elif f == 'uni':
        run_uni(case, ctx)
    else:
        run_big(case, ctx)
