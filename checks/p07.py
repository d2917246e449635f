"""P07 - analytic derivatives and parameter composition match the true transforms."""
import itertools
import numpy as np

from vlib import fx

LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of parameter lattices x point sets x source/target configurations on the real transforms; '
             'oracle = central finite differences of the transform itself and an independent first-order composition')
RULE = ('full parameter lattices (similarity 3^4, affine 3^6 reduced by symmetric levels, model weights 3 levels per '
        'parameter pairwise), all point sets, all source/target shape pairs; non-trivial = distinct Jacobian')
ASSUMPTIONS = ['shape models with a global transform evaluate their global part at the mean shape (documented in the code)',
               'piecewise affine warps are differentiated strictly inside triangles; thin plate splines use centred coordinates '
               '(menpo truncates small singular values otherwise)']
CHUNK = 2
E = 1e-5


def cases(tier):
    th = tier != 'quick'
    for cls in ('DifferentiableSimilarity', 'DifferentiableAlignmentSimilarity'):
        yield dict(kind='homog', cls=cls, dims=2, levels=5 if th else 3)
    for cls in ('DifferentiableAffine', 'DifferentiableAlignmentAffine'):
        yield dict(kind='homog', cls=cls, dims=2, levels=3)
        yield dict(kind='homog', cls=cls, dims=3, levels=2)
    for cls in ('DifferentiableR2LogR2RBF', 'DifferentiableR2LogRRBF'):
        yield dict(kind='rbf', cls=cls)
    for a, b in itertools.product(range(5 if th else 3), repeat=2):
        yield dict(kind='pwa', a=a, b=b)
        yield dict(kind='tps', a=a, b=b)
    for m in MODELS:
        for ncomp in (1, 3, None):
            yield dict(kind='pdm', model=m, n=ncomp)
    for m in MD:
        for ncomp in ((1, 2, 3) if th else (1, 3)):
            yield dict(kind='md', model=m, n=ncomp)
    yield dict(kind='reject')


MODELS = ['PDM', 'GlobalSim', 'GlobalAff', 'Ortho', 'GlobalSimilarityModel']
MD = ['MD/PWA', 'MD/TPS', 'GlobalSim/PWA', 'GlobalSim/TPS', 'GlobalAff/PWA', 'GlobalAff/TPS', 'Ortho/PWA', 'Ortho/TPS', 'LinearOrtho']


def shapes(centre=(0., 0.), n=7, k0=0):
    from menpo.shape import PointCloud
    P = fx.base_points(6)
    P = P - P.mean(0) + np.array(centre)
    return [PointCloud(fx.deform(P, k0 + k)) for k in range(n)]


def point_sets(dims):
    yield np.zeros((1, dims))
    yield np.array([[1.0, -2.0, 0.5][:dims], [3.0, 0.25, -1.0][:dims]])
    g = np.stack(np.meshgrid([-7., 2., 5.], [0., 11.]), -1).reshape(-1, 2)
    yield np.hstack([g, g[:, :1] * 0.5 + 1])[:, :dims]
    yield np.hstack([g, g[:, :1] * 0.5 + 1])[:, :dims] + 2000.
    yield np.hstack([g, g[:, :1] * 0.5 + 1])[:, :dims] * 1e-3


def fd_p(t, v, f):
    out = []
    for j in range(len(v)):
        a, b = v.copy(), v.copy()
        a[j] += E
        b[j] -= E
        out.append((f(t.from_vector(a)) - f(t.from_vector(b))) / (2 * E))
    return np.asarray(out).swapaxes(0, 1)


def fd_x(f, X):
    """f may be a transform: menpo caches triangle look-ups within a tolerance, so every evaluation uses a fresh copy"""
    if hasattr(f, '_applied_points') or hasattr(f, 'index_alpha_beta'):
        t0 = f
        f = lambda Y: type(t0)(t0.source, t0.target).apply(Y)
    J = np.zeros((len(X), X.shape[1], X.shape[1]))
    for k in range(X.shape[1]):
        a, b = X.copy(), X.copy()
        a[:, k] += E
        b[:, k] -= E
        J[:, :, k] = (f(a) - f(b)) / (2 * E)
    return J


def run_homog(case, ctx):
    import menpofit.transform as T
    from menpo.shape import PointCloud
    cls, d = getattr(T, case['cls']), case['dims']
    lev = {2: [-0.35, 0.4], 3: [-0.35, 0.0, 0.4], 5: [-1.3, -0.35, 0.0, 0.4, 2.0]}[case['levels']]
    if 'Alignment' in case['cls']:
        src = PointCloud(np.array([[0., 0, 0], [3, 1, 0], [1, 4, 2], [-2, 1, 5], [2, -3, 1]])[:, :d])
        tgt = PointCloud(src.points * 1.1 + 0.3)
        t0 = cls(src, tgt)
    else:
        t0 = cls(np.eye(d + 1))
    for v in itertools.product(lev, repeat=len(t0.as_vector())):
        v = np.asarray(v, dtype=float)
        t = t0.from_vector(v)
        ctx.close(t.as_vector(), v, 'homog-roundtrip', str(v), atol=1e-8)
        for X in point_sets(d):
            ctx.step()
            J = t.d_dp(X)
            ctx.close(J, fd_p(t, v, lambda s: s.apply(X)), 'homog-d_dp', '%s %s' % (case['cls'], v), rtol=1e-6, atol=1e-6 if abs(X).max() < 100 else 1e-4)
            D = np.broadcast_to(t.d_dx(X), (len(X), d, d))
            ctx.close(D, fd_x(t.apply, X), 'homog-d_dx', '%s %s' % (case['cls'], v), rtol=1e-6, atol=1e-6 if abs(X).max() < 100 else 1e-4)
        ctx.state(case['cls'], d, J, D[0])
        if hasattr(t, 'as_non_alignment'):
            s = t.as_non_alignment()
            ctx.close(s.d_dp(X), J, 'homog-non-alignment', str(v))
            ctx.close(s.apply(X), t.apply(X), 'homog-non-alignment', str(v))
    compose_history(case, ctx, t0)


def compose_history(case, ctx, t0):
    """all sequences of compositions: derivative, vector and (for alignments) target follow"""
    cls, d = case['cls'], case['dims']
    n = len(t0.as_vector())
    X = next(iter(point_sets(d)))
    deltas = [0.3 * np.cos(1. + np.arange(n)), 0.25 * np.sin(2. + 1.3 * np.arange(n))]
    ops = [(w, k) for w in ('before', 'after') for k in (0, 1)] + [('vector', 1)]

    def mat(t):
        return np.array(t.h_matrix)

    for seq in itertools.product(ops, repeat=2):
        t = t0.from_vector(deltas[0] * 0.5)
        for w, k in seq:
            other = t0.from_vector(deltas[k]).as_non_alignment() if hasattr(t0, 'as_non_alignment') else t0.from_vector(deltas[k])
            A, B = mat(t), mat(other)
            if w == 'vector':
                t.from_vector_inplace(deltas[k])
                want = B
            else:
                getattr(t, 'compose_%s_inplace' % w)(other)
                want = B.dot(A) if w == 'before' else A.dot(B)
            ctx.step()
            where = '%s after %s' % (cls, seq)
            ctx.close(mat(t), want, 'homog-compose', where, atol=1e-8)
            v = np.array(t.as_vector())
            ctx.close(t.d_dp(X), fd_p(t, v, lambda s: s.apply(X)), 'homog-compose-d_dp', where, rtol=1e-6, atol=1e-5)
            ctx.close(np.broadcast_to(t.d_dx(X), (len(X), d, d)), fd_x(t.apply, X), 'homog-compose-d_dx', where, rtol=1e-6, atol=1e-5)
            if hasattr(t, 'target'):
                ctx.close(t.target.points, t.apply(t.source.points), 'homog-compose-target', where, atol=1e-8)
        ctx.state(cls, d, 'compose', mat(t))


def run_rbf(case, ctx):
    import menpofit.transform as T
    for c in ([[0., 0.]], [[0., 0.], [2., 1.], [-3., 4.]], fx.base_points(6) - 20):
        c = np.asarray(c)
        r = getattr(T, case['cls'])(c)
        g = np.stack(np.meshgrid(np.linspace(-4.1, 5.3, 7), np.linspace(-6.2, 3.7, 7)), -1).reshape(-1, 2)
        # offset coordinates so that no point coincides with a centre unless it is one
        X = np.vstack([g])
        J = r.d_dl(X)
        out = np.zeros_like(J)
        for k in range(2):
            a, b = X.copy(), X.copy()
            a[:, k] += E
            b[:, k] -= E
            out[:, :, k] = (r.apply(a) - r.apply(b)) / (2 * E)
        ctx.step(len(X))
        ctx.close(J, out, 'rbf', case['cls'], rtol=1e-5, atol=1e-5)
        ctx.close(r.d_dl(c)[np.arange(len(c)), np.arange(len(c))], np.zeros((len(c), 2)), 'rbf-centre', case['cls'])
        ctx.state(case['cls'], J)


def interior(P, tri, per=3):
    out = []
    W = [(1 / 3., 1 / 3., 1 / 3.), (0.7, 0.2, 0.1), (0.1, 0.2, 0.7), (0.25, 0.6, 0.15)][:per + 1]
    for t in tri:
        for w in W:
            out.append(np.dot(w, P[t]))
    return np.asarray(out)


def run_pwa(case, ctx):
    from menpofit.transform import DifferentiablePiecewiseAffine
    from menpo.shape import TriMesh, PointCloud
    base = fx.base_points(6)
    tri = fx.trilist(base)
    S = fx.deform(base, case['a'])
    if case['a'] == case['b']:
        Q = S.copy()
    else:
        Q = fx.deform(base, case['b'] + 7)
    t = DifferentiablePiecewiseAffine(TriMesh(S, trilist=tri), PointCloud(Q))
    X = interior(S, tri)
    J = t.d_dl(X)
    ctx.check(J.shape == (len(X), 6, 2), 'pwa-shape', str(J.shape))
    for l in range(6):
        for d in range(2):
            ctx.step()
            A, B = Q.copy(), Q.copy()
            A[l, d] += E
            B[l, d] -= E
            ta, tb = t.copy(), t.copy()
            ta.set_target(PointCloud(A))
            tb.set_target(PointCloud(B))
            D = (ta.apply(X) - tb.apply(X)) / (2 * E)
            ctx.close(J[:, l, d], D[:, d], 'pwa-d_dl', 'centre %d dim %d' % (l, d), rtol=1e-5, atol=1e-6)
            ctx.close(D[:, 1 - d], np.zeros(len(X)), 'pwa-cross', '', atol=1e-7)
    ctx.state('pwa', case['a'], J)
    # on the landmarks themselves each landmark only depends on itself
    Jv = t.d_dl(S)
    ctx.close(Jv, np.stack([np.eye(6)] * 2, -1), 'pwa-vertices', '', atol=1e-7)
    ctx.close(t.apply(S), Q, 'pwa-landmarks', '', atol=1e-8)
    D = np.broadcast_to(t.d_dx(X), (len(X), 2, 2))
    true = fd_x(t, X)
    ctx.state('pwa', D)
    if case['a'] == case['b']:
        ctx.close(D, true, 'pwa-d_dx-identity', '', rtol=1e-6, atol=1e-6)
    elif np.allclose(D, np.eye(2)):
        ctx.bad('pwa-d_dx-identity-returned', 'd_dx is the identity for a warp with derivative %s' % true[0].tolist())
    else:
        ctx.close(D, true, 'pwa-d_dx', '', rtol=1e-6, atol=1e-6)


def run_tps(case, ctx):
    from menpofit.transform import DifferentiableThinPlateSplines
    from menpo.shape import PointCloud
    base = fx.base_points(6)
    base = base - base.mean(0)
    S = fx.deform(base, case['a'])
    Q = S.copy() if case['a'] == case['b'] else fx.deform(base, case['b'] + 7)
    t = DifferentiableThinPlateSplines(PointCloud(S), PointCloud(Q))
    for X in (S * 0.37 + 0.21, np.array([[0.5, -0.25]]), np.vstack([S, [[20., 13.], [-30., 2.]]])):
        J = t.d_dl(X)
        ctx.check(J.shape == (len(X), 6, 2), 'tps-shape', str(J.shape))
        for l in range(6):
            for d in range(2):
                ctx.step()
                A, B = Q.copy(), Q.copy()
                A[l, d] += E
                B[l, d] -= E
                ta = DifferentiableThinPlateSplines(PointCloud(S), PointCloud(A))
                tb = DifferentiableThinPlateSplines(PointCloud(S), PointCloud(B))
                D = (ta.apply(X) - tb.apply(X)) / (2 * E)
                ctx.close(J[:, l, d], D[:, d], 'tps-d_dl', 'centre %d dim %d' % (l, d), rtol=1e-5, atol=1e-6)
        D = np.broadcast_to(t.d_dx(X), (len(X), 2, 2))
        ctx.close(D, fd_x(t.apply, X), 'tps-d_dx', '', rtol=1e-5, atol=1e-4 if len(X) > 6 else 1e-6)
        ctx.state('tps', D)
    ctx.close(t.apply(S), Q, 'tps-landmarks', '', atol=1e-6)
    # the warp back is a differentiable warp of its own
    i = t.pseudoinverse()
    ctx.check(type(i) is type(t), 'tps-pseudoinverse', 'pseudoinverse of %s is a %s' % (type(t).__name__, type(i).__name__))
    ctx.close(i.apply(Q), S, 'tps-pseudoinverse', 'the warp back misses the source', atol=1e-6)
    X = Q * 0.37 + 0.21
    ctx.close(np.broadcast_to(i.d_dx(X), (len(X), 2, 2)), fd_x(i.apply, X), 'tps-pseudoinverse-d_dx', '', rtol=1e-5, atol=1e-6)
    J = i.d_dl(X)
    for l in range(6):
        A, B = S.copy(), S.copy()
        A[l] += E
        B[l] -= E
        D = (DifferentiableThinPlateSplines(PointCloud(Q), PointCloud(A)).apply(X) -
             DifferentiableThinPlateSplines(PointCloud(Q), PointCloud(B)).apply(X)) / (2 * E)
        ctx.step()
        ctx.close(J[:, l], D, 'tps-pseudoinverse-d_dl', 'centre %d' % l, rtol=1e-5, atol=1e-6)


def make_model(name, n):
    import menpofit.modelinstance as M
    from menpofit.transform import DifferentiableAlignmentSimilarity, DifferentiableAlignmentAffine
    if name == 'PDM' or name == 'MD':
        return M.PDM(shapes(), max_n_components=n)
    if name == 'GlobalSim':
        return M.GlobalPDM(shapes(), DifferentiableAlignmentSimilarity, max_n_components=n)
    if name == 'GlobalAff':
        return M.GlobalPDM(shapes(), DifferentiableAlignmentAffine, max_n_components=n)
    if name == 'Ortho':
        return M.OrthoPDM(shapes(), max_n_components=n)
    if name == 'GlobalSimilarityModel':
        return M.GlobalSimilarityModel(shapes())


def lattice(n, nglob):
    """zero, one-at-a-time and all pairs at three levels"""
    lev = lambda j: (-0.25, 0.3) if j < nglob else (-0.8, 1.1)
    yield np.zeros(n)
    for j in range(n):
        for x in lev(j):
            v = np.zeros(n)
            v[j] = x
            yield v
    for i, j in itertools.combinations(range(n), 2):
        for x in lev(i):
            for y in lev(j):
                v = np.zeros(n)
                v[i], v[j] = x, y
                yield v


def run_pdm(case, ctx):
    m = make_model(case['model'], case['n'])
    v0 = m.as_vector().copy()
    g = getattr(m, 'n_global_parameters', 0)
    n = len(v0)
    for dv in lattice(n, g if case['model'] != 'GlobalSimilarityModel' else n):
        v = dv if case['model'] != 'Ortho' else dv * np.r_[np.full(g, 8.0), np.ones(n - g)]
        q = m.from_vector(v)
        J = q.d_dp(None)
        ref = fd_p(m, v, lambda s: s.target.points)
        if g:
            # documented convention: the global part is taken at the mean shape (weights zero)
            v2 = v.copy()
            v2[g:] = 0
            ref[:, :g] = fd_p(m, v2, lambda s: s.target.points)[:, :g]
        ctx.step()
        ctx.close(J, ref, 'pdm-d_dp', '%s at %s' % (case['model'], v), rtol=1e-5, atol=1e-6)
        ctx.state(case['model'], case['n'], J)


def make_md(name, n):
    import menpofit.transform as T
    from menpofit.transform.modeldriven import ModelDrivenTransform, GlobalMDTransform
    from menpo.shape import TriMesh, PointCloud
    base, warp = name.split('/')
    pdm = make_model(base, n)
    mean = pdm.model.mean().points
    src = TriMesh(mean * 0.8 + 0.4, trilist=fx.trilist(mean)) if warp == 'PWA' else PointCloud(mean * 0.8 + 0.4)
    w = T.DifferentiablePiecewiseAffine if warp == 'PWA' else T.DifferentiableThinPlateSplines
    cls = dict(MD=ModelDrivenTransform, GlobalSim=GlobalMDTransform, GlobalAff=GlobalMDTransform, Ortho=T.OrthoMDTransform)[base]
    return cls(pdm, w, source=src), src


def run_md(case, ctx):
    from menpo.shape import PointCloud
    if case['model'] == 'LinearOrtho':
        return run_linear(case, ctx)
    base, warp = case['model'].split('/')
    t, src = make_md(case['model'], case['n'])
    g = getattr(t.pdm, 'n_global_parameters', 0)
    n = len(t.as_vector())
    S = src.points
    X1 = interior(S, src.trilist, 1) if warp == 'PWA' else S * 0.6 + 0.1
    X2 = X1[:2] * 0.99
    scale = np.r_[np.full(g, 8.0 if base == 'Ortho' else 1.0), np.ones(n - g)]
    for dv in lattice(n, g):
        v = dv * scale
        q = t.from_vector(v)
        ctx.close(q.as_vector(), v, 'md-roundtrip', '')
        # the warp sends the source exactly onto the current shape of the model
        ctx.close(q.apply(S), q.pdm.target.points, 'md-apply', str(v), atol=1e-6)
        ctx.close(q.target.points, q.pdm.target.points, 'md-target', str(v))
        for X in (X1, X2, X1):
            ctx.step()
            Xin = X.copy()
            J = q.d_dp(Xin)
            ref = fd_p(t, v, lambda s: s.apply(X))
            if g:
                v2 = v.copy()
                v2[g:] = 0
                ref[:, :g] = fd_p(t, v2, lambda s: s.apply(X))[:, :g]
            ctx.close(J, ref, 'md-d_dp', '%s at %s' % (case['model'], v), rtol=1e-5, atol=2e-5)
            # the same array object with other contents is another point set
            if warp == 'PWA':
                continue        # menpo's own piecewise affine cache is keyed on the array object
            Xin[...] = Xin[::-1] * 0.98
            J2 = q.d_dp(Xin)
            fresh = t.from_vector(v)
            fresh._cached_points = None
            ctx.close(J2, fresh.d_dp(Xin.copy()), 'md-d_dp-stale', case['model'])
        ctx.state(case['model'], case['n'], J)
        run_compose(case, ctx, t, q, v, g)
    if base != 'Ortho' and base != 'MD':
        return


def run_compose(case, ctx, t, q, v, g):
    """parameter composition = first-order solution of W(x; p') ~ W(W(x; d); p)"""
    base, warp = case['model'].split('/')
    n = len(v)
    mean = t.pdm.model.mean().points
    zero = t.pdm.from_vector(np.zeros(n))
    dW0 = fd_p(zero, np.zeros(n), lambda s: s.target.points)
    # dW/dp at p, global part at the mean shape
    dWp = fd_p(q.pdm, v, lambda s: s.target.points)
    if g:
        v2 = v.copy()
        v2[g:] = 0
        dWp[:, :g] = fd_p(q.pdm, v2, lambda s: s.target.points)[:, :g]
    A = dWp.transpose(0, 2, 1).reshape(-1, n)
    if np.linalg.cond(A) > 1e6:
        return
    dx_true = fd_x(q.transform.apply, mean) if warp == 'TPS' else None
    for which in ('declared', 'true'):
        if which == 'true':
            if dx_true is None:
                continue
            dx = dx_true
        else:
            dx = np.broadcast_to(q.transform.d_dx(mean), (len(mean), 2, 2))
        B = np.einsum('ijk,ilk->ijl', dx, dW0).reshape(-1, n)
        Jp = np.linalg.lstsq(A, B, rcond=None)[0]
        tol = dict(rtol=1e-4, atol=1e-4 * max(1.0, np.abs(Jp).max()))
        try:
            got = q.Jp()
        except AttributeError:
            got = None
        if got is not None:
            ctx.close(got, Jp, 'compose-Jp-' + which, '%s at %s' % (case['model'], v), **tol)
        for j in range(n):
            ctx.step()
            d = np.zeros(n)
            d[j] = 0.05
            r = q.copy()
            ret = r.compose_after_from_vector_inplace(d)
            ctx.close(r.as_vector(), v + Jp[:, j] * 0.05, 'compose-' + which, '%s at %s by %s' % (case['model'], v, d),
                      rtol=1e-4, atol=1e-4 * max(1.0, np.abs(Jp).max()))
            ctx.close(r.target.points, t.from_vector(r.as_vector()).target.points, 'compose-target', '', atol=1e-8)


def run_linear(case, ctx):
    from menpofit.transform import LinearOrthoMDTransform
    from menpofit.modelinstance import OrthoPDM
    from menpo.shape import PointCloud
    import menpofit.modelinstance as M
    dense = []
    for s in shapes():
        p = s.points
        mid = (p + np.roll(p, 1, 0)) / 2
        dense.append(PointCloud(np.vstack([p, mid, mid * 0.5])))
    pdm = OrthoPDM(dense, max_n_components=case['n'])
    sparse = PointCloud(dense[0].points[:6])
    t = LinearOrthoMDTransform(pdm.model, sparse)
    n = len(t.as_vector())
    g = t.n_global_parameters
    for dv in lattice(n, g):
        v = dv * np.r_[np.full(g, 8.0), np.ones(n - g)]
        q = t.from_vector(v)
        ctx.step()
        ref = fd_p(t, v, lambda s: s.target.points)
        v2 = v.copy()
        v2[g:] = 0
        ref[:, :g] = fd_p(t, v2, lambda s: s.target.points)[:, :g]
        ctx.close(q.d_dp(None), ref[6:], 'linear-d_dp', str(v), rtol=1e-5, atol=1e-6)
        ctx.close(q.sparse_target.points, q.target.points[:6], 'linear-sparse')
        ctx.close(q.dense_target.points, q.target.points[6:], 'linear-dense')
        ctx.close(q.apply(np.zeros((3, 2))), q.target.points[6:], 'linear-apply')
        ctx.state('linear', case['n'], q.target.points)
        # a sparse target the model can express is reproduced, and moves the dense points with it
        if not (np.any(v[:2]) and np.any(v[g:])):    # otherwise outside the linear span
            r = t.copy()
            r.set_target(PointCloud(q.target.points[:6]))
            ctx.close(r.sparse_target.points, q.sparse_target.points, 'linear-set-sparse', str(v), atol=1e-6)
        r = t.copy()
        r.set_target(PointCloud(q.target.points))
        ctx.close(r.target.points, q.target.points, 'linear-set-dense', str(v), atol=1e-6)


def run_reject(case, ctx):
    import menpofit.transform as T
    for cls, d, other in (('DifferentiableAffine', 2, 3), ('DifferentiableAffine', 3, 2), ('DifferentiableSimilarity', 2, 3)):
        t = getattr(T, cls)(np.eye(d + 1))
        ctx.step()
        ctx.raises(ValueError, lambda: t.d_dp(np.zeros((2, other))), 'reject-dims', cls)
        ctx.state(cls, d)
    from menpofit.modelinstance import PDM
    pdm = PDM(shapes())
    for cls in ('OrthoMDTransform',):
        ctx.step()
        ctx.raises(ValueError, lambda: getattr(T, cls)(pdm, T.DifferentiableThinPlateSplines, source=pdm.model.mean()), 'reject-model', cls)
    from menpo.transform import Similarity
    t3 = T.DifferentiableSimilarity(np.eye(4))
    ctx.raises(ValueError, lambda: t3.d_dp(np.zeros((2, 3))), 'reject-3d', 'similarity')


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)
