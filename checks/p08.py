"""P08 - shape models keep target, parameters and model consistent."""
import copy
import itertools
import numpy as np

from vlib import fx

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration: all operation sequences up to a depth over {set target, set parameters, change active '
             'components, add training shapes, copy} on the real shape models, every state compared with a reference model')
RULE = ('depth-first over every operation sequence up to the depth, branching by deep copies; a state is (model kind, number of '
        'components, parameter vector, model mean); non-trivial = distinct state')
ASSUMPTIONS = ['menpo\'s PCA and alignment transforms are trusted building blocks',
               'exact reproduction of a target is required where global and local bases are orthogonal (PDM, OrthoPDM and the '
               'transforms built on it)']
CHUNK = 1
KINDS = ['PDM', 'GlobalSim', 'GlobalAff', 'Ortho', 'OrthoMD/PWA', 'OrthoMD/TPS', 'MD/PWA', 'GlobalMD/TPS', 'LinearOrtho', 'GlobalSimilarityModel']
OPS = ['T0', 'T1', 'T2', 'V0', 'V1', 'V2', 'N1', 'N3', 'N.8', 'I0', 'I1', 'C']


def BOUNDS(tier):
    return dict(depth=3 if tier == 'quick' else 4, operations=OPS, kinds=KINDS)


def cases(tier):
    d = BOUNDS(tier)['depth']
    for k in KINDS:
        for op in OPS:
            yield dict(kind=k, first=op, depth=d)
        yield dict(kind=k, first=None, depth=1)


def shapes(a, b, dense=False):
    from menpo.shape import PointCloud
    P = fx.base_points(6)
    P = P - P.mean(0)
    out = []
    for k in range(a, b):
        p = fx.deform(P, k)
        if dense:
            p = np.vstack([p, (p + np.roll(p, 1, 0)) / 2, p * 0.5])
        out.append(PointCloud(p))
    return out


def build(kind):
    import menpofit.modelinstance as M
    import menpofit.transform as T
    from menpofit.transform.modeldriven import ModelDrivenTransform, GlobalMDTransform
    from menpo.shape import TriMesh, PointCloud
    sh = shapes(0, 6, kind == 'LinearOrtho')
    if kind in ('PDM', 'MD/PWA'):
        p = M.PDM(sh)
    elif kind in ('GlobalSim', 'GlobalMD/TPS'):
        p = M.GlobalPDM(sh, T.DifferentiableAlignmentSimilarity)
    elif kind == 'GlobalAff':
        p = M.GlobalPDM(sh, T.DifferentiableAlignmentAffine)
    elif kind == 'GlobalSimilarityModel':
        return M.GlobalSimilarityModel(sh)
    else:
        p = M.OrthoPDM(sh)
    if kind == 'LinearOrtho':
        return T.LinearOrthoMDTransform(p.model, PointCloud(sh[0].points[:6]))
    if '/' in kind:
        base, warp = kind.split('/')
        mean = p.model.mean().points
        src = TriMesh(mean * 0.9, trilist=fx.trilist(mean)) if warp == 'PWA' else PointCloud(mean * 0.9)
        w = T.DifferentiablePiecewiseAffine if warp == 'PWA' else T.DifferentiableThinPlateSplines
        cls = dict(MD=ModelDrivenTransform, GlobalMD=GlobalMDTransform, OrthoMD=T.OrthoMDTransform)[base]
        return cls(p, w, source=src)
    return p


def pdm_of(m):
    return getattr(m, 'pdm', m)


def params(m):
    return np.array(m.as_vector())


def apply_op(kind, m, op):
    """returns the model to continue with; raises only on a real error"""
    from menpo.shape import PointCloud
    dense = kind == 'LinearOrtho'
    if op[0] == 'T':
        i = int(op[1])
        t = shapes(20 + i, 21 + i, dense)[0].points
        if i == 2:      # strongly transformed target
            R = np.array([[0.2, -1.3], [1.3, 0.2]])
            t = t.dot(R.T) + np.array([7., -4.])
        if dense and i == 1:
            t = t[:6]
        tt = PointCloud(t.copy())
        m.set_target(tt)
        assert np.array_equal(tt.points, t), 'set_target changed the given target'
        m._verif_target = t
        return m
    if op[0] == 'V':
        i = int(op[1])
        n = len(m.as_vector())
        v = [np.zeros(n), np.cos(1.0 + 2.0 * np.arange(n)) * 0.6, np.sin(2.0 + 1.7 * np.arange(n)) * 1.5 + 0.1][i]
        if kind == 'GlobalSimilarityModel' or 'Global' in kind:
            v = v.copy()
            v[:4] *= 0.3
        v0 = v.copy()
        m.from_vector_inplace(v)
        assert np.array_equal(v, v0), 'from_vector_inplace changed the given vector'
        m._verif_vec = v0
        return m
    if op[0] == 'N':
        val = float(op[1:]) if '.' in op else int(op[1:])
        p = pdm_of(m)
        old = p.target.copy()
        p.n_active_components = val
        assert_kept(p, old, 'changing the active components')
        if p is not m:
            m.set_target(p.target)
        return m
    if op[0] == 'I':
        i = int(op[1])
        s = shapes(10 + 3 * i, 13 + 3 * i, dense)
        before = [x.points.copy() for x in s]
        p = pdm_of(m)
        old = p.target.copy()
        p.increment(s, **({} if i == 0 else dict(max_n_components=3, forgetting_factor=0.8)))
        assert all(np.array_equal(x.points, y) for x, y in zip(s, before)), 'increment changed the training shapes'
        assert_kept(p, old, 'adding training shapes')
        if p is not m:
            m.set_target(p.target)
        return m
    if op == 'C':
        return m.copy()
    raise ValueError(op)


def assert_kept(p, old, what):
    """the changed model keeps its current shape, as far as it can express it"""
    e = p.copy()
    e.set_target(old)
    assert np.allclose(p.target.points, e.target.points, atol=1e-6), what + ' lost the current shape'


def allowed(kind, op):
    if kind == 'GlobalSimilarityModel' and op[0] in 'NI':
        return False
    return True


def sim_from(mean, target):
    """the similarity carrying mean onto target exactly (both given as similar configurations)"""
    a = mean[:, 0] + 1j * mean[:, 1]
    b = target[:, 0] + 1j * target[:, 1]
    am, bm = a.mean(), b.mean()
    z = np.vdot(a - am, b - bm) / np.vdot(a - am, a - am)
    return z, bm - z * am


def app(z, x):
    c = z[0] * (x[:, 0] + 1j * x[:, 1]) + z[1]
    return np.stack([c.real, c.imag], 1)


def inv(z, x):
    c = ((x[:, 0] + 1j * x[:, 1]) - z[1]) / z[0]
    return np.stack([c.real, c.imag], 1)


def ortho_parts(p):
    mean = p.model.mean().points
    C = p.model.components
    # similarity basis: orthonormal basis of the span of {mean, rotated mean, tx, ty}
    return mean, p.similarity_model.components, C


def reference_instance(kind, p, v):
    """shape described by the parameters, from first principles"""
    mean = p.model.mean().points
    C = p.model.components
    k = len(C)
    b = v[len(v) - k:]
    S = mean + b.dot(C).reshape(mean.shape)
    g = v[:len(v) - k]
    if len(g) == 0:
        return S
    if hasattr(p, 'similarity_model'):
        tgt = mean + g.dot(p.similarity_model.components).reshape(mean.shape)
        return app(sim_from(mean, tgt), S)
    if len(g) == 4:
        a, bb, tx, ty = g[0] + 1, g[1], g[2], g[3]
        return S.dot(np.array([[a, -bb], [bb, a]]).T) + [tx, ty]
    A = np.array([[g[0] + 1, g[2]], [g[1], g[3] + 1]])
    return S.dot(A.T) + g[4:]


def invariants(kind, m, ctx, seq, op):
    tag = '%s after %s' % (kind, seq)
    v = params(m)
    ctx.step()
    if kind == 'GlobalSimilarityModel':
        a, b, tx, ty = v
        want = m.mean.points.dot(np.array([[a + 1, -b], [b, a + 1]]).T) + [tx, ty]
        ctx.close(m.target.points, want, 'target', tag, atol=1e-7)
        if op[0] == 'T':
            from menpo.transform import AlignmentSimilarity
            from menpo.shape import PointCloud
            ref = AlignmentSimilarity(m.mean, PointCloud(m._verif_target))
            ctx.close(m.target.points, ref.apply(m.mean.points), 'set-target', tag, atol=1e-7)
        n_global = 4
        ctx.check(m.n_weights == 4, 'n-weights', tag)
        ctx.close(m.weights, v, 'weights', tag)
    else:
        p = pdm_of(m)
        want = reference_instance(kind, p, v)
        ctx.close(m.target.points, want, 'target', tag + ' (shape is not the instance its parameters describe)', atol=1e-6)
        n_global = len(v) - p.n_active_components
        exp = 0 if kind in ('PDM', 'MD/PWA') else 6 if kind == 'GlobalAff' else 4
        ctx.check(n_global == exp, 'n-global', '%s: %d' % (tag, n_global))
        ctx.check(m.n_parameters == len(v) and len(p.weights) == p.n_active_components and p.n_weights == p.n_active_components,
                  'n-parameters', lambda: '%s: n_parameters %s, vector %d, weights %d, active %d' % (
                      tag, m.n_parameters, len(v), len(p.weights), p.n_active_components))
        C = p.model.components
        ctx.close(C.dot(C.T), np.eye(len(C)), 'orthonormal', tag, atol=1e-7)
        ctx.close(p.weights, v[n_global:], 'weights', tag)
        if hasattr(p, 'global_parameters'):
            ctx.close(p.global_parameters, v[:n_global], 'global-parameters', tag)
            ctx.check(p.n_global_parameters == n_global, 'n-global', tag)
        if hasattr(p, 'similarity_model'):
            S = p.similarity_model.components
            A = np.vstack([S, C])
            ctx.close(A.dot(A.T), np.eye(len(A)), 'ortho-similarity', tag, atol=1e-7)
            mean = p.model.mean().points
            ctx.close(np.reshape(p.similarity_model.mean(), mean.shape), mean, 'similarity-mean', tag)
            # the similarity span contains every similarity of the mean
            for q in (mean, np.stack([-mean[:, 1], mean[:, 0]], 1), np.tile([1., 0], (len(mean), 1)), np.tile([0, 1.], (len(mean), 1))):
                f = q.ravel()
                ctx.close(S.T.dot(S.dot(f)), f, 'similarity-span', tag, atol=1e-6)
            sm = p.similarity_model
            x = shapes(40, 41, kind == 'LinearOrtho')[0]
            d = (x.points - mean).ravel()
            w = S.dot(d)
            ctx.close(sm.project(x), w, 'similarity-project', tag, atol=1e-7)
            ctx.close(np.reshape(sm.reconstruct(x).points, mean.shape), mean + S.T.dot(w).reshape(mean.shape), 'similarity-reconstruct', tag, atol=1e-7)
            ctx.close(np.reshape(sm.instance(w).points, mean.shape), mean + S.T.dot(w).reshape(mean.shape), 'similarity-instance', tag, atol=1e-7)
            ctx.close(S.dot(sm.project_out(x).points.ravel()), np.zeros(len(S)), 'similarity-project-out', tag, atol=1e-6)
            ctx.close(sm.component(1).points.ravel() - mean.ravel(), S[1], 'similarity-component', tag, atol=1e-7)
        if op[0] == 'N':
            val = float(op[1:])
            if val > 1:
                ctx.check(p.n_active_components == min(int(val), p.model.n_components), 'n-active', '%s: %d' % (tag, p.n_active_components))
        if op == 'I1':
            ctx.check(p.model.n_components <= 3, 'increment-limit', '%s: %d' % (tag, p.model.n_components))
        if op[0] == 'T':
            t = m._verif_target
            mean = p.model.mean().points
            if kind in ('PDM', 'MD/PWA'):
                w = C.dot((t - mean).ravel())
                ctx.close(v, w, 'set-target', tag, atol=1e-7)
            elif hasattr(p, 'similarity_model') and len(t) == len(mean):
                S = p.similarity_model.components
                q = S.dot((t - mean).ravel())
                z = sim_from(mean, mean + q.dot(S).reshape(mean.shape))
                w = C.dot((inv(z, t) - mean).ravel())
                ctx.close(v, np.r_[q, w], 'set-target', tag, atol=1e-6)
            elif kind == 'LinearOrtho':
                S = np.vstack([p.similarity_model.components, C])
                V = S[:, :12]
                full = (t.ravel().dot(np.linalg.pinv(V))).dot(S).reshape(-1, 2)
                S = p.similarity_model.components
                q = S.dot((full - mean).ravel())
                z = sim_from(mean, mean + q.dot(S).reshape(mean.shape))
                w = C.dot((inv(z, full) - mean).ravel())
                if p.n_active_components == p.model.n_components:
                    ctx.close(v, np.r_[q, w], 'set-target-sparse', tag, atol=1e-5)
            elif kind != 'GlobalMD/TPS':     # (there the already projected target is projected a second time)
                from menpo.transform import AlignmentSimilarity, AlignmentAffine
                from menpo.shape import PointCloud
                cls = AlignmentAffine if kind == 'GlobalAff' else AlignmentSimilarity
                al = cls(p.model.mean(), PointCloud(t))
                w = C.dot((al.pseudoinverse().apply(t) - mean).ravel())
                ctx.close(v, np.r_[al.as_vector(), w], 'set-target', tag, atol=1e-6)
        if op[0] == 'V' and kind != 'LinearOrtho':
            ctx.close(v, m._verif_vec, 'set-vector', tag, atol=1e-8)
        if '/' in kind:
            ctx.close(m.target.points, p.target.points, 'md-target', tag)
            src = m.transform.source.points
            ctx.close(m.apply(src), m.target.points, 'md-warp', tag, atol=1e-5)
        if kind == 'LinearOrtho':
            ctx.close(m.sparse_target.points, m.target.points[:6], 'linear-sparse', tag)
            ctx.close(m.dense_target.points, m.target.points[6:], 'linear-dense', tag)
    # the vector round-trips and constructors do not disturb the original
    before = (params(m), m.target.points.copy())
    c = m.from_vector(v)
    ctx.close(c.target.points, before[1], 'vector-roundtrip', tag, atol=1e-7)
    ctx.close(c.as_vector(), v, 'vector-roundtrip', tag, atol=1e-8)
    d = m.from_vector(v * 0.5 + 0.1)
    c.from_vector_inplace(v * 0.25 - 0.1)
    ctx.close(m.as_vector(), before[0], 'constructor-disturbs', tag)
    ctx.close(m.target.points, before[1], 'constructor-disturbs', tag)
    # a target the model can express is reproduced
    if kind in ('PDM', 'Ortho', 'OrthoMD/PWA', 'OrthoMD/TPS', 'MD/PWA', 'LinearOrtho'):
        e = m.copy()
        t = e.target.copy()
        e.set_target(shapes(30, 31, kind == 'LinearOrtho')[0])
        e.set_target(t)
        ctx.close(e.target.points, t.points, 'reproduce', tag, atol=1e-6)
        ctx.close(e.as_vector(), v, 'reproduce-parameters', tag, atol=1e-6)
        ctx.close(m.as_vector(), before[0], 'copy-disturbs', tag)
        ctx.close(m.target.points, before[1], 'copy-disturbs', tag)
    ctx.state(kind, v, m.target.points)


def clone(m):
    return copy.deepcopy(m)


def explore(kind, m, seq, depth, ctx):
    if depth == 0:
        return
    for op in OPS:
        if allowed(kind, op):
            step(kind, m, seq, op, depth, ctx)


def step(kind, m, seq, op, depth, ctx):
    n = clone(m)
    s = seq + [op]
    try:
        if op == 'C':
            parent_v, parent_t = params(n), n.target.points.copy()
            c = n.copy()
            ctx.close(c.as_vector(), parent_v, 'copy-equal', str(s))
            ctx.close(c.target.points, parent_t, 'copy-equal', str(s))
            # operating on the copy leaves the original alone and vice versa
            for o in ('T2', 'V2', 'N1', 'I0'):
                if allowed(kind, o):
                    apply_op(kind, c, o)
                    ctx.close(n.as_vector(), parent_v, 'copy-disturbs', '%s %s then %s on the copy' % (kind, s, o))
                    ctx.close(n.target.points, parent_t, 'copy-disturbs', '%s %s then %s on the copy' % (kind, s, o))
            invariants(kind, n, ctx, s, 'C')
        else:
            n = apply_op(kind, n, op)
            ctx.trace()
            invariants(kind, n, ctx, s, op)
    except AssertionError as e:
        ctx.bad('mutates', '%s after %s: %s' % (kind, s, e))
    if len(ctx.violations) < 20:
        explore(kind, n, s, depth - 1, ctx)


def run(case, ctx):
    m = build(case['kind'])
    if case['first'] is None:
        invariants(case['kind'], m, ctx, [], 'new')
        v = params(m)
        ctx.close(v, np.zeros(len(v)), 'initial', 'parameters of a new model', atol=1e-8)
        return
    if allowed(case['kind'], case['first']):
        step(case['kind'], m, [], case['first'], case['depth'], ctx)
