"""P20 - each scale of a trained model describes that scale of the training data.

Every generative model is trained over a bounded space of configurations and
every one of its scales is compared with a reference training, which prepares
the images of that scale independently (menpo's primitives), aligns the shapes
and computes principal components with numpy.  Instances and appearance
reconstructions are enumerated over scale indices, weights and iteration tuples.
"""
import itertools
import numpy as np
from vlib import fx, fam
from p19 import feat

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of bounded training configurations; every scale of every trained model is compared with a '
             'reference training of that scale, and every instance / reconstruction of bounded index and iteration tuples with it')
RULE = ('model variants x scale tuples x per-scale features x component limits x reference shapes x batches; a transition is one '
        'compared scale, instance or reconstruction; a state is a distinct trained scale')
ASSUMPTIONS = ['principal subspaces are compared where the kept and dropped eigenvalues differ by more than 1e-6 of the variance',
               'menpo\'s image, warp and GMRF primitives are trusted']
CHUNK = 2

AAMS = fam.AAM_KINDS
ATMS = fam.ATM_KINDS
KINDS = AAMS + ATMS + ['CLM', 'Unified', 'APS']


def BOUNDS(tier):
    return dict(scales=3, images=5, iterations_per_scale=2)


# ---------------------------------------------------------------- the space

SCALES = [[1.0], [0.5], [0.5, 1.0], [1.0, 0.5], [0.5, 0.5], [0.5, 0.75, 1.0], [1.5, 1.0, 0.6]]
LIMITS = [[None, None], [2, 3], [[1, 3, 2], [4, 1, 2]], [0.7, 0.8], [[0.6, 2, None], [None, 0.9, 1]], [50, 50]]
FEATS = ['id', 'chan', 'half']


def cases(tier):
    out = []

    def add(kind, **k):
        c = dict(kind=kind)
        c.update(k)
        out.append(c)
    for kind in KINDS:
        for s in SCALES:
            n = len(s)
            add(kind, scales=s, feats=['id'] * n)
        for s in ([1.0], [0.5, 1.0]):
            for f in itertools.product(FEATS, repeat=len(s)):
                if set(f) != {'id'}:
                    add(kind, scales=s, feats=list(f))
        for f in (itertools.product(FEATS, repeat=3) if tier == 'thorough' else
                  (('chan', 'id', 'id'), ('id', 'chan', 'id'), ('chan', 'chan', 'id'), ('id', 'half', 'half'), ('half', 'id', 'chan'))):
            add(kind, scales=[0.5, 0.75, 1.0], feats=list(f))
        for lim in LIMITS[1:]:
            for s in ([0.5, 1.0], [0.5, 0.75, 1.0], [1.0]):
                add(kind, scales=s, feats=['id'] * len(s), limits=lim)
        for ref in ('diag', 'given', 'given+diag'):
            for s in ([1.0], [0.5, 1.0]):
                add(kind, scales=s, feats=['id'] * len(s), ref=ref)
        add(kind, scales=[0.5, 1.0], feats=['id', 'chan'], ref='given', sizes=1)
        add(kind, scales=[0.5, 1.0], feats=['id', 'id'], channels=2)
        add(kind, scales=[0.5, 1.0], feats=['id', 'id'], group='other')
        if kind not in ('Unified',):
            for lim in ([2, 3], [[1, 3], [4, 1]], [50, 50], [None, None]):
                for b in ('batch', 'increment'):
                    add(kind, scales=[0.5, 1.0], feats=['id', 'chan'], limits=lim, batch=b)
        if fam.needs_patch(kind) or kind in ('CLM', 'Unified', 'APS'):
            add(kind, scales=[0.5, 1.0], feats=['id', 'id'], patch=[[5, 7], [9, 5]])
            add(kind, scales=[0.5, 0.75, 1.0], feats=['id'] * 3, patch=[[5, 5], [9, 9], [7, 7]])
        if kind in ('PatchAAM', 'PatchATM', 'CLM', 'Unified', 'APS'):
            add(kind, scales=[0.5, 1.0], feats=['id', 'id'], norm=1)
        if kind in ('PatchAAM', 'APS'):
            add(kind, scales=[0.5, 1.0], feats=['id', 'id'], norm=2)
        if kind in ('CLM', 'Unified'):
            for s in ([0.5, 1.0], [0.5, 0.75, 1.0]):
                add(kind, scales=s, feats=['id'] * len(s), context=1)
            for e in ('nomask', 'offsets', 'both', 'classes'):
                add(kind, scales=[0.5, 1.0], feats=['id', 'id'], experts=e)
                add(kind, scales=[1.0], feats=['id'], experts=e, norm=1)
        if kind == 'Unified':
            add(kind, scales=[0.5, 1.0], feats=['id', 'id'], boundary=6)
            for sg in (0.6, 1.5, 0.3):
                for ch in (1, 2):
                    for f in (['id', 'id'], ['chan', 'id']):
                        add(kind, scales=[0.5, 1.0], feats=f, sigma=sg, channels=ch)
        if kind == 'APS':
            for k in ('mst', 'nographs', 'perscale', 'noproc', 'svd', 'mixed', 'mixed2'):
                add(kind, scales=[0.5, 1.0], feats=['id', 'id'], graphs=k)
    if tier == 'thorough':
        for kind in KINDS:
            for s in SCALES:
                for f in itertools.product(FEATS, repeat=len(s)):
                    for lim in LIMITS:
                        for ref in (None, 'given'):
                            add(kind, scales=s, feats=list(f), limits=lim, ref=ref, channels=2 if ref else 1)
    return out


# ----------------------------------------------------------- reference model

def norm1(p):
    from menpo.feature import no_op
    return no_op(p)


def normA(p):
    """a patch normalisation: zero mean per patch"""
    p = np.array(getattr(p, 'pixels', p))
    return p - p.mean(axis=(-2, -1), keepdims=True)


def normB(p):
    p = np.array(getattr(p, 'pixels', p))
    return 2 * p + 0.25


def ims_of(case, n=5, start=0):
    out = []
    for k in range(start, start + n):
        im = fx.make_image(k, shape=(48, 48), n_channels=case.get('channels', 1), group='PTS')
        if case.get('group'):
            q = im.landmarks['PTS'].copy()
            q.points[...] = (q.points - q.points.mean(0)) * [1.1, 0.8] + q.points.mean(0) + [1, 0.5 * k]
            im.landmarks['other'] = q
        if case.get('sizes') and k % 2:
            im = im.rescale(1.4)
        out.append(im)
    return out


def ref_shape(case, shapes):
    """(argument, diagonal argument, expected reference points)"""
    pts = np.mean([s.points for s in shapes], 0)
    diag = 30 if case.get('ref') in (None, 'diag', 'given+diag') else None
    ref = case.get('ref')
    if ref is None or ref == 'diag':
        if ref is None:
            diag = 30
        else:
            diag = 24.
    if ref and ref.startswith('given'):
        r = shapes[1].copy()
        r.points[...] = (r.points - r.points.mean(0)) * 0.9 + 15
        q = r.points.copy()
        if diag:
            q *= diag / np.sqrt(((q.max(0) - q.min(0)) ** 2).sum())
        return r, diag, q
    rng = pts.max(0) - pts.min(0)
    if diag:
        pts = pts * (diag / np.sqrt((rng ** 2).sum()))
    return None, diag, pts


def smooth(im, sigma):
    """every channel smoothed on its own"""
    from scipy.ndimage import gaussian_filter
    im = im.copy()
    im.pixels = np.stack([gaussian_filter(c, sigma, mode='constant') for c in im.pixels])
    return im


def prepare(ims, group, ref, fs, scales, sigma=None):
    """per scale: images and shapes of that scale"""
    base = [i.rescale_to_pointcloud(ref, group=group) for i in ims]
    if sigma:
        base = [smooth(i, sigma) for i in base]
    out = []
    for f, s in zip(fs, scales):
        cur = [f(i.copy()) for i in base]
        if s != 1:
            cur = [i.rescale(s) for i in cur]
        out.append((cur, [i.landmarks[group] for i in cur]))
    return out


def aligned(shapes):
    from menpo.transform import GeneralizedProcrustesAnalysis, Translation
    c = [Translation(-s.centre()).apply(s) for s in shapes]
    return [t.aligned_source() for t in GeneralizedProcrustesAnalysis(c).transforms]


def pca(X):
    """mean, components (rows), eigenvalues"""
    X = np.asarray(X)
    m = X.mean(0)
    u, s, v = np.linalg.svd(X - m, full_matrices=False)
    e = s ** 2 / (len(X) - 1)
    k = e > e.max() * 1e-9
    return m, v[k], e[k]


def limit(lim, e):
    n = len(e)
    if lim is None:
        return n
    if isinstance(lim, int):
        return min(lim, n)
    return int((np.cumsum(e) / e.sum() < lim).sum()) + 1


def lim_of(case, which, j, n):
    l = case.get('limits', [None, None])[which]
    if isinstance(l, list):
        return l[:n][j]
    return l


def lim_arg(case, which, n):
    l = case.get('limits', [None, None])[which]
    return l[:n] if isinstance(l, list) else l


def simspace(p):
    r = np.stack([-p[:, 1], p[:, 0]], 1)
    b = np.zeros((4, p.size))
    b[0], b[1] = p.ravel(), r.ravel()
    b[2, ::2] = 1
    b[3, 1::2] = 1
    return b


def span_eq(ctx, A, B, key, msg, tol=1e-5):
    """the rows of A and B span the same space"""
    A, B = np.atleast_2d(A), np.atleast_2d(B)

    def basis(M):
        u, s, v = np.linalg.svd(M, full_matrices=False)
        return v[s > s.max() * 1e-9]
    a, b = basis(A), basis(B)
    if a.shape != b.shape:
        ctx.bad(key, '%s: the spaces have %d and %d dimensions' % (msg, len(a), len(b)))
        return
    r = np.abs(a - a.dot(b.T).dot(b)).max()
    ctx.check(r < tol, key, '%s: not the same subspace (residual %.3g)' % (msg, r))


def rows(comp, scale=None):
    comp = comp / np.linalg.norm(comp, axis=1)[:, None]
    return comp


def patch_masks(f, patch):
    """the masks of patches around the landmarks: a landmark on a pixel boundary
    (up to rounding) belongs to either pixel"""
    p = f.landmarks['source'].points
    amb = [(i, d) for i in range(len(p)) for d in (0, 1) if abs(p[i, d] - np.round(p[i, d])) < 1e-7]
    for jit in itertools.product((-1, 1), repeat=len(amb)):
        q = p.copy()
        for (i, d), s in zip(amb, jit):
            q[i, d] = np.round(q[i, d]) + 0.25 * s
        q = np.floor(q).astype(int)
        m = np.zeros(f.shape, dtype=bool)
        for r, c in q:
            m[r - patch[0] // 2:r + patch[0] // 2 + patch[0] % 2, c - patch[1] // 2:c + patch[1] // 2 + patch[1] % 2] = True
        yield m


def frame_of(points_shape, patch, boundary=3, got=None):
    """the reference frame of a shape; got is the observed mask, which decides
    between equally correct ones"""
    from menpo.image import MaskedImage, BooleanImage
    if patch is None:
        return MaskedImage.init_from_pointcloud(points_shape, boundary=boundary, group='source', constrain_mask=True)
    f = MaskedImage.init_from_pointcloud(points_shape, boundary=max(patch) + boundary, group='source', constrain_mask=False)
    best = None
    for m in patch_masks(f, patch):
        if best is None or (got is not None and m.shape == got.shape and np.array_equal(m, got)):
            best = m
    f.mask = BooleanImage(best)
    return f


def tps_or_pwa(tps):
    from menpo.transform import ThinPlateSplines, PiecewiseAffine
    return ThinPlateSplines if tps else PiecewiseAffine


class Ref(object):
    """the reference training"""
    def __init__(self, case, ims, masks=None):
        self.case = case
        kind = self.kind = case['kind']
        self.scales = case['scales']
        n = self.n = len(self.scales)
        group = self.group = case.get('group') or 'PTS'
        self.atm = kind in ATMS
        shapes = [i.landmarks[group] for i in ims]
        first = self.first = case['cut'][0] if case.get('cut') else len(ims) // 2 if case.get('batch') else len(ims)
        self.ref_arg, self.diag, pts = ref_shape(case, shapes[:first])
        ref = self.ref = shapes[0].copy()
        ref.points[...] = pts
        uniq = {f: feat(f) for f in set(case['feats'])}
        self.fs = [uniq[f] for f in case['feats']]
        self.linear = kind.startswith('Linear')
        self.tps = self.linear or kind.startswith('Masked')
        self.patches = case.get('patch') or [[9, 9] if kind in ('CLM', 'Unified') else [7, 7]] * n
        self.twice = kind == 'APS'
        self.has_patch = fam.needs_patch(kind) or kind in ('CLM', 'Unified', 'APS')
        self.norm = [norm1] * n
        if case.get('norm') == 1:
            self.norm = [normA] * n
        if case.get('norm') == 2:
            self.norm = [normA, normB]
        if self.atm:
            t = 1 if case.get('batch') == 'increment' else 0   # an increment may bring another template
            prep = prepare(ims[t:t + 1], group, ref, self.fs, self.scales)
            nr = np.linalg.norm(ref.points - ref.points.mean(0))
            base = []
            for s in shapes:
                q = s.copy()
                q.points[...] = s.points * (nr / np.linalg.norm(s.points - s.points.mean(0)))
                base.append(q)
            self.data = []
            for (im, _), sc in zip(prep, self.scales):
                ss = []
                for b in base:
                    q = b.copy()
                    q.points[...] = b.points * sc
                    ss.append(q)
                self.data.append((im, ss, [im[0].landmarks[group]]))
        else:
            self.data = [(a, b, b) for a, b in prepare(ims, group, ref, self.fs, self.scales, case.get('sigma'))]
        if masks is not None:
            self.build(case, kind, ref, masks)

    def build(self, case, kind, ref, masks):
        self.shape, self.app, self.frames, self.al = [], [], [], []
        for j, (cur, ss, imshapes) in enumerate(self.data):
            patch = tuple(self.patches[j])
            fp = patch if 'Masked' in kind else None
            al = aligned(ss)
            T = tps_or_pwa(self.tps)
            if self.linear:
                fs = ss[0].copy()
                fs.points[...] = np.mean([a.points for a in aligned(ss[:self.first])], 0)
                frame = frame_of(fs, fp, got=masks[j])
                dense = []
                for s in ss:
                    t = T(frame.landmarks['source'], s)
                    dense.append(fx.pc(np.vstack([s.points, t.apply(frame.mask.true_indices())])))
                al = aligned(dense)
            else:
                fs = ref.copy()
                fs.points[...] = ref.points * self.scales[j]
                frame = None if (kind.startswith('Patch') or kind in ('CLM', 'APS')) else \
                    frame_of(fs, fp, case.get('boundary', 3), got=masks[j])
            self.frames.append(frame)
            self.al.append(al)
            # the shape model aligns what it is given
            self.shape.append(pca([a.points.ravel() for a in (aligned(al) if self.twice else al)]))
            if kind == 'CLM':
                self.app.append(None)
                continue
            if frame is None:
                w = []
                for i, s in zip(cur, imshapes):
                    p = i.extract_patches(s, patch_shape=patch, as_single_array=True)
                    w.append(np.asarray(self.norm[j](p)).ravel())
                self.wim = p.shape
            else:
                w = []
                for i, s in zip(cur, imshapes):
                    x = i.warp_to_mask(frame.mask, T(frame.landmarks['source'], s), warp_landmarks=False)
                    w.append(np.asarray(x.pixels[:, frame.mask.mask]).ravel())
            self.app.append(w)


# --------------------------------------------------------------- the subject

def graphs(case):
    from menpo.shape import UndirectedGraph
    ug, t = fam.ring_tree()
    g = case.get('graphs')
    if g == 'mst':
        return dict(appearance_graph=ug, deformation_graph=None, shape_graph=ug), (ug, None, ug)
    if g == 'nographs':
        return dict(appearance_graph=ug, deformation_graph=t, shape_graph=None), (ug, t, None)
    if g == 'perscale':
        a = np.zeros((6, 6))
        for i in range(5):
            a[i, i + 1] = a[i + 1, i] = 1
        chain = UndirectedGraph(a)
        return dict(appearance_graph=[ug, chain], deformation_graph=[t, t], shape_graph=[chain, None]), None
    if g in ('mixed', 'mixed2'):
        return dict(appearance_graph=ug, deformation_graph=[t, None] if g == 'mixed' else [None, t], shape_graph=ug), None
    return dict(appearance_graph=ug, deformation_graph=t, shape_graph=ug), (ug, t, ug)


def train(case, R, ims):
    import menpofit.aam as A
    import menpofit.atm as M
    import menpofit.clm as C
    import menpofit.unified_aam_clm as U
    from menpofit.aps import GenerativeAPS
    kind, n = case['kind'], R.n
    from menpo.feature import no_op
    k = dict(group=case.get('group') or 'PTS', scales=tuple(R.scales) if n > 1 else R.scales[0], diagonal=R.diag,
             reference_shape=R.ref_arg, holistic_features=R.fs if n > 1 else R.fs[0],
             max_shape_components=lim_arg(case, 0, n))
    if kind in AAMS or kind == 'Unified':
        k['max_appearance_components'] = lim_arg(case, 1, n)
    if R.has_patch:
        k['patch_shape'] = [tuple(p) for p in R.patches] if case.get('patch') else tuple(R.patches[0])
    if case.get('norm') and kind in ('PatchAAM', 'APS'):
        k['patch_normalisation'] = R.norm if case['norm'] == 2 else normA
    elif case.get('norm'):
        k['patch_normalisation'] = normA
    if kind in ('CLM', 'Unified'):
        k['context_shape'] = [(15, 13), (17, 19), (13, 15)][:n] if case.get('context') else (15, 15)
        k.update(experts(case))
        if case.get('experts') == 'classes':
            k['expert_ensemble_cls'] = [expert_cls(j) for j in range(n)]
        if case.get('norm'):
            from menpo.feature import normalize_norm
            k['patch_normalisation'] = normalize_norm
    if kind == 'APS':
        k['n_appearance_components'] = 3 if case.get('graphs') == 'svd' else None
        k.update(graphs(case)[0])
        k['precision_dtype'] = np.float64
        k['can_be_incremented'] = bool(case.get('batch'))
        if case.get('graphs') == 'noproc':
            k['use_procrustes'] = False
    if case.get('boundary'):
        k['boundary'] = case['boundary']
    if case.get('sigma'):
        k['sigma'] = case['sigma']
    b = case.get('batch')
    first, rest = (ims[:R.first], ims[R.first:]) if b == 'increment' else (ims, [])
    if b == 'batch':
        k['batch_size'] = R.first
    if kind in ATMS:
        shapes = [i.landmarks[k['group']] for i in ims]
        m = getattr(M, kind)(ims[0], shapes[:len(first)], **k)
        if rest:
            m.increment(ims[1], shapes[len(first):], group=k['group'])
        return m
    cls = dict(CLM=C.CLM, Unified=U.UnifiedAAMCLM, APS=GenerativeAPS).get(kind) or getattr(A, kind)
    m = cls(first, **k)
    if rest:
        m.increment(rest, group=k['group'])
    return m


def vec(im):
    return np.asarray(im.as_vector())


def run(case, ctx):
    kind = case['kind']
    nim = 8 if kind in ('Unified', 'APS', 'CLM') else 5
    if case.get('batch'):
        nim = 6
    if kind == 'APS':
        nim = 14 if not case.get('batch') else 20
    ims = ims_of(case, nim)
    m = train(case, Ref(case, ims), ims)
    am = getattr(m, 'warped_templates', None) or [a.mean() for a in getattr(m, 'appearance_models', [])]
    R = Ref(case, ims_of(case, nim), [a.mask.mask if hasattr(a, 'mask') else None for a in am] or [None] * len(case['scales']))
    ctx.step()
    n = R.n
    ctx.check(m.n_scales == n and list(m.scales) == list(R.scales), 'scales', 'the model has scales %s' % (m.scales,))
    for name in ('shape_models', 'appearance_models', 'warped_templates', 'expert_ensembles', 'deformation_models'):
        l = getattr(m, name, None)
        if l is not None:
            ctx.check(len(l) == n, 'one-per-scale', '%s has %d entries for %d scales' % (name, len(l), n))
    ctx.close(m.reference_shape.points, R.ref.points, 'reference-shape', 'reference shape of the model')
    batch = bool(case.get('batch'))
    for j in range(n):
        ctx.step()
        ctx.trace()
        where = '%s scale %d' % (kind, j)
        sm = m.shape_models[j]
        pm = sm.model
        mean, comp, e = R.shape[j]
        ls = lim_of(case, 0, j, n)
        shape_scale(ctx, case, R, j, sm, mean, comp, e, ls, where, batch)
        if kind in AAMS or kind == 'Unified':
            app_scale(ctx, case, R, m.appearance_models[j], j, where, batch)
        if R.atm:
            t = m.warped_templates[j]
            ctx.close(vec(t), R.app[j][0], 'template', where + ': warped template', rtol=1e-7, atol=1e-7)
        if kind in ('CLM', 'Unified') and not batch:
            expert_scale(ctx, case, R, m, j, where)
        if kind == 'APS' and not batch:
            aps_scale(ctx, case, R, m, j, where)
        ctx.state(kind, j, mean, case)
    if not R.linear:
        instances(ctx, case, R, m)
    if kind in AAMS or kind == 'Unified':
        reconstructions(ctx, case, m)


def shape_scale(ctx, case, R, j, sm, mean, comp, e, ls, where, batch):
    pm = sm.model
    if isinstance(ls, int):
        ctx.check(pm.n_components <= ls and sm.n_active_components <= ls, 'shape-limit',
                  '%s: %d shape components although at most %d are allowed' % (where, pm.n_components, ls))
    if batch:
        return
    if case['kind'] == 'APS' and case.get('graphs') not in ('nographs', 'perscale') or \
            (case.get('graphs') == 'perscale' and j == 0):
        from menpo.model import GMRFModel
        g = graphs(case)[0]['shape_graph']
        g = g[j] if isinstance(g, list) else g
        al = R.al[j]
        pc = GMRFModel(al, g, mode='concatenation', n_components=None, dtype=np.float64, sparse=False).principal_components_analysis()
        mean, comp, e = pc.mean().points.ravel(), pc.components, pc.eigenvalues
    k = limit(ls, e)
    got = pm.mean().points
    ctx.close(got.ravel(), mean, 'shape-mean', where + ': mean shape', rtol=1e-6, atol=1e-6)
    if k < len(e) and (e[k - 1] - e[k]) < 1e-6 * e.sum():
        return
    sim = rows(simspace(np.asarray(mean).reshape(-1, 2)))
    allc = np.vstack([sim, rows(comp[:k])])
    free = np.linalg.matrix_rank(allc, tol=1e-7) - 4
    ctx.check(pm.n_components <= k, 'shape-count', '%s: %d shape components instead of at most %d' % (where, pm.n_components, k))
    if free == k:
        ctx.check(pm.n_components == k and sm.n_active_components == k, 'shape-count',
                  '%s: %d shape components instead of %d' % (where, pm.n_components, k))
        span_eq(ctx, np.vstack([sim, pm.components]), allc, 'shape-space', where + ': shape space')
        ctx.close(pm.eigenvalues, e[:k], 'shape-variance', where + ': shape variances', rtol=1e-6, atol=1e-9)


def app_scale(ctx, case, R, am, j, where, batch):
    n = R.n
    la = lim_of(case, 1, j, n)
    if isinstance(la, int):
        ctx.check(am.n_components <= la, 'appearance-limit',
                  '%s: %d appearance components although at most %d are allowed' % (where, am.n_components, la))
    if not batch:
        mean, comp, e = pca(R.app[j])
        k = limit(la, e)
        ctx.close(vec(am.mean()), mean, 'appearance-mean', where + ': mean appearance', rtol=1e-6, atol=1e-6)
        ctx.check(am.n_components == k == am.n_active_components, 'appearance-count',
                  '%s: %d appearance components instead of %d' % (where, am.n_components, k))
        if am.components.shape[1] == comp.shape[1] and len(am.eigenvalues) == k:
            ctx.close(am.eigenvalues, e[:k], 'appearance-variance', where + ': appearance variances', rtol=1e-6, atol=1e-9)
            if not (k < len(e) and (e[k - 1] - e[k]) < 1e-6 * e.sum()):
                span_eq(ctx, am.components, comp[:k], 'appearance-space', where + ': appearance space')
    if R.frames[j] is not None and not (batch and R.linear):
        ctx.close(am.mean().landmarks['source'].points, R.frames[j].landmarks['source'].points, 'frame-landmarks',
                  where + ': landmarks of the reference frame', atol=1e-6)
        ctx.check(np.array_equal(am.mean().mask.mask, R.frames[j].mask.mask), 'frame-mask', where + ': mask of the reference frame')


def experts(case):
    e = case.get('experts')
    k = {}
    if e in ('nomask', 'both'):
        k['cosine_mask'] = False
    if e in ('offsets', 'both'):
        k['sample_offsets'] = np.array([[0, 0], [1, 0], [0, -2]])
    return k


def expert_cls(j):
    from functools import partial
    from menpofit.clm import CorrelationFilterExpertEnsemble
    return partial(CorrelationFilterExpertEnsemble, response_covariance=[3, 1.5, 5][j])


def expert_scale(ctx, case, R, m, j, where):
    from menpofit.clm import CorrelationFilterExpertEnsemble
    from menpo.feature import no_op, normalize_norm
    cur, ss, _ = R.data[j]
    cls = expert_cls(j) if case.get('experts') == 'classes' else CorrelationFilterExpertEnsemble
    ref = cls([c.copy() for c in cur], ss, patch_shape=tuple(R.patches[j]), context_shape=[(15, 13), (17, 19), (13, 15)][j] if case.get('context') else (15, 15),
                                          patch_normalisation=normalize_norm if case.get('norm') else no_op, **experts(case))
    ex = m.expert_ensembles[j]
    ctx.check(ex.n_experts == ss[0].n_points, 'experts', '%s: %d experts' % (where, ex.n_experts))
    for i in (0, 2):
        a = np.asarray(ex.predict_response(cur[i], ss[i]))
        b = np.asarray(ref.predict_response(cur[i], ss[i]))
        ctx.close(a, b, 'expert-response', where + ': expert responses', rtol=1e-6, atol=1e-8)


def mst_edges(shapes):
    from scipy.stats import multivariate_normal
    n = shapes[0].n_points
    w = {}
    for i in range(n):
        for k in range(i + 1, n):
            d = np.array([s.points[i] - s.points[k] for s in shapes])
            w[i, k] = -multivariate_normal.logpdf(d, d.mean(0), np.cov(d.T)).sum()
    # Prim on the (possibly negative) weights
    seen, edges = {0}, []
    while len(seen) < n:
        a, b = min(((a, b) for a in seen for b in range(n) if b not in seen), key=lambda e: w[tuple(sorted(e))])
        seen.add(b)
        edges.append((a, b))
    return sorted(tuple(sorted(e)) for e in edges)


def dense(x):
    return np.asarray(x.todense()) if hasattr(x, 'todense') else np.asarray(x)


def aps_scale(ctx, case, R, m, j, where):
    from menpo.model import GMRFModel
    from menpo.image import Image
    from menpo.shape import Tree
    cur, ss, _ = R.data[j]
    al = R.al[j]
    g = graphs(case)[0]
    pick = lambda x: x[j] if isinstance(x, list) else x
    dg = pick(g['deformation_graph'])
    if dg is None:
        got = m.deformation_graph[j]
        base = [i.rescale_to_pointcloud(R.ref, group=R.group).landmarks[R.group] for i in ims_of(case, 14)]
        ctx.check(isinstance(got, Tree) and got.root_vertex == 0, 'mst', where + ': the default deformation graph is no tree rooted at 0')
        ctx.check(sorted(tuple(sorted(map(int, x))) for x in got.edges) == mst_edges(base), 'mst',
                  where + ': the default deformation graph is not the minimum spanning tree')
        dg = got
    ctx.close(dense(m.deformation_graph[j].adjacency_matrix), dense(dg.adjacency_matrix), 'graph', where + ': deformation graph')
    ds = ss if case.get('graphs') == 'noproc' else al
    d = GMRFModel(ds, dg, mode='subtraction', n_components=None, dtype=np.float64, sparse=False)
    dm = m.deformation_models[j]
    ctx.close(dense(dm.precision), dense(d.precision), 'deformation', where + ': deformation precision', rtol=1e-5, atol=1e-8)
    ctx.close(dm.mean().as_vector(), d.mean().as_vector(), 'deformation', where + ': deformation mean', rtol=1e-6, atol=1e-6)
    shape = (6, 1, R.app[j][0].size // (6 * int(np.prod(R.patches[j])))) + tuple(R.patches[j])
    wi = [Image(w.reshape(shape)) for w in R.app[j]]
    a = GMRFModel(wi, pick(g['appearance_graph']), mode='concatenation', n_components=3 if case.get('graphs') == 'svd' else None,
                  dtype=np.float64, sparse=True)
    am = m.appearance_models[j]
    ctx.close(vec(am.mean()), vec(a.mean()), 'aps-appearance-mean', where + ': appearance mean', rtol=1e-6, atol=1e-8)
    A, B = dense(am.precision), dense(a.precision)
    ctx.close(A, B, 'aps-appearance', where + ': appearance precision', rtol=1e-4, atol=1e-6 * max(1, np.abs(B).max()))


# ----------------------------------------------------- instances, reconstructions

WEIGHTS = [None, [0.8], [-0.5, 1.1]]


def wanted(mean, comp, e, w):
    v = np.array(mean, dtype=float).ravel().copy()
    for i, x in enumerate(w or []):
        v = v + x * np.sqrt(e[i]) * comp[i]
    return v


def clip(w, n):
    return None if w is None else w[:n]


def instances(ctx, case, R, m):
    kind = case['kind']
    n = R.n
    for idx in list(range(-n, n)) + ['default']:
        kw = {} if idx == 'default' else dict(scale_index=idx)
        j = n - 1 if idx == 'default' else idx % n
        sm = m.shape_models[j].model
        for sw in WEIGHTS:
            sw = clip(sw, sm.n_active_components)
            want = wanted(sm.mean().points, sm.components, sm.eigenvalues, sw).reshape(-1, 2)
            where = '%s instance of scale %s, shape weights %s' % (kind, idx, sw)
            ctx.step()
            if kind in ('CLM', 'APS', 'Unified'):
                f = m.instance if kind == 'APS' else m.shape_instance
                got = f(**({} if sw is None else dict(shape_weights=sw)), **kw)
                ctx.close(got.points, want, 'instance-shape', where, atol=1e-8)
                if kind == 'APS':
                    gg = f(shape_weights=sw, as_graph=True, **kw)
                    ctx.close(gg.points, want, 'instance-shape', where, atol=1e-8)
                    ctx.close(dense(gg.adjacency_matrix), dense(m.deformation_graph[j].adjacency_matrix), 'instance-graph', where)
                if kind != 'Unified':
                    continue
            if R.atm:
                got = m.instance(**({} if sw is None else dict(shape_weights=sw)), **kw)
                check_instance(ctx, case, R, j, got, want, m.warped_templates[j], vec(m.warped_templates[j]), where)
                continue
            am = m.appearance_models[j]
            for aw in WEIGHTS:
                aw = clip(aw, am.n_active_components)
                a = wanted(am.mean().as_vector(), am.components, am.eigenvalues, aw)
                got = m.instance(**({} if sw is None else dict(shape_weights=sw)),
                                 **({} if aw is None else dict(appearance_weights=aw)), **kw)
                check_instance(ctx, case, R, j, got, want, am.mean(), a, where + ', appearance weights %s' % (aw,))
        if not hasattr(m, 'random_instance'):
            continue
        np.random.seed(3)
        try:
            got = m.random_instance(**kw)
        except Exception as ex:
            ctx.bad('random-instance', '%s: random_instance(%s) raised %s: %s' % (kind, kw, type(ex).__name__, ex))
            continue
        # a random instance is the instance of normally distributed (normalised) weights
        for c in (0.7, -1.1):
            with drawn(c):
                a = m.random_instance(**kw)
            w = dict(shape_weights=[c] * sm.n_active_components)
            if kind in AAMS or kind == 'Unified':
                w['appearance_weights'] = [c] * m.appearance_models[j].n_active_components
            same_instance(ctx, a, m.instance(**dict(w, **kw)), '%s: the random instance of scale %s for draws of %s' % (kind, idx, c))
        if kind == 'APS':
            with drawn(0.4):
                a = m.random_instance(as_graph=True, **kw)
            w = dict(shape_weights=[0.4] * sm.n_active_components, as_graph=True)
            b = m.instance(**dict(w, **kw))
            if ctx.check(hasattr(a, 'adjacency_matrix'), 'random-instance', '%s: a random instance asked for as a graph is a %s' % (kind, type(a).__name__)):
                ctx.close(a.points, b.points, 'random-instance', '%s: random graph of scale %s' % (kind, idx))
                ctx.close(dense(a.adjacency_matrix), dense(m.deformation_graph[j].adjacency_matrix), 'random-instance', '%s: random graph of scale %s' % (kind, idx))
        p = got[0] if isinstance(got, tuple) else got if not hasattr(got, 'landmarks') or kind in ('APS',) else got.landmarks['source']
        p = p.points
        span = np.vstack([sm.components, rows(simspace(sm.mean().points))[2:]])
        q, _ = np.linalg.qr(span.T)
        d = (p - sm.mean().points).ravel()
        ctx.check(np.abs(d - q.dot(q.T.dot(d))).max() < 1e-5, 'random-instance',
                  '%s: a random instance of scale %s is no instance of the shape model of that scale' % (kind, idx))


class drawn(object):
    """every standard normal number drawn from numpy is c"""
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.saved = np.random.randn, np.random.standard_normal, np.random.normal
        c = self.c
        np.random.randn = lambda *s: np.full(s, c) if s else c
        np.random.standard_normal = lambda size=None: c if size is None else np.full(size, c)
        np.random.normal = lambda loc=0., scale=1., size=None: loc + scale * (c if size is None else np.full(size, c))

    def __exit__(self, *a):
        np.random.randn, np.random.standard_normal, np.random.normal = self.saved


def same_instance(ctx, a, b, what):
    ctx.step()
    if not isinstance(a, tuple):
        a, b = (a,), (b,)
    for x, y in zip(a, b):
        x, y = [o.as_vector() if hasattr(o, 'as_vector') else vec(o) for o in (x, y)]
        ctx.check(x.shape == y.shape and np.allclose(x, y, atol=1e-8), 'random-instance',
                  what + ': not the instance of these weights')


def check_instance(ctx, case, R, j, got, want, template, appearance, where):
    kind = case['kind']
    ctx.trace()
    if kind.startswith('Patch'):
        ctx.check(isinstance(got, tuple) and len(got) == 2, 'instance', where + ': not a shape and patches')
        ctx.close(got[0].points, want, 'instance-shape', where, atol=1e-8)
        ctx.close(vec(got[1]), appearance, 'instance-appearance', where, atol=1e-8)
        return
    s = template.landmarks['source'].copy()
    s.points[...] = want
    frame = frame_of(s, tuple(R.patches[j]) if 'Masked' in kind else None, got=got.mask.mask)
    base = template.from_vector(appearance)
    T = tps_or_pwa(R.tps)(frame.landmarks['source'], template.landmarks['source'])
    exp = base.as_unmasked().warp_to_mask(frame.mask, T, warp_landmarks=True)
    lm = got.landmarks['source'].points
    ctx.close(lm - lm.mean(0), want - want.mean(0), 'instance-shape', where, atol=1e-5)
    if ctx.check(got.pixels.shape == exp.pixels.shape and np.array_equal(got.mask.mask, exp.mask.mask), 'instance-frame',
                 '%s: frame %s instead of %s' % (where, got.pixels.shape, exp.pixels.shape)):
        ctx.close(vec(got), vec(exp), 'instance-appearance', where + ': pixels', rtol=1e-6, atol=1e-6)


def reconstructions(ctx, case, m):
    n = len(m.scales)
    for iters in itertools.product(range(3), repeat=n):
        params, want = [], []
        t = 0
        for j in range(n):
            am = m.appearance_models[j]
            for i in range(iters[j] + 1):
                k = am.n_active_components
                c = np.array([0.3 * np.sin(1.7 * t + 0.9 * q + 1) for q in range(k)])
                params.append(c)
                want.append(am.mean().as_vector() + c.dot(am.components))
                t += 1
        got = m.appearance_reconstructions(params, list(iters))
        ctx.step()
        if not ctx.check(len(got) == len(want), 'reconstructions', '%s: %d reconstructions instead of %d for iterations %s' % (
                case['kind'], len(got), len(want), iters)):
            continue
        for t, (a, b) in enumerate(zip(got, want)):
            a = a.as_vector() if hasattr(a, 'as_vector') else np.asarray(a).ravel()
            if a.shape != b.shape or not np.allclose(a, b, atol=1e-8):
                ctx.bad('reconstructions', '%s: reconstruction %d for iterations %s is not the one of its scale' % (
                    case['kind'], t, iters))
                break
