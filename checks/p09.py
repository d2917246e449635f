"""P09 - training in batches equals training incrementally on the same batches.

The histories of a training set are all ways of cutting it into consecutive
batches.  Histories that reach the same cut by different operations (batch size at
construction, batch size of an increment, explicit increments; lists, tuples and
generators) are compared state by state; every history is also replayed against a
reference that accumulates mean and scatter of the samples of each scale.
"""
import itertools
import numpy as np
from vlib import fx, fam, walk
import p20

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all cuts of a training set into batches and of the operations producing them; equal cuts '
             'must give equal states (self-composition), and every cut is replayed against a reference accumulating mean and scatter')
RULE = ('model families x configurations x all (first batch, batch size) pairs x carriers of the samples; all compositions of the '
        'training set x forgetting factors x component limits; a transition is one training or increment; a state is a distinct '
        'model after a batch')
ASSUMPTIONS = ['menpo\'s Procrustes, warp, GMRF and orthonormalisation primitives are trusted',
               'each batch of shapes is aligned on its own (a single new shape to the mean learned so far)']
CHUNK = 2

AAMS, ATMS = fam.AAM_KINDS, fam.ATM_KINDS
KINDS = AAMS + ATMS + ['CLM', 'APS']


def BOUNDS(tier):
    return dict(images=6 if tier == 'quick' else 7, aps_images=11)


def sizes(kind, tier):
    """(images, smallest first batch)"""
    if kind == 'APS':
        return 11, 7
    return (6 if tier == 'quick' else 7), 2


def compositions(n):
    if n == 0:
        yield []
    for a in range(1, n + 1):
        for r in compositions(n - a):
            yield [a] + r


def cuts(kind, tier):
    n, lo = sizes(kind, tier)
    return [c for c in compositions(n) if c[0] >= lo]


CONF = [dict(), dict(ref='given'), dict(ref='given', scales=[1.0], limits=[2, 3]), dict(limits=[[1, 3], [4, 1]], feats=['id', 'chan']),
        dict(ref='given', limits=[0.9, 0.8]), dict(scales=[0.5, 0.75, 1.0], feats=['chan', 'half', 'id']), dict(channels=2, group='other'),
        dict(sm='PDM', ref='given'), dict(ref='given', limits=[[1, 3], [4, 1]])]


def conf(c):
    d = dict(scales=[0.5, 1.0], feats=['id', 'id'])
    d.update(c)
    if len(d['feats']) != len(d['scales']):
        d['feats'] = ['id'] * len(d['scales'])
    return d


def cases(tier):
    for kind in KINDS:
        for i, c in enumerate(CONF):
            if kind == 'APS' and (c.get('sm') or c.get('limits')):
                c = dict(c, limits=[2, None])
            if not takes_model(kind) and c.get('sm'):
                continue
            n, lo = sizes(kind, tier)
            for k in range(lo, n + 1) if i < 8 or tier == 'thorough' else ():
                yield dict(conf(c), what='ops', kind=kind, first=k, n=n, lo=lo)
            for cut in cuts(kind, tier):
                if i in (0, 1, 2, 7) or i == 8 and len(cut) in (2, 3) or tier == 'thorough':
                    yield dict(conf(c), what='ref', kind=kind, cut=cut)
        # forgetting
        for sf, af in FORGET:
            if kind == 'APS':
                continue
            for cut in cuts(kind, tier):
                if 1 < len(cut) < 5 or tier == 'thorough':
                    for sm in (None, 'PDM'):
                        if sm and not takes_model(kind):
                            continue
                        yield dict(conf(dict(ref='given', scales=[1.0])), what='ref', kind=kind, cut=cut, forget=[sf, af], sm=sm)
    for cls in ('PDM', 'GlobalSim', 'GlobalAff', 'Ortho'):
        for cut in compositions(6):
            if cut[0] > 1:
                yield dict(what='pdm', cls=cls, cut=cut)
    for n in range(0, 9):
        yield dict(what='batch', n=n)


FORGET = [(0.6, None), (None, 0.7), (0.5, 0.8)]


def takes_model(kind):
    return kind in AAMS + ['CLM', 'HolisticATM']


def run(case, ctx):
    globals()['run_' + case['what']](case, ctx)


# ------------------------------------------------------------------ batching

def run_batch(case, ctx):
    from menpofit.base import batch
    n = case['n']
    for b in range(1, n + 3):
        want = [list(range(i, min(i + b, n))) for i in range(0, n, b)]
        for carrier in (list, tuple, iter, lambda x: (i for i in x), lambda x: map(int, x)):
            got = [list(x) for x in batch(carrier(range(n)), b)]
            ctx.step()
            ctx.check(got == want, 'batch', 'batches of %d of %d items: %s instead of %s' % (b, n, got, want))
            ctx.state('batch', n, b)
        # laziness: no more than one batch is taken before it is asked for
        taken = []
        g = batch((taken.append(i) or i for i in range(n)), b)
        for i, w in enumerate(want):
            next(g)
            ctx.step()
            ctx.check(len(taken) == sum(map(len, want[:i + 1])), 'batch-lazy',
                      'batch %d of size %d: %d of %d items taken' % (i, b, len(taken), n))


# ------------------------------------------------- shape models on their own

def run_pdm(case, ctx):
    import menpofit.modelinstance as M
    import menpofit.transform as T
    cut, n = case['cut'], sum(case['cut'])
    for f, limit, given in itertools.product((None, 1.0, 0.6, [0.9, 0.5]), (None, 3), (0, 1)):
        ss = [fx.pc(fx.deform(fx.base_points(7), k)) for k in range(n)]
        cls = dict(PDM=lambda a, **k: M.PDM(a, **k), Ortho=lambda a, **k: M.OrthoPDM(a, **k),
                   GlobalSim=lambda a, **k: M.GlobalPDM(a, T.DifferentiableAlignmentSimilarity, **k),
                   GlobalAff=lambda a, **k: M.GlobalPDM(a, T.DifferentiableAlignmentAffine, **k))[case['cls']]
        m = cls(ss[:cut[0]], **({} if limit is None else dict(max_n_components=limit)))
        ref = ShapeRef(case['cls'] == 'Ortho', limit)
        ref.add(ss[:cut[0]], 1.0)
        at = cut[0]
        for i, c in enumerate(cut):
            if i:
                fi = f[i % 2] if isinstance(f, list) else f
                b = ss[at:at + c]
                kw = {} if limit is None else dict(max_n_components=limit)
                if fi is not None:
                    kw['forgetting_factor'] = fi
                if given:
                    kw['n_shapes'] = c
                m.increment(gen(b) if given else b, **kw)
                ref.add(b, 1.0 if fi is None else fi)
                at += c
            ctx.step()
            ctx.trace()
            where = '%s after the batches %s (forgetting %s, at most %s components, n_shapes %sgiven)' % (
                case['cls'], cut[:i + 1], f, limit, '' if given else 'not ')
            ctx.check(m.model.n_samples == at, 'samples', '%s: %d of %d samples' % (where, m.model.n_samples, at))
            ctx.close(m.model.mean().points, ref.mean.points, 'pdm-mean', where, rtol=1e-6, atol=1e-7)
            space(ctx, m.model.components, m.model.eigenvalues, ref.V, ref.E, 'pdm', where)
            ctx.state(case['cls'], cut[:i + 1], f, limit, ref.mean.points)


class ShapeRef(object):
    def __init__(self, ortho, limit):
        self.ortho, self.limit, self.model, self.mean = ortho, limit, None, None

    def add(self, ss, f):
        from menpo.model import PCAModel
        al = aligned(ss, self.mean)
        if self.ortho:
            if self.model is None:
                self.model = PCAModel(al)
            else:
                self.model.increment(al, forgetting_factor=f)
            if self.limit is not None:
                self.model.trim_components(self.limit)
            self.mean = self.model.mean()
            self.model.orthonormalize_against_inplace(similarity(self.mean))
            self.E, self.V = self.model.eigenvalues, self.model.components
            return
        X = [a.points.ravel() for a in al]
        if self.model is None:
            self.model = Acc(X, self.limit)
        else:
            self.model.add(X, f, self.limit)
        self.mean = fx.pc(self.model.m.reshape(-1, 2))
        self.E, self.V = self.model.e, self.model.v


# ------------------------------------------------------------------ the subject

def kwargs(case, R):
    from menpofit.modelinstance import PDM
    kind, n = case['kind'], R.n
    k = dict(group=R.group, scales=tuple(R.scales) if n > 1 else R.scales[0], diagonal=R.diag, reference_shape=R.ref_arg,
             holistic_features=R.fs if n > 1 else R.fs[0], max_shape_components=p20.lim_arg(case, 0, n))
    if kind in AAMS:
        k['max_appearance_components'] = p20.lim_arg(case, 1, n)
    if R.has_patch:
        k['patch_shape'] = tuple(R.patches[0])
    if kind == 'CLM':
        k['context_shape'] = (15, 15)
    if kind == 'APS':
        ug, t = fam.ring_tree()
        k.update(appearance_graph=ug, deformation_graph=t, shape_graph=ug if case.get('ref') else None, precision_dtype=np.float64,
                 can_be_incremented=True)
    if case.get('sm') == 'PDM':
        k['shape_model_cls'] = PDM
    return k


def build(case, R, ims, **kw):
    import menpofit.aam as A
    import menpofit.atm as M
    import menpofit.clm as C
    from menpofit.aps import GenerativeAPS
    kind = case['kind']
    k = dict(kwargs(case, R), **kw)
    if kind in ATMS:
        return getattr(M, kind)(template(case), ims, **k)
    return (dict(CLM=C.CLM, APS=GenerativeAPS).get(kind) or getattr(A, kind))(ims, **k)


def template(case):
    return p20.ims_of(case, 1)[0]


def increment(case, R, m, ims, **kw):
    if case['kind'] in ATMS:
        m.increment(template(case), ims, group=R.group, **kw)
    else:
        m.increment(ims, group=R.group, **kw)


def samples(case, n):
    """what is added: images, or shapes for template models"""
    ims = p20.ims_of(case, n)
    if case['kind'] in ATMS:
        return [i.landmarks[case.get('group') or 'PTS'] for i in ims]
    return ims


def explicit(case, R, cut):
    n = sum(cut)
    ims = samples(case, n)
    m = build(case, R, ims[:cut[0]])
    at = cut[0]
    for c in cut[1:]:
        increment(case, R, m, ims[at:at + c])
        at += c
    return m


def cut_of(n, first, b):
    rest = n - first
    return [first] + [min(b, rest - i) for i in range(0, rest, b)]


def listy(x):
    return list(x)


def gen(x):
    return (i for i in x)


def run_ops(case, ctx):
    """all operations that cut the training set after `first` samples"""
    n, k = case['n'], case['first']
    R = p20.Ref(dict(case, cut=[k]), p20.ims_of(case, n))
    memo = {}

    def flat(cut):
        cut = tuple(cut)
        if cut not in memo:
            memo[cut] = walk.flatten(explicit(case, R, cut))
            ctx.step(len(cut))
        return memo[cut]

    def same(m, cut, what):
        ctx.trace()
        ctx.state(case['kind'], cut, {a: b for a, b in case.items() if a != 'first'})
        d = walk.difference(walk.flatten(m), flat(cut))
        ctx.check(not d, 'batches', '%s: %s is not training on the first batch and adding the others of %s: %s' % (
            case['kind'], what, cut, d))

    # batch size at construction
    c = cut_of(n, min(k, n), k)
    for carrier in (listy, gen) if case.get('ref') else (listy, tuple):
        m = build(case, R, carrier(samples(case, n)), batch_size=k)
        ctx.step(len(c))
        same(m, c, 'batch_size=%d' % k)
    # a larger batch size than there are samples
    if k == n:
        m = build(case, R, samples(case, n), batch_size=n + 3)
        ctx.step()
        same(m, [n], 'batch_size=%d' % (n + 3))
        m = build(case, R, samples(case, n))
        ctx.step()
        same(m, [n], 'no batch size')
    # batch size of an increment, of any kind of beginning
    for b in range(1, n - k + 2):
        if k == n:
            break
        for carrier, start in ((gen, {}), (listy, dict(batch_size=k))) if b < n - k + 1 else ((tuple, dict(batch_size=k + 1)),):
            ims = samples(case, n)
            m = build(case, R, ims[:k], **start)
            increment(case, R, m, carrier(ims[k:]), batch_size=b)
            c = cut_of(n, k, b)
            ctx.step(len(c))
            same(m, c, 'increment with batch_size=%d after %d samples' % (b, k))
    # batches at construction followed by an increment in batches
    if k < n and n - k >= 2:
        for h in range(case['lo'], k):
            ims = samples(case, n)
            m = build(case, R, gen(ims[:k]), batch_size=h)
            increment(case, R, m, gen(ims[k:]), batch_size=1)
            increment(case, R, m, [], batch_size=2)    # nothing to add
            c = cut_of(k, h, h) + [1] * (n - k)
            ctx.step(len(c))
            same(m, c, 'batch_size=%d, then one by one' % h)


# ------------------------------------------------------------- the reference

class Acc(object):
    """mean and scatter of the samples, as factor rows"""
    def __init__(self, X, trim=None):
        X = np.asarray(X)
        self.n, self.m = len(X), X.mean(0)
        self.e, self.v = None, None
        self.set(X - self.m, self.n - 1, trim)

    def set(self, F, dof, trim):
        u, s, v = np.linalg.svd(F, full_matrices=False)
        keep = s ** 2 / dof > max(1e-10, 1e-10 * s.max() ** 2 / dof)
        self.e, self.v = (s ** 2 / dof)[keep], v[keep]
        self.full = self.e
        if trim is not None:
            k = min(len(self.e), trim)
            self.e, self.v = self.e[:k], self.v[:k]

    def add(self, X, f=1.0, trim=None):
        X = np.asarray(X)
        nb, mb = len(X), X.mean(0)
        na = self.n * f
        old = np.sqrt((self.n - 1) * self.e)[:, None] * self.v
        F = np.vstack([f * old, X - mb, np.sqrt(na * nb / (na + nb)) * (mb - self.m)[None]])
        self.m = (na * self.m + nb * mb) / (na + nb)
        self.set(F, na + nb - 1, trim)
        self.n += nb


def similar_to(shape, mean):
    from menpo.transform import AlignmentSimilarity, Translation
    c = Translation(-shape.centre()).apply(shape)
    return AlignmentSimilarity(c, mean).aligned_source()


def aligned(shapes, mean):
    return p20.aligned(shapes) if len(shapes) > 1 else [similar_to(shapes[0], mean)]


def run_ref(case, ctx):
    kind, cut = case['kind'], case['cut']
    N = sum(cut)
    sf, af = case.get('forget') or (None, None)
    R = p20.Ref(case, p20.ims_of(case, N))
    ims = samples(case, N)
    m = build(case, R, ims[:cut[0]])
    ctx.step()
    am = getattr(m, 'warped_templates', None) or [a.mean() for a in getattr(m, 'appearance_models', [])]
    R = p20.Ref(case, p20.ims_of(case, N), None)
    masks = [a.mask.mask if hasattr(a, 'mask') else None for a in am] or [None] * R.n
    R.build(case, kind, R.ref, masks)
    S = [Scale(case, R, j) for j in range(R.n)]
    at = 0
    for i, c in enumerate(cut):
        if i:
            kw = {}
            if sf is not None:
                kw['shape_forgetting_factor'] = sf
            if af is not None and kind in AAMS:
                kw['appearance_forgetting_factor'] = af
            increment(case, R, m, ims[at:at + c], **kw)
            ctx.step()
        for s in S:
            s.feed(at, at + c, sf if i and sf is not None else 1.0, af if i and af is not None else 1.0)
        at += c
        for name in ('shape_models', 'appearance_models', 'warped_templates', 'expert_ensembles', 'deformation_models', 'reference_frames'):
            l = getattr(m, name, None)
            if l is not None:
                ctx.check(len(l) == R.n, 'one-per-scale', '%s has %d entries for %d scales after the batches %s' % (
                    name, len(l), R.n, cut[:i + 1]))
        for j, s in enumerate(S):
            ctx.trace()
            s.compare(ctx, m, j, at, '%s scale %d after the batches %s of %s' % (kind, j, cut[:i + 1], cut))
        ctx.state(kind, cut[:i + 1], case.get('forget'), case.get('sm'), case['scales'], case.get('limits'),
                  np.asarray(m.shape_models[0].model.mean().as_vector()))
    if case.get('forget') and len(cut) > 2 and cut == cut_of(N, cut[0], cut[1]):
        # the same factors for every batch of one increment in batches
        ims = samples(case, N)
        one, m2 = build(case, R, ims[:cut[0]]), build(case, R, samples(case, N)[:cut[0]])
        for i in range(1, len(cut)):
            increment(case, R, one, ims[sum(cut[:i]):sum(cut[:i + 1])], **kw)
        increment(case, R, m2, gen(samples(case, N)[cut[0]:]), batch_size=cut[1], **kw)
        ctx.step(2 * len(cut))
        ctx.trace()
        d = walk.difference(walk.flatten(m2), walk.flatten(one))
        ctx.check(not d, 'batches-forgetting', '%s: increment with batch_size=%d and forgetting factors %s is not adding the others '
                  'of %s one by one with them: %s' % (kind, cut[1], kw, cut, d))


class Scale(object):
    def __init__(self, case, R, j):
        from menpo.model import PCAModel
        self.case, self.R, self.j = case, R, j
        self.kind = case['kind']
        self.ortho = case.get('sm') != 'PDM'
        self.shape = None
        self.app = None
        self.ls, self.la = p20.lim_of(case, 0, j, R.n), p20.lim_of(case, 1, j, R.n)

    def shapes(self, lo, hi):
        """the shapes of a batch as the shape model gets them"""
        R, j = self.R, self.j
        ss = R.data[j][1][lo:hi]
        if R.linear:
            f = R.frames[j]
            T = p20.tps_or_pwa(True)
            if lo:
                ss = aligned(ss, f.landmarks['source'])
            ss = [fx.pc(np.vstack([s.points, T(f.landmarks['source'], s).apply(f.mask.true_indices())])) for s in ss]
        return ss

    def feed(self, lo, hi, sf, af):
        from menpo.model import PCAModel, GMRFModel
        from menpofit.modelinstance import similarity_2d_instance_model
        R, j, kind = self.R, self.j, self.kind
        ss = self.shapes(lo, hi)
        mean = None if self.shape is None else self.mean
        al = aligned(ss, mean)
        ug, t = fam.ring_tree()
        if kind == 'APS':
            g = ug if self.case.get('ref') else None
            if lo == 0:
                self.deform = GMRFModel(al, t, mode='subtraction', dtype=np.float64, sparse=False, incremental=True)
                self.alls = list(al)
            else:
                self.deform.increment(al)
                self.alls += list(al)
            first = g is not None and lo == 0
            if first:
                self.shape = GMRFModel(al, g, mode='concatenation', n_components=None, dtype=np.float64, sparse=False,
                                       incremental=True).principal_components_analysis()
            else:
                al = aligned(al, mean)
        else:
            first = False
        if self.ortho:
            if self.shape is None:
                self.shape = PCAModel(al)
            elif not first:
                self.shape.increment(al, forgetting_factor=sf)
            if self.ls is not None:
                self.shape.trim_components(self.ls)
            self.mean = self.shape.mean()
            sim = similarity(self.mean)
            self.shape.orthonormalize_against_inplace(sim)
        else:
            X = [a.points.ravel() for a in al]
            if self.shape is None:
                self.shape = Acc(X, self.ls)
            else:
                self.shape.add(X, sf, self.ls)
            self.mean = al[0].copy()
            self.mean.points[...] = self.shape.m.reshape(-1, 2)
        if kind in AAMS:
            X = R.app[j][lo:hi]
            if self.app is None:
                self.app = Acc(X, self.la)
            else:
                self.app.add(X, af, self.la)
        if kind == 'CLM':
            from menpo.feature import no_op
            from menpofit.clm import CorrelationFilterExpertEnsemble
            cur = [c.copy() for c in R.data[j][0][lo:hi]]
            if self.app is None:
                self.app = CorrelationFilterExpertEnsemble(cur, ss, patch_shape=tuple(R.patches[j]), context_shape=(15, 15),
                                                           patch_normalisation=no_op)
            else:
                self.app.increment(cur, ss)
        if kind == 'APS':
            from menpo.image import Image
            shape = (6, 1, R.app[j][0].size // (6 * int(np.prod(R.patches[j])))) + tuple(R.patches[j])
            wi = [Image(np.asarray(w).reshape(shape)) for w in R.app[j][lo:hi]]
            if self.app is None:
                self.app = GMRFModel(wi, ug, mode='concatenation', n_components=None, dtype=np.float64, sparse=True, incremental=True)
            else:
                self.app.increment(wi)

    def compare(self, ctx, m, j, n, where):
        from menpo.model import GMRFModel
        pm = m.shape_models[j].model
        ctx.check(pm.n_samples == n, 'samples', '%s: the shape model counts %d of %d samples' % (where, pm.n_samples, n))
        ctx.close(pm.mean().as_vector(), self.mean.as_vector(), 'shape-mean', where + ': mean shape', rtol=1e-6, atol=1e-7)
        if self.ortho:
            E, V = self.shape.eigenvalues, self.shape.components
        else:
            E, V = self.shape.e, self.shape.v
        space(ctx, pm.components, pm.eigenvalues, V, E, 'shape', where)
        if self.kind in AAMS:
            am = m.appearance_models[j]
            ctx.check(am.n_samples == n, 'samples', '%s: the appearance model counts %d of %d samples' % (where, am.n_samples, n))
            ctx.close(p20.vec(am.mean()), self.app.m, 'appearance-mean', where + ': mean appearance', rtol=1e-6, atol=1e-7)
            space(ctx, am.components, am.eigenvalues, self.app.v, self.app.e, 'appearance', where)
            if self.la is None and not self.case.get('forget'):
                mean, comp, e = p20.pca(self.R.app[j][:n])
                ctx.close(p20.vec(am.mean()), mean, 'at-once', where + ': mean appearance of all samples', rtol=1e-6, atol=1e-7)
                space(ctx, am.components, am.eigenvalues, comp, e, 'at-once', where)
        if self.R.atm:
            ctx.close(p20.vec(m.warped_templates[j]), self.R.app[j][0], 'template', where + ': warped template', rtol=1e-7, atol=1e-7)
        if self.kind == 'CLM':
            cur, ss, _ = self.R.data[j]
            for i in (0, len(cur) - 1):
                a = np.asarray(m.expert_ensembles[j].predict_response(cur[i], ss[i]))
                b = np.asarray(self.app.predict_response(cur[i], ss[i]))
                ctx.close(a, b, 'experts', where + ': expert responses', rtol=1e-6, atol=1e-8)
        if self.kind == 'APS':
            t = fam.ring_tree()[1]
            d = GMRFModel(self.alls, t, mode='subtraction', dtype=np.float64, sparse=False)
            for ref, key in ((self.deform, 'deformation'), (d, 'deformation-at-once')):
                A, B = p20.dense(m.deformation_models[j].precision), p20.dense(ref.precision)
                ctx.close(A, B, key, where + ': deformation precision', rtol=1e-5, atol=1e-6 * np.abs(B).max())
                ctx.close(m.deformation_models[j].mean().as_vector(), ref.mean().as_vector(), key, where, rtol=1e-6, atol=1e-6)
            am = m.appearance_models[j]
            A, B = p20.dense(am.precision), p20.dense(self.app.precision)
            ctx.close(p20.vec(am.mean()), p20.vec(self.app.mean()), 'appearance-mean', where, rtol=1e-6, atol=1e-7)
            ctx.close(p20.vec(am.mean()), np.mean(self.R.app[j][:n], 0), 'at-once', where, rtol=1e-6, atol=1e-7)
            ctx.close(A, B, 'appearance', where + ': appearance precision', rtol=1e-4, atol=1e-6 * np.abs(B).max())


def similarity(mean):
    """orthonormal basis of the similarity transforms of a mean shape, as a menpo model"""
    from menpo.model import MeanLinearModel
    return MeanLinearModel(p20.simspace(mean.points), mean.as_vector())


def space(ctx, V, E, V0, E0, what, where):
    if not ctx.check(len(E) == len(E0) == len(V), what + '-count', '%s: %d %s components instead of %d' % (where, len(E), what, len(E0))):
        return
    ctx.close(E, E0, what + '-variance', '%s: %s variances' % (where, what), rtol=1e-5, atol=1e-9 * max(1, E0.max() if len(E0) else 1))
    if len(E):
        p20.span_eq(ctx, V, V0, what + '-space', '%s: %s space' % (where, what), tol=1e-4)
