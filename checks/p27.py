"""P27 - trained models depend only on their training data and options.

All histories of training (several option / data sets, from the same image
objects), incrementing, truncating, fitting, printing, forgetting all models
and destroying the caller's data are explored.  Every node of the history tree
runs in a process of its own, forked from its parent's state, so that each
history is executed exactly once.  The oracle of a model in a history is the
history of that model alone, executed in a process in which nothing else was
ever trained.
"""
import gc
import os
import pickle
import traceback
import numpy as np
from vlib import fx, fam, walk

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration, by forking processes, of all histories of training, incrementing, truncating, fitting, '
             'printing, dropping models and destroying caller data; every model is compared with its own history run alone')
RULE = ('model family x all histories up to the depth bound over: train with option/data set A, B, C, D, E or F, increment / '
        'truncate / fit / print the newest model, increment the oldest, drop all models, destroy the caller\'s data and '
        'options; a state is the flattened state of all live models; a trace is one model compared with its own history')
ASSUMPTIONS = ['the global random generator is set before each operation',
               'functions, classes, graphs and the reference shape given as options are not changed by the caller (the model keeps them)']
CHUNK = 1
TRAIN = 'ABCDEF'
OPS = ['i', 'i0', 'c', 'f', 's', 'x', 'w']
TRAIN_OPS = list(TRAIN) + OPS


def BOUNDS(tier):
    return dict(depth=3 if tier == 'quick' else 4, option_sets=6, models=3)


KINDS = (['aam:' + k for k in fam.AAM_KINDS] + ['atm:' + k for k in fam.ATM_KINDS] +
         ['clm', 'uni', 'aps', 'lk', 'sdm:NonParametricNewton', 'sdm:ParametricShapeNewton',
          'sdm:ParametricAppearanceMeanTemplateNewton', 'sdaam', 'dlib', 'pdm', 'orthopdm', 'experts'])


def cases(tier):
    for k in KINDS:
        for first in (TRAIN if tier == 'thorough' else 'ABE'):
            c = dict(kind=k, first=first, depth=BOUNDS(tier)['depth'])
            if tier == 'thorough':
                for second in TRAIN_OPS:
                    yield dict(c, second=second)
            else:
                yield c


# ---- the caller ------------------------------------------------------------
class Caller(object):
    """owns images, shapes and option values, as a user would"""
    def __init__(self):
        self.sets, self.opts, self.models = {}, [], []

    def images(self, name, n):
        if name not in self.sets:
            off = dict(A=0, B=3, D=0, F=0, I=20, T=7)[name]
            ims = [fx.make_image(k + off) for k in range(n)]
            if name == 'D':
                for k, im in enumerate(ims):
                    im.pixels[...] = fx.pixels(im.shape, k + 11)
            if name == 'B':
                ims = [fx.make_image(k + off, shape=(47, 52)) for k in range(n)]
            if name == 'F':
                ims = [transposed(im) for im in ims]
            self.sets[name] = ims
        return self.sets[name]

    def own(self, **kw):
        self.opts.append(kw)
        return kw

    def wreck(self):
        for ims in self.sets.values():
            for im in ims:
                im.pixels[...] = 7.5
                im.landmarks['PTS'].points[...] = im.landmarks['PTS'].points[::-1] * 0.5 + 90
            del ims[:]
        for kw in self.opts:
            for v in kw.values():
                spoil(v)
        self.sets, self.opts = {}, []


def transposed(im):
    from menpo.image import Image
    out = Image(np.ascontiguousarray(im.pixels.transpose(0, 2, 1)))
    pts = im.landmarks['PTS'].copy()
    pts.points = np.ascontiguousarray(pts.points[:, ::-1])
    out.landmarks['PTS'] = pts
    return out


def spoil(v):
    if isinstance(v, np.ndarray):
        v[...] = 5
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        del v[1:]


def options(c, kind, name):
    """option set: A, D, F rely on the defaults; B, C give everything as lists; E differs
    from A in secondary options only.  D has other pixels and F has the axes exchanged (so the
    sizes, the means' norms, the numbers of points and of components are those of A)"""
    from menpo.feature import no_op
    from p19 import feat
    k = kind.split(':')[0]
    if k in ('pdm', 'orthopdm'):
        return {} if name in 'ADF' else c.own(max_n_components=2)
    if k == 'experts':
        return {} if name in 'ADF' else dict(response_covariance=6) if name == 'E' else dict(patch_shape=(7, 9), cosine_mask=False)
    ref = fx.pc(fx.base_points(6) * 1.1 + 2)
    if name in 'ADEF':
        kw = dict(scales=(0.5, 1.0), diagonal=30)
        if k == 'dlib':
            kw['diagonal'] = 60
        if name == 'E':
            kw.update(secondary(c, kind, k))
        return kw
    kw = dict(scales=[0.6, 1.0] if name == 'B' else [0.5, 1.0], diagonal=[None, 33][name == 'B'])
    if k == 'lk':
        kw['diagonal'] = 33 if name == 'B' else 26
    elif k != 'atm' and not (k == 'dlib' and name == 'B'):
        kw['reference_shape'] = ref
    elif k == 'atm':
        kw['reference_shape'] = ref
    if k not in ('dlib', 'sdaam', 'lk'):
        kw['holistic_features'] = [no_op, feat('sq')] if name == 'B' else [feat('sq'), feat('sq')]
    if k in ('aam', 'atm', 'clm', 'uni'):
        kw['max_shape_components'] = [2, 3] if name == 'B' else [3, 2]
    if k in ('aam', 'uni'):
        kw['max_appearance_components'] = [2, 3] if name == 'B' else [3, 2]
    if k in ('clm', 'uni'):
        kw['patch_shape'] = [(7, 7), (9, 9)]
        kw['context_shape'] = [(15, 15), (17, 17)]
    if k in ('aam', 'atm') and fam.needs_patch(kind):
        kw['patch_shape'] = [(5, 7), (7, 5)] if name == 'B' else [(7, 7), (5, 5)]
    if k == 'sdm':
        kw['patch_shape'] = [(5, 5), (7, 7)]
        kw['n_iterations'] = [1, 2]
    if k == 'dlib':
        kw['n_iterations'] = [1, 2]
    return c.own(**kw)


def squared(patches):
    return patches ** 2


def secondary(c, kind, k):
    from functools import partial
    from menpofit.clm import CorrelationFilterExpertEnsemble
    from menpofit.modelinstance import OrthoPDM
    from menpofit.transform import DifferentiableThinPlateSplines, DifferentiableAlignmentSimilarity
    if k in ('aam', 'atm'):
        kw = dict(max_shape_components=2)
        if 'Holistic' in kind:
            kw.update(transform=DifferentiableThinPlateSplines, shape_model_cls=partial(OrthoPDM, max_n_components=2))
        if kind == 'aam:PatchAAM':
            kw['patch_normalisation'] = squared
        return kw
    if k == 'clm':
        return dict(expert_ensemble_cls=partial(CorrelationFilterExpertEnsemble, response_covariance=6), cosine_mask=False,
                    shape_model_cls=OrthoPDM)
    if k == 'uni':
        return dict(response_covariance=6, sigma=1, boundary=5, cosine_mask=False)
    if k == 'aps':
        return dict(use_procrustes=False, precision_dtype=np.float64, dg=None, sg=None)
    if k == 'lk':
        return dict(transform=DifferentiableAlignmentSimilarity, res='ECC')
    if k == 'sdm':
        return dict(patch_features=squared, n_perturbations=2)
    if k == 'dlib':
        return dict(n_trees=3, n_split_tests=5, feature_padding=0.2, n_perturbations=1)
    return {}


# ---- operations ------------------------------------------------------------
def train(c, kind, name):
    k = kind.split(':')[0]
    n = dict(uni=8, aps=12, sdaam=4, sdm=4, lk=1).get(k, 5)
    ims = c.images('A' if name in 'CE' else name, n)[:n]
    kw = options(c, kind, name)
    if k == 'aam':
        return fam.aam(kind.split(':')[1], ims, **kw)
    if k == 'atm':
        return fam.atm(kind.split(':')[1], ims, **kw)
    if k in ('clm', 'uni', 'aps'):
        if k == 'aps':
            kw['can_be_incremented'] = True
            kw['patch_shape'] = (5, 5)
            return fam.aps(ims, **kw)
        return dict(clm=fam.clm, uni=fam.unified)[k](ims, **kw)
    if k == 'lk':
        return fam.lk_fitter(im=ims[0], **kw)
    if k == 'sdm':
        return fam.sdm(kind.split(':')[1], ims, **kw)
    if k == 'sdaam':
        m = fam.aam('HolisticAAM', ims, **kw)
        return fam.sd_aam('MeanTemplateNewton' if name == 'E' else 'ProjectOutNewton', m, ims)
    if k == 'dlib':
        return fam.dlib_ert(ims, **kw)
    if k in ('pdm', 'orthopdm'):
        from menpofit.modelinstance import PDM, OrthoPDM
        return (PDM if k == 'pdm' else OrthoPDM)([i.landmarks['PTS'] for i in ims], **kw)
    from menpofit.clm import CorrelationFilterExpertEnsemble
    return CorrelationFilterExpertEnsemble(ims, [i.landmarks['PTS'] for i in ims],
                                           **dict(dict(patch_shape=(9, 9), context_shape=(17, 17)), **kw))


def increment(c, kind, m):
    k = kind.split(':')[0]
    ims = c.images('I', 3)
    pts = [i.landmarks['PTS'] for i in ims]
    if k in ('aam', 'clm', 'aps', 'sdm', 'sdaam'):
        try:
            m.increment(ims, group='PTS')
        except NotImplementedError:      # supervised descent without incremental regression
            return False
    elif k == 'atm':
        m.increment(ims[0], pts, group='PTS')
    elif k in ('pdm', 'orthopdm'):
        m.increment(pts)
    elif k == 'experts':
        m.increment(ims, pts)
    else:
        return False


def truncate(c, kind, m):
    k = kind.split(':')[0]
    if k in ('aam', 'atm', 'clm', 'uni'):
        m.shape_models[-1].n_active_components = 1
        if k in ('aam', 'uni'):
            m.appearance_models[0].n_active_components = 1
    elif k == 'pdm' or k == 'orthopdm':
        m.n_active_components = 1
    else:
        return False


def fit(c, kind, m):
    from menpofit.clm.algorithm.gd import RegularisedLandmarkMeanShift
    k = kind.split(':')[0]
    im = c.images('T', 1)[0]
    init = fx.pc(im.landmarks['PTS'].points + [1.0, -0.8])
    if k == 'aam':
        f = fam.aam_fitter(m, 'AlternatingInverseCompositional')
    elif k == 'atm':
        f = fam.atm_fitter(m, 'InverseCompositional')
    elif k == 'clm':
        f = fam.gd_fitter(m, 'RegularisedLandmarkMeanShift')
    elif k == 'uni':
        f = fam.uni_fitter(m, fam.UNI_ALGS[0])
    elif k == 'aps':
        f = fam.aps_fitter(m, 'Inverse')
    elif k in ('pdm', 'orthopdm'):
        m.set_target(init)
        return [m.target.points, m.as_vector(), m.d_dp(None)]
    elif k == 'experts':
        return [m.predict_response(im, init)]
    else:
        f = m
    if k in ('sdm', 'sdaam', 'dlib'):
        r = f.fit_from_shape(im, init)
    else:
        r = f.fit_from_shape(im, init, max_iters=2)
    return [s.points for s in r.shapes] + [getattr(r, 'costs', None) if k in ('aam', 'atm', 'lk') else None]


def apply(c, kind, op):
    """executes op; the result to compare, or None; False when not applicable"""
    np.random.seed(4)
    if op in TRAIN:
        c.models.append([train(c, kind, op), (op,)])
        return None
    if op == 'w':
        c.wreck()
        return None
    if op == 'x':
        c.models[:] = []
        gc.collect()
        return None
    ent = c.models[0] if op == 'i0' else c.models[-1]
    if op == 's':
        str(ent[0])
        return None
    r = dict(i=increment, i0=increment, c=truncate, f=fit)[op](c, kind, ent[0])
    if r is not False:
        ent[1] += (op[0],)
    return r


def enabled(c, op, own):
    if op in TRAIN:
        return True
    if own:
        return op in ('i', 'c', 'f')
    if op in ('w',):
        return bool(c.sets)
    if op == 'i0':
        return len(c.models) > 1
    return bool(c.models)


# ---- exploration -----------------------------------------------------------
def forked(fn):
    """runs fn() in a forked child; its (pickled) result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-5)))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, protocol=4)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'child process died')


def differs(a, b):
    """difference of what two states have in common (a cache may be filled in one
    and not yet in the other)"""
    ks = [k for k in a if k in b and not any(isinstance(v, str) and v[:8] == 'same as ' for v in (a[k], b[k]))]
    return walk.difference(dict((k, a[k]) for k in ks), dict((k, b[k]) for k in ks))


def small(s):
    """big arrays are represented by moments and a grid of their entries"""
    for k, v in s.items():
        if isinstance(v, np.ndarray) and v.size > 2000 and v.dtype.kind in 'fc':
            x = v.ravel()
            n = x.size // 61 * 61
            s[k] = np.concatenate([x[:n].reshape(61, -1).mean(1), x[:n].reshape(-1, 61).mean(0), x[::x.size // 300],
                                   [np.abs(x).mean()], np.array(v.shape, dtype=float)])
    return s


def snapshot(c):
    return [(own, small(walk.flatten(m))) for m, own in c.models]


def explore(c, kind, hist, depth, alphabet, own, second=None):
    """list of (history, result of the last op, [(own history, state)])"""
    out = []
    for op in alphabet:
        if not enabled(c, op, own):
            continue

        def child(op=op):
            r = apply(c, kind, op)
            if r is False:
                return []
            h = hist + (op,)
            res = [(h, r, c.models[-1 if op != 'i0' else 0][1] if c.models else None, snapshot(c))]
            if depth > 1:
                res += explore(c, kind, h, depth - 1, ['i', 'c', 'f'] if own else
                               [second] if second else TRAIN_OPS, own)
            return res
        st, res = forked(child)
        if st == 'ok':
            out += res
        else:
            out.append((hist + (op,), 'ERROR ' + res, None, []))
    return out


def run(case, ctx):
    # imported before forking; nothing is trained in this process
    import menpofit.aam, menpofit.aps, menpofit.atm, menpofit.clm, menpofit.dlib, menpofit.lk, menpofit.sdm
    import menpofit.unified_aam_clm, menpofit.modelinstance
    gc.collect()
    gc.freeze()
    kind = case['kind']
    depth = case.get('depth', 3)
    ref = {}
    refs = explore(Caller(), kind, (), depth, case['first'], True)
    if depth > 1:
        refs += explore(Caller(), kind, (), depth - 1, [t for t in TRAIN if t != case['first']], True)
    for h, r, own, snap in refs:
        ctx.step()
        if isinstance(r, str):
            ctx.bad('exception', '%s %s: %s' % (kind, ' '.join(h), r))
            return
        ref[h] = (r, snap[0][1])
    nodes = explore(Caller(), kind, (), depth, case['first'], False, case.get('second'))
    ctx.notes.append((kind, len(nodes), len(ref)))
    for h, r, own, snap in nodes:
        ctx.step()
        tag = '%s: history %s' % (kind, ' '.join(h))
        if isinstance(r, str):
            ctx.bad('exception', '%s: %s' % (tag, r))
            continue
        if h[-1] in ('i', 'i0', 'c', 'f') and r is not None:
            ctx.trace()
            d = walk.difference(walk.flatten(r), walk.flatten(ref[own][0]))
            if d:
                ctx.bad('result', '%s: the result differs from that of %s alone: %s' % (tag, ' '.join(own), d))
        for i, (o, s) in enumerate(snap):
            ctx.trace()
            ctx.state(kind, h, i, sorted(k for k in s))
            d = differs(s, ref[o][1])
            if d:
                ctx.bad('model', '%s: model %d differs from one made by %s alone: %s' % (tag, i, ' '.join(o), d))
