"""Named, miniature instances of every fitting method of the library."""
from functools import lru_cache

from vlib import fx, fam

LK_TRANSFORMS = ['DifferentiableAlignmentAffine', 'DifferentiableAlignmentSimilarity']


def iterative(tier='quick'):
    """names of all fitters whose number of iterations is chosen by the caller"""
    out = []
    for kind in fam.AAM_KINDS:
        out += ['aam:%s:%s' % (kind, a) for a in fam.AAM_ALGS]
    for kind in fam.ATM_KINDS:
        out += ['atm:%s:%s' % (kind, a) for a in ('ForwardCompositional', 'InverseCompositional')]
    for t in LK_TRANSFORMS:
        for r in fam.LK_RES:
            out += ['lk:%s:%s:%s' % (t, a, r) for a in fam.LK_ALGS]
    out += ['clm:%s' % a for a in fam.CLM_ALGS]
    out += ['uni:%s' % a for a in fam.UNI_ALGS]
    for dg in ('tree', 'none'):
        out += ['aps:%s:%s' % (dg, a) for a in fam.APS_ALGS]
    return out


def cascaded(tier='quick'):
    return ['sdm:%s' % a for a in fam.SDM_ALGS] + ['sdaam:%s' % a for a in fam.AAM_SD_ALGS]


def options(name):
    """call-time options that change the optimiser"""
    k = name.split(':')[0]
    if k in ('aam', 'atm', 'clm'):
        return [dict(), dict(map_inference=True)]
    if k == 'uni':
        return [dict(), dict(prior=True), dict(a=0.2)]
    return [dict()]


def has_costs(name):
    return name.split(':')[0] in ('aam', 'atm', 'lk', 'uni', 'aps')


@lru_cache(maxsize=6)
def shared_model(kind, **kw):
    return model(kind, **kw)


def model(kind, **kw):
    """a newly trained model"""
    if kind in fam.AAM_KINDS:
        return fam.aam(kind, **kw)
    if kind in fam.ATM_KINDS:
        return fam.atm(kind, **kw)
    if kind == 'clm':
        return fam.clm(**kw)
    if kind == 'uni':
        return fam.unified(**kw)
    if kind == 'aps-tree':
        return fam.aps(**kw)
    return fam.aps(dg=None, **kw)


def model_kind(name):
    k = name.split(':')
    if k[0] in ('aam', 'atm'):
        return k[1]
    if k[0] == 'aps':
        return 'aps-' + k[1]
    if k[0] == 'sdaam':
        return 'HolisticAAM'
    return k[0] if k[0] in ('clm', 'uni') else None


def fitter(name, m=None, **kw):
    """a new fitter; m the model to build it from (newly trained if None)"""
    import menpofit.transform as T
    k = name.split(':')
    if m is None and model_kind(name) is not None:
        m = model(model_kind(name))
    if k[0] == 'aam':
        return fam.aam_fitter(m, k[2], **dict(dict(n_shape=3, n_appearance=2), **kw))
    if k[0] == 'atm':
        return fam.atm_fitter(m, k[2], **dict(dict(n_shape=3), **kw))
    if k[0] == 'lk':
        return fam.lk_fitter(k[2], k[3], transform=getattr(T, k[1], None) or getattr(
            __import__('menpofit.transform.homogeneous', fromlist=['x']), k[1]), **kw)
    if k[0] == 'clm':
        return fam.gd_fitter(m, k[1], **dict(dict(n_shape=3), **kw))
    if k[0] == 'uni':
        return fam.uni_fitter(m, k[1], **kw)
    if k[0] == 'aps':
        return fam.aps_fitter(m, k[2], **dict(dict(n_shape=3), **kw))
    if k[0] == 'sdm':
        return fam.sdm(k[1], **kw)
    return fam.sd_aam(k[1], m=m, **kw)


class Run(object):
    """what one multi-scale fit reported, as plain numbers, split per scale"""

    def __init__(self, r):
        import numpy as np
        self.r = r
        self.n = [int(i) for i in r.n_iters_per_scale]
        self.param = hasattr(r, 'reconstructed_initial_shapes')
        e = 1 if self.param else 0
        sh = [np.array(s.points) for s in r.shapes]
        self.all = sh
        self.init = sh[0]
        self.extra = len(sh) - 1 - sum(self.n) - e * len(self.n)
        self.shapes, self.costs = [], None
        self.final = np.array(r.final_shape.points)
        self.par = {}
        c = r.costs
        if c is not None:
            self.costs = []
            self.n_costs = len(c)
        pars = {}
        for a in ('shape_parameters', 'homogeneous_parameters', 'appearance_parameters'):
            v = getattr(r, a, None)
            if v is not None:
                pars[a] = [np.array(x, dtype=float) for x in v]
                self.par[a] = []
        i = 1
        for n in self.n:
            j = i + n + e
            self.shapes.append(sh[i:j])
            if c is not None:
                self.costs.append([float(x) for x in c[i - 1:j - 1]])
            for a in pars:
                self.par[a].append(pars[a][i - 1:j - 1])
            i = j
        self.n_par = {a: len(v) for a, v in pars.items()}
        self.est = sum(self.n) + e * len(self.n)

    def numbers(self):
        """everything, for comparisons of whole runs"""
        return dict(n=self.n, shapes=self.all, final=self.final, par=self.par, costs=self.costs)


def same(a, b, tol=1e-7):
    """compare nested numbers; returns '' or the first difference"""
    import numpy as np
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            return 'keys %s != %s' % (sorted(a), sorted(b))
        for k in a:
            d = same(a[k], b[k], tol)
            if d:
                return '%s: %s' % (k, d)
        return ''
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return 'length %s != %s' % (len(a), len(b) if isinstance(b, (list, tuple)) else b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol)
            if d:
                return '[%d] %s' % (i, d)
        return ''
    if a is None or b is None:
        return '' if a is b else '%r != %r' % (a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return 'shape %s != %s' % (x.shape, y.shape)
    if x.dtype.kind in 'OUSb':
        return '' if np.array_equal(x, y) else '%r != %r' % (a, b)
    if not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
        return 'differs by %.3g' % np.max(np.abs(x - y))
    return ''
