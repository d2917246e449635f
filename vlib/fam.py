"""Miniature versions of every model / fitter family of menpofit."""
import numpy as np
from vlib import fx

N = 6


def ring_tree():
    from menpo.shape import UndirectedGraph, Tree
    adj = np.zeros((N, N))
    for i in range(N):
        adj[i, (i + 1) % N] = adj[(i + 1) % N, i] = 1
    ug = UndirectedGraph(adj)
    t = np.zeros((N, N))
    for a, b in ((0, 1), (0, 2), (1, 3), (1, 4), (2, 5)):
        t[a, b] = 1
    return ug, Tree(t, 0)


def images(n=5, **kw):
    return fx.make_images(n, **kw)


def test_image(k=7, **kw):
    im = fx.make_image(k, **kw)
    gt = im.landmarks['PTS']
    init = fx.pc(gt.points + np.array([1.0, -0.8]))
    return im, fx.pc(gt.points), init


# ---- AAM -------------------------------------------------------------------
AAM_KINDS = ['HolisticAAM', 'MaskedAAM', 'LinearAAM', 'LinearMaskedAAM', 'PatchAAM']
ATM_KINDS = ['HolisticATM', 'MaskedATM', 'LinearATM', 'LinearMaskedATM', 'PatchATM']
AAM_ALGS = ['AlternatingForwardCompositional', 'AlternatingInverseCompositional',
            'ModifiedAlternatingForwardCompositional', 'ModifiedAlternatingInverseCompositional',
            'ProjectOutForwardCompositional', 'ProjectOutInverseCompositional',
            'SimultaneousForwardCompositional', 'SimultaneousInverseCompositional',
            'WibergForwardCompositional', 'WibergInverseCompositional']
AAM_SD_ALGS = ['AppearanceWeightsNewton', 'AppearanceWeightsGaussNewton', 'MeanTemplateNewton',
               'MeanTemplateGaussNewton', 'ProjectOutNewton', 'ProjectOutGaussNewton']
LK_ALGS = ['ForwardAdditive', 'ForwardCompositional', 'InverseCompositional']
LK_RES = ['SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation']
SDM_ALGS = ['NonParametricNewton', 'NonParametricGaussNewton', 'NonParametricPCRRegression',
            'NonParametricOptimalRegression', 'NonParametricOPPRegression',
            'ParametricShapeNewton', 'ParametricShapeGaussNewton', 'ParametricShapeOptimalRegression',
            'ParametricShapePCRRegression', 'ParametricShapeOPPRegression',
            'ParametricAppearanceProjectOutNewton', 'ParametricAppearanceProjectOutGuassNewton',
            'ParametricAppearanceMeanTemplateNewton', 'ParametricAppearanceMeanTemplateGuassNewton',
            'ParametricAppearanceWeightsNewton', 'ParametricAppearanceWeightsGuassNewton',
            'FullyParametricProjectOutNewton', 'FullyParametricProjectOutGaussNewton',
            'FullyParametricMeanTemplateNewton', 'FullyParametricWeightsNewton',
            'FullyParametricProjectOutOPP']

BASE = dict(group='PTS', scales=(0.5, 1.0), diagonal=30)


def needs_patch(kind):
    return 'Masked' in kind or 'Patch' in kind


def aam(kind, ims=None, **kw):
    import menpofit.aam as A
    k = dict(BASE)
    if needs_patch(kind):
        k['patch_shape'] = (7, 7)
    k.update(kw)
    return getattr(A, kind)(images() if ims is None else ims, **k)


def atm(kind, ims=None, **kw):
    import menpofit.atm as T
    ims = images() if ims is None else ims
    k = dict(BASE)
    if needs_patch(kind):
        k['patch_shape'] = (7, 7)
    k.update(kw)
    return getattr(T, kind)(ims[0], [i.landmarks['PTS'] for i in ims], **k)


def clm(ims=None, **kw):
    import menpofit.clm as C
    k = dict(BASE, patch_shape=(9, 9), context_shape=(17, 17))
    k.update(kw)
    return C.CLM(images() if ims is None else ims, **k)


def unified(ims=None, **kw):
    import menpofit.unified_aam_clm as U
    k = dict(BASE, patch_shape=(9, 9), context_shape=(17, 17), max_shape_components=3,
             max_appearance_components=4)
    k.update(kw)
    return U.UnifiedAAMCLM(images(8) if ims is None else ims, **k)


def aps(ims=None, dg='tree', sg=None, ag='ring', **kw):
    from menpofit.aps import GenerativeAPS
    ug, t = ring_tree()
    k = dict(BASE, patch_shape=(5, 5), n_appearance_components=8,
             appearance_graph=ug if ag == 'ring' else ag,
             deformation_graph=t if dg == 'tree' else dg, shape_graph=ug if sg == 'ring' else sg)
    k.update(kw)
    return GenerativeAPS(images(14) if ims is None else ims, **k)


def tol(cls, kw):
    """the optimiser class, constructed with a tolerance when one is given"""
    from functools import partial
    eps = kw.pop('eps', None)
    return cls if eps is None else partial(cls, eps=eps)


def aam_fitter(m, alg, **kw):
    import menpofit.aam as A
    return A.LucasKanadeAAMFitter(m, lk_algorithm_cls=tol(getattr(A, alg), kw), **kw)


def atm_fitter(m, alg, **kw):
    import menpofit.atm as T
    return T.LucasKanadeATMFitter(m, lk_algorithm_cls=tol(getattr(T, alg), kw), **kw)


def lk_fitter(alg='InverseCompositional', res='SSD', im=None, **kw):
    import menpofit.lk as L
    k = dict(BASE)
    k.update(kw)
    return L.LucasKanadeFitter(fx.make_image(0) if im is None else im, algorithm_cls=tol(getattr(L, alg), k),
                               residual_cls=getattr(L, res), **k)


def regularised(cls, alpha=1.):
    """cls with ridge regularisation where it offers one: the miniature training
    sets have fewer samples than features, so that plain least squares would be
    singular (or interpolate, leaving nothing to learn for later iterations)"""
    import inspect
    from functools import partial
    if isinstance(cls, (list, tuple)):
        return type(cls)(regularised(c, alpha) for c in cls)
    if not callable(cls):
        return cls
    par = inspect.signature(cls.__init__).parameters
    k = {a: alpha for a in ('alpha', 'alpha2') if a in par}
    if 'variance' in par and 'PCR' in getattr(cls, '__name__', ''):
        k['variance'] = 0.9
    return partial(cls, **k) if k else cls


def sdm(alg='NonParametricNewton', ims=None, seed=0, **kw):
    import menpofit.sdm as S
    k = dict(BASE, patch_shape=[(7, 7), (7, 7)], n_perturbations=3, n_iterations=[2, 2])
    k.update(kw)
    np.random.seed(seed)
    return S.SupervisedDescentFitter(images() if ims is None else ims,
                                     sd_algorithm_cls=regularised(getattr(S, alg) if isinstance(alg, str) else alg), **k)


def sd_aam(alg, m=None, ims=None, seed=0, **kw):
    import menpofit.aam as A
    k = dict(group='PTS', n_perturbations=3, n_iterations=[2, 2])
    k.update(kw)
    ims = images() if ims is None else ims
    np.random.seed(seed)
    return A.SupervisedDescentAAMFitter(ims, m if m is not None else aam('HolisticAAM'),
                                        sd_algorithm_cls=regularised(getattr(A, alg)), **k)


def gd_fitter(m, alg, **kw):
    import menpofit.clm as C
    from menpofit.clm.algorithm.gd import ActiveShapeModel, RegularisedLandmarkMeanShift
    return C.GradientDescentCLMFitter(m, gd_algorithm_cls=tol(dict(
        ActiveShapeModel=ActiveShapeModel, RegularisedLandmarkMeanShift=RegularisedLandmarkMeanShift)[alg], kw), **kw)


def aps_fitter(m, alg, **kw):
    from menpofit.aps import GaussNewtonAPSFitter
    from menpofit.aps.algorithm.gn import Inverse, Forward
    return GaussNewtonAPSFitter(m, gn_algorithm_cls=tol(dict(Inverse=Inverse, Forward=Forward)[alg], kw), **kw)


def uni_fitter(m, alg, **kw):
    import menpofit.unified_aam_clm as U
    from menpofit.unified_aam_clm import algorithm as a
    return U.UnifiedAAMCLMFitter(m, algorithm_cls=tol(getattr(a, alg), kw), **kw)


UNI_ALGS = ['ProjectOutRegularisedLandmarkMeanShift', 'AlternatingRegularisedLandmarkMeanShift']
CLM_ALGS = ['ActiveShapeModel', 'RegularisedLandmarkMeanShift']
APS_ALGS = ['Inverse', 'Forward']


def dlib_ert(ims=None, **kw):
    import menpofit.dlib as D
    k = dict(BASE, diagonal=60, n_perturbations=2, n_iterations=[2, 2], n_trees=5, n_tree_levels=2,
             n_pixel_pairs=20, n_split_tests=3)
    k.update(kw)
    np.random.seed(0)
    return D.DlibERT(images() if ims is None else ims, **k)
