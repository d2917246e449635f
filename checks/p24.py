"""P24 - textual summaries state what was really trained and configured.

A summary is an observation of a state: every model, fitter, shape model and
ensemble of a bounded space of configurations (distinct options for every scale)
is built, changed (components of a fitter, increments), printed after every
operation, and every fact the text states is compared with that state.
"""
import itertools
import re
import numpy as np
from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of bounded configurations and short operation sequences of every model and fitter; the summary printed '
             'in every state is parsed and compared fact by fact with that state')
RULE = ('model and fitter classes x scale tuples x {distinct options per scale} x {diagonal, reference shape} x operations '
        '(construction, increment, choice of active components); a transition is one printed summary; a state is a distinct text')
ASSUMPTIONS = ['a summary lists the scales in order, one block per scale, with the labels of the documentation',
               'floating point values are printed rounded']
CHUNK = 2


def BOUNDS(tier):
    return dict(scales=3, operations=2)


SC = [[1.0], [0.5, 1.0], [0.5, 0.75, 1.0]]
KINDS = fam.AAM_KINDS + fam.ATM_KINDS + ['CLM', 'Unified', 'APS']
REFS = ['diag', 'none', 'given', 'given+diag']


def cases(tier):
    out = []
    for kind in KINDS:
        for s in SC + ([[1.0, 0.5], [0.75, 0.5, 1.0], [2.0]] if tier == 'thorough' else []):
            for ref in REFS:
                if tier != 'thorough' and ref in ('none', 'given') and len(s) == 3:
                    continue
                out.append(dict(m='model', kind=kind, scales=s, ref=ref))
            out.append(dict(m='model', kind=kind, scales=s, ref='diag', inc=1))
    for kind in fam.AAM_KINDS:
        for a in fam.AAM_ALGS:
            out.append(dict(m='fitter', kind=kind, alg=a, scales=SC[1]))
        out.append(dict(m='fitter', kind=kind, alg=fam.AAM_ALGS[0], scales=SC[2]))
    for kind in fam.ATM_KINDS:
        for a in ('ForwardCompositional', 'InverseCompositional'):
            out.append(dict(m='fitter', kind=kind, alg=a, scales=SC[1]))
        out.append(dict(m='fitter', kind=kind, alg=a, scales=SC[2]))
    for kind, algs in (('CLM', fam.CLM_ALGS), ('Unified', fam.UNI_ALGS), ('APS', fam.APS_ALGS)):
        for a in algs:
            for s in SC:
                out.append(dict(m='fitter', kind=kind, alg=a, scales=s))
    for a in fam.LK_ALGS:
        for r in fam.LK_RES:
            for s in SC:
                out.append(dict(m='lk', alg=a, res=r, scales=s, tr=0))
        out.append(dict(m='lk', alg=a, res='SSD', scales=SC[1], tr=1))
        for diag in (None, 24):
            out.append(dict(m='lk', alg=a, res='SSD', scales=SC[1], tr=0, diag=diag))
    for a in fam.SDM_ALGS:
        out.append(dict(m='sdm', alg=a, scales=SC[1]))
    for cls in ('SDM', 'RegularizedSDM'):
        for s in SC:
            for ref in REFS:
                out.append(dict(m='sdm', cls=cls, scales=s, ref=ref))
            out.append(dict(m='sdm', cls=cls, scales=s, boxes=1))
            out.append(dict(m='sdm', cls=cls, scales=s, func=1))
            out.append(dict(m='sdm', cls=cls, scales=s, total=1))
    for a in fam.AAM_SD_ALGS:
        for s in SC:
            out.append(dict(m='sdaam', alg=a, scales=s))
        out.append(dict(m='sdaam', alg=a, scales=SC[1], func=1))
    for s in SC:
        for ref in REFS:
            out.append(dict(m='dlib', scales=s, ref=ref))
        out.append(dict(m='dlib', scales=s, func=1))
        out.append(dict(m='dlib', scales=s, total=1))
    out.append(dict(m='pdm'))
    for n in (1, 2, 3):
        out.append(dict(m='ensemble', n=n))
    return out


# ------------------------------------------------------------------ features

def f_one(image):
    return image


def f_two(image):
    return image


def f_three(image):
    return image


def n_one(p):
    return p


def n_two(p):
    return p


def n_three(p):
    return p


FS = [f_one, f_two, f_three]
NS = [n_one, n_two, n_three]


def my_perturb(shape, bb, **kw):
    from menpofit.fitter import noisy_shape_from_bounding_box
    return noisy_shape_from_bounding_box(shape, bb, **kw)


# ------------------------------------------------------------------- parsing

def blocks(text):
    """(lines outside of scale blocks before each group, [(scale, lines)])"""
    head, out, cur = [], [], None
    for l in text.splitlines():
        m = re.match(r'^\s*-\s*Scale\s+(\S+)\s*$', l)
        if m:
            cur = []
            out.append((m.group(1), cur))
        elif cur is None:
            head.append(l)
        else:
            cur.append(l)
    return head, out


def norm(s):
    return re.sub('[^a-z0-9]', '', str(s).lower())


class Text(object):
    def __init__(self, ctx, text, what):
        self.ctx, self.text, self.what = ctx, text, what
        self.head, self.blocks = blocks(text)
        ctx.state((what, text))
        ctx.step()
        ctx.trace()

    def fact(self, lines, label, value, where):
        label = label.lower()
        have = [l for l in lines if label in l.lower()]
        if not have:
            self.ctx.bad('missing', '%s %s: nothing is said about "%s"' % (self.what, where, label))
            return
        v = re.escape(str(value))
        pat = re.compile(r'(?<![\w.\-])%s(?![\w]|\.\d)' % v)
        rest = [re.sub(re.escape(label), ' ', l, flags=re.I) for l in have]
        self.ctx.check(any(pat.search(l) for l in rest), 'wrong', '%s %s: "%s" is stated as "%s" but is %s' % (
            self.what, where, label, have[0].strip(), value))

    def title(self, *words):
        t = norm(self.text)
        for w in words:
            self.ctx.check(norm(w) in t, 'title', '%s: %r is not named in %r' % (self.what, w, self.text[:200]))

    def not_title(self, *words):
        t = norm(self.text)
        for w in words:
            self.ctx.check(norm(w) not in t, 'title', '%s: %r is named in %r' % (self.what, w, self.text[-400:]))

    def header(self, label, value):
        self.fact(self.text.splitlines(), label, value, '')

    def number(self, label, value, digits):
        """a line with the label states the value, rounded"""
        for l in self.text.splitlines():
            if label in l:
                xs = [float(x) for x in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?', l.split(label)[1])]
                if xs:
                    self.ctx.check(any(abs(x - value) <= digits for x in xs), 'wrong', '%s: "%s" but it is %.6g' % (
                        self.what, l.strip(), value))
                    return
        self.ctx.bad('missing', '%s: no "%s"' % (self.what, label))

    def scales(self, expected, times=1):
        """expected: per scale the list of (label, value); times groups of blocks"""
        got = [s for s, _ in self.blocks]
        n = sum(len(e) for e in expected)
        if not self.ctx.check(len(got) == n, 'scales', '%s: describes the scales %s' % (self.what, got)):
            return
        i = 0
        for group in expected:
            for k, (s, facts) in enumerate(group):
                g, lines = self.blocks[i]
                self.ctx.check(float(g) == float(s), 'scales', '%s: block %d is about scale %s instead of %s' % (self.what, k, g, s))
                for label, value in facts:
                    self.fact(lines, label, value, 'scale %s' % s)
                i += 1


def diag_of(shape):
    r = shape.points.max(0) - shape.points.min(0)
    return float(np.sqrt((r ** 2).sum()))


# --------------------------------------------------------------------- models

PATCH = [(5, 7), (7, 5), (9, 7)]
CLMP = [(9, 7), (7, 9), (9, 9)]
CTX = [(17, 19), (15, 17), (17, 15)]


def refs(case, ims):
    ref = case.get('ref', 'diag')
    d = 27 if 'diag' in ref else None
    r = None
    if 'given' in ref:
        r = ims[1].landmarks['PTS'].copy()
        r.points[...] = (r.points - r.points.mean(0)) * 1.2 + 30
    return r, d


def make(case, ims=None):
    kind, s = case['kind'], case['scales']
    n = len(s)
    ims = fam.images(14 if kind == 'APS' else 8 if kind == 'Unified' else 6) if ims is None else ims
    r, d = refs(case, ims)
    k = dict(scales=s, reference_shape=r, diagonal=d, holistic_features=FS[:n], max_shape_components=[1, 3, 2][:n])
    if kind in fam.AAM_KINDS:
        k['max_appearance_components'] = [2, 1, 3][:n]
        if fam.needs_patch(kind):
            k['patch_shape'] = PATCH[:n]
        return fam.aam(kind, ims, **k)
    if kind in fam.ATM_KINDS:
        if fam.needs_patch(kind):
            k['patch_shape'] = PATCH[:n]
        return fam.atm(kind, ims, **k)
    if kind in ('CLM', 'Unified'):
        k['patch_shape'] = CLMP[:n]
        k['context_shape'] = CTX[:n]
        k['cosine_mask'] = False if n == 2 else True
        if kind == 'CLM':
            return fam.clm(ims, **k)
        k['max_appearance_components'] = [2, 1, 3][:n]
        return fam.unified(ims, **k)
    del k['max_shape_components']
    k['max_shape_components'] = [1, 3, 2][:n]
    k['patch_shape'] = PATCH[:n]
    k['n_appearance_components'] = [3, 4, 5][:n]
    return fam.aps(ims, **k)


def facts(case, m):
    """what the summary of a model has to say per scale, from the trained state"""
    kind = case['kind']
    out = []
    for k, s in enumerate(case['scales']):
        f = [('feature', FS[k].__name__)]
        sm = m.shape_models[k]
        f.append(('shape model class', type(sm).__name__))
        f.append(('shape components', len(np.atleast_2d(sm.model._components))))
        f.append(('similarity', 4 if hasattr(sm, 'global_transform') else 0))
        if kind in fam.AAM_KINDS or kind == 'Unified':
            am = m.appearance_models[k]
            f.append(('appearance components', len(am._components)))
            f.append(('appearance model class', type(am).__name__))
        if kind in fam.ATM_KINDS:
            t = m.warped_templates[k]
            f.append(('template shape', tuple(getattr(t, 'pixels', t).shape[1:]) if not kind.startswith('Patch') else t.shape))
        if kind == 'APS' or fam.needs_patch(kind):
            f.append(('patch shape', PATCH[k]))
        if kind in ('CLM', 'Unified'):
            f.append(('patch shape', '%d x %d' % CLMP[k]))
            f.append(('context shape', '%d x %d' % CTX[k]))
            f.append(('experts', fam.N))
            f.append(('cosine mask', len(case['scales']) != 2))
        if kind == 'APS':
            f.append(('svd components', [3, 4, 5][k]))
            nf = PATCH[k][0] * PATCH[k][1]
            f.append(('features per point', nf))
            f.append(('in total', nf * fam.N))
        out.append((s, f))
    return out


TITLES = dict(HolisticAAM='Holistic Active Appearance Model', MaskedAAM='Masked Active Appearance Model',
              LinearAAM='Linear Active Appearance Model', LinearMaskedAAM='Linear Masked Active Appearance Model',
              PatchAAM='Patch-based Active Appearance Model', CLM='Constrained Local Model',
              HolisticATM='Holistic Active Template Model', MaskedATM='Masked Active Template Model',
              LinearATM='Linear Active Template Model', LinearMaskedATM='Linear Masked Active Template Model',
              PatchATM='Patch-based Active Template Model', Unified='Unified', APS='Active Pictorial Structure')


def check_model(ctx, case, m, text=None, extra=None):
    t = Text(ctx, str(m) if text is None else text, case['kind'])
    t.title(*TITLES[case['kind']].split())
    t.header('diagonal', '%.2f' % diag_of(m.reference_shape))
    if 'diag' in case.get('ref', 'diag'):
        t.header('diagonal', '27.00')
    groups = [facts(case, m)]
    if extra:
        groups.append(extra)
    t.scales(groups)
    if hasattr(m, 'transform') and m.transform is not None and not case['kind'].startswith('Patch'):
        t.header('warped with', m.transform.__name__)
    return t


def run_model(case, ctx):
    m = make(case)
    check_model(ctx, case, m)
    if case.get('inc') and hasattr(m, 'increment'):
        more = [fx.make_image(k) for k in range(20, 34 if case['kind'] == 'APS' else 26)]
        if case['kind'] in fam.ATM_KINDS:
            m.increment(more[0], [i.landmarks['PTS'] for i in more], group='PTS')
        elif case['kind'] == 'APS':
            return
        else:
            m.increment(more, group='PTS')
        check_model(ctx, case, m)


# -------------------------------------------------------------------- fitters

def run_fitter(case, ctx):
    kind, s = case['kind'], case['scales']
    n = len(s)
    m = make(case)
    ns, na = [1, 2, 1][:n], [1, 1, 2][:n]
    for first in (True, False):
        if not first:                       # a second fitter of the same model
            ns, na = ([1, 3, 2][:n], [2, 1, 1][:n])
        if kind in fam.AAM_KINDS:
            f = fam.aam_fitter(m, case['alg'], n_shape=ns, n_appearance=na)
        elif kind in fam.ATM_KINDS:
            f = fam.atm_fitter(m, case['alg'], n_shape=ns)
        elif kind == 'CLM':
            f = fam.gd_fitter(m, case['alg'], n_shape=ns)
        elif kind == 'APS':
            f = fam.aps_fitter(m, case['alg'], n_shape=ns, weight=[200.0, 30.0, 7.5][:n])
        else:
            f = fam.uni_fitter(m, case['alg'], n_shape=ns, n_appearance=na)
        extra = []
        for k in range(n):
            # a model whose components were trimmed holds the trimmed number
            e = [('active shape components', ns[k]),
                 ('similarity transform components', 4 if hasattr(m.shape_models[k], 'global_transform') else 0)]
            if kind in fam.AAM_KINDS or kind == 'Unified':
                e.append(('active appearance components', na[k]))
            if kind == 'APS':
                e.append(('weight', '%.1f' % [200.0, 30.0, 7.5][k]))
            extra.append((s[k], e))
        t = check_model(ctx, case, m, text=str(f), extra=extra)
        if kind == 'APS':
            t.title(case['alg'] + ' ', 'Gauss-Newton')
        else:
            tail = Text(ctx, str(f)[len(str(m)):], case['alg'])
            tail.title(case['alg'])
            if kind in fam.AAM_KINDS and case['alg'].startswith('Alternating'):
                tail.not_title('Modified')


RESID = dict(SSD='Sum of Squared Differences', FourierSSD='Fourier Sum of Squared Differences', ECC='Enhanced Correlation Coefficient',
             GradientImages='Gradient Image', GradientCorrelation='Gradient Correlation')


def run_lk(case, ctx):
    import menpofit.transform as T
    n = len(case['scales'])
    cls = [T.DifferentiableAlignmentAffine, T.DifferentiableAlignmentSimilarity][case['tr']]
    f = fam.lk_fitter(case['alg'], case['res'], transform=cls, scales=case['scales'], holistic_features=FS[:n],
                      diagonal=case.get('diag', 30))
    t = Text(ctx, str(f), 'LucasKanadeFitter')
    t.title('Lucas-Kanade', case['alg'], RESID[case['res']])
    if case['res'] == 'SSD':
        t.not_title('Fourier')
    t.header('warped with', cls.__name__)
    d = case.get('diag', 30)
    t.header('diagonal', '%.2f' % (d or diag_of(f.reference_shape)))
    # (the size of the rescaled template is a whole number of pixels)
    ctx.check(not d or abs(diag_of(f.reference_shape) - d) < 0.05 * d, 'wrong', 'LucasKanadeFitter: the diagonal is %.2f instead of %s' % (
        diag_of(f.reference_shape), d))
    t.scales([[(s, [('feature', FS[k].__name__), ('template shape', tuple(f.templates[k].pixels.shape[1:]))])
               for k, s in enumerate(case['scales'])]])


def regressor(alg):
    import menpofit.math.regression as R
    return alg


def run_sdm(case, ctx):
    import menpofit.sdm as S
    s = case['scales']
    n = len(s)
    ims = fam.images()
    if case.get('boxes'):
        for im in ims:
            im.landmarks['box_0'] = im.landmarks['PTS'].bounding_box()
    r, d = refs(case, ims)
    its = [1, 3, 2][:n]
    k = dict(group='PTS', scales=s, reference_shape=r, diagonal=d, holistic_features=FS[:n], patch_features=NS[:n],
             patch_shape=PATCH[:n], n_iterations=4 if case.get('total') else its, n_perturbations=3)
    if case.get('total'):
        its = None
    if case.get('func'):
        k['perturb_from_gt_bounding_box'] = my_perturb
    if case.get('boxes'):
        k['bounding_box_group_glob'] = 'box_*'
    np.random.seed(0)
    if 'cls' in case:
        f = getattr(S, case['cls'])(ims, **k)
        alg, cls = 'NonParametricNewton', None
    else:
        alg = case['alg']
        f = fam.sdm(alg, ims, **k)
    t = Text(ctx, str(f), 'SupervisedDescentFitter %s' % alg)
    t.header('regression performed', alg)
    reg = f.algorithms[0].regressors[0]
    t.header('regression class', type(reg).__name__)
    t.header('perturbations generated', 3)
    t.header('custom perturbation', 'my_perturb' if case.get('func') else 'False')
    t.header('diagonal', '%.2f' % diag_of(f.reference_shape))
    if 'diag' in case.get('ref', 'diag'):
        t.header('diagonal', '27.00')
    t.scales([[(x, [('holistic feature', FS[j].__name__), ('patch feature', NS[j].__name__), ('patch shape', PATCH[j]),
                    ('iterations', its[j] if its else len(f.algorithms[j].regressors))]) for j, x in enumerate(s)]])


def run_sdaam(case, ctx):
    s = case['scales']
    n = len(s)
    c = dict(case, kind='HolisticAAM')
    m = make(c)
    its = [1, 3, 2][:n]
    k = dict(perturb_from_gt_bounding_box=my_perturb) if case.get('func') else {}
    f = fam.sd_aam(case['alg'], m=m, n_iterations=its, n_perturbations=2, n_shape=[1, 2, 1][:n], n_appearance=[1, 1, 2][:n], **k)
    extra = [(x, [('iterations', its[j])]) for j, x in enumerate(s)]
    t = check_model(ctx, c, m, text=str(f), extra=extra)
    t.header('regression performed', case['alg'])
    t.header('regression class', type(f.algorithms[0].regressors[0]).__name__)
    t.header('perturbations generated', 2)
    t.header('custom perturbation', 'my_perturb' if case.get('func') else 'False')


def run_dlib(case, ctx):
    s = case['scales']
    n = len(s)
    ims = fam.images()
    r, d = refs(case, ims)
    its = [2, 4, 3][:n]
    opts = dict(n_trees=[5, 4, 6][:n], n_tree_levels=[2, 3, 2][:n], n_pixel_pairs=[20, 22, 24][:n], n_split_tests=[3, 5, 4][:n],
                n_dlib_perturbations=[2, 1, 3][:n], feature_padding=[0.0, 0.5, 1.0][:n], regularisation_weight=[0.1, 0.3, 0.2][:n],
                distance_prior_weighting=[0.2, 0.1, 0.4][:n])
    if case.get('total'):
        its = 5
    k = dict(perturb_from_gt_bounding_box=my_perturb) if case.get('func') else {}
    f = fam.dlib_ert(ims, scales=s, diagonal=d, reference_shape=r, n_iterations=its, n_perturbations=3, **dict(opts, **k))
    if case.get('total'):
        its = [a.n_iterations for a in f.algorithms]
        ctx.check(sum(its) == 5, 'setup', 'iterations do not add up: %s' % its)
    t = Text(ctx, str(f), 'DlibERT')
    t.title('Ensemble of Regression Trees')
    t.fact([l for l in t.head], 'perturbations generated', 3, 'header')
    t.header('custom perturbation', 'my_perturb' if case.get('func') else 'False')
    t.header('diagonal', '%.2f' % diag_of(f.reference_shape))
    if 'diag' in case.get('ref', 'diag'):
        t.header('diagonal', '27.00')
    o = opts
    t.scales([[(x, [('cascade depth', its[j]), ('depth per tree', o['n_tree_levels'][j]), ('trees per cascade', o['n_trees'][j]),
                    ('regularisation parameter', '%.1f' % o['regularisation_weight'][j]), ('pool of size', o['n_pixel_pairs'][j]),
                    ('padding', '%.1f' % o['feature_padding'][j]), ('lambda', '%.1f' % o['distance_prior_weighting'][j]),
                    ('split tests', o['n_split_tests'][j]), ('perturbations generated per shape', o['n_dlib_perturbations'][j]),
                    ('total perturbations', 3 * o['n_dlib_perturbations'][j])]) for j, x in enumerate(s)]])


# ------------------------------------------------------- shape models, experts

def run_pdm(case, ctx):
    from menpofit.modelinstance import PDM, GlobalPDM, OrthoPDM
    from menpo.transform import AlignmentSimilarity
    from functools import partial
    shapes = [i.landmarks['PTS'] for i in fam.images(7)]
    for cls in (PDM, partial(GlobalPDM, global_transform_cls=AlignmentSimilarity), OrthoPDM):
        for ops in itertools.product(('n1', 'n3', 'inc', 'w'), repeat=2):
            m = cls([x.copy() for x in shapes], max_n_components=4)
            for op in ('',) + ops:
                if op == 'n1':
                    m.n_active_components = 1
                elif op == 'n3':
                    m.n_active_components = 3
                elif op == 'inc':
                    m.increment([fx.make_image(k).landmarks['PTS'] for k in (9, 11)])
                elif op == 'w':
                    v = m.as_vector().copy()
                    v[-1] += 0.5
                    m._from_vector_inplace(v)
                mod = m.model
                t = Text(ctx, str(m), type(m).__name__)
                tot, act = len(mod._components), mod.n_active_components
                e = np.asarray(mod._eigenvalues)
                t.number('# features:', 2 * fam.N, 0)
                t.number('active components:', act, 0)
                t.number('kept variance:', e[:act].sum(), 0.06 * e[:act].sum())
                t.number('components shape:', act, 0)
                t.header('centred', mod.centred)
                if isinstance(m, OrthoPDM):
                    t.number('total # components:', 4 + tot, 0)
                    t.number('# similarity components:', 4, 0)
                    t.number('# PCA components:', tot, 0)
                    for l in t.text.splitlines():
                        if 'active components' in l:
                            ctx.check(re.search(r'4 \+ %d = %d\b' % (act, 4 + act), l), 'wrong', 'OrthoPDM: %r with %d active' % (l, act))
                else:
                    t.number('total # components:', tot, 0)
    from menpofit.modelinstance import similarity_2d_instance_model
    t = Text(ctx, str(similarity_2d_instance_model(shapes[0])), 'similarity model')
    t.title('Similarity')
    t.number('# features:', 2 * fam.N, 0)
    t.number('total # components:', 4, 0)


def run_ensemble(case, ctx):
    from menpofit.clm import CorrelationFilterExpertEnsemble
    n = case['n']
    ims = fam.images(4)
    shapes = [fx.pc(i.landmarks['PTS'].points[:n + 2]) for i in ims]
    for p, c, cos in ((CLMP[0], CTX[0], True), (CLMP[1], CTX[1], False), ((7, 5), (13, 11), True)):
        e = CorrelationFilterExpertEnsemble(ims, shapes, patch_shape=p, context_shape=c, cosine_mask=cos, patch_normalisation=NS[0])
        t = Text(ctx, str(e), 'ensemble')
        t.title('Correlation Filter', 'MCCF' if False else 'experts')
        t.header('experts', n + 2)
        t.header('patch shape', '%d x %d' % p)
        t.header('context shape', '%d x %d' % c)
        t.header('patch normalisation', 'n_one')
        t.header('cosine mask', cos)


def run(case, ctx):
    globals()['run_' + case['m']](case, ctx)
