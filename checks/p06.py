"""P06 - asking for costs, errors or progress output never changes the outcome.

Non-interference is a property of pairs of executions: every training history and
every fit of a bounded space is executed with all on/off combinations of the
reporting options and the complete outcomes are compared (trained state, shapes,
parameters, consumed random numbers, behaviour of later operations).  The
progress printer is explored together with its consumer: all pull / stop / fail
schedules over short sequences against the plain iteration.
"""
import io
import itertools
import os
import random
import sys
from contextlib import contextmanager

import numpy as np

from vlib import fx, fam, fitters, walk

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive pairs of executions (non-interference by self-composition): every training / increment / fit history '
             'of the bounded space with all on-off combinations of the reporting options; all consumer schedules of the '
             'progress printer')
RULE = ('trainers x configurations x {verbose on/off} at every operation of the history; builders x verbose; fitters x options '
        'x budgets x {costs, ground truth} x starting mode; progress printer: sequence kinds x lengths 0..5 x display options x '
        'schedules of pulling, stopping and failing sources; a state is a distinct (operation, outcome)')
ASSUMPTIONS = ['attributes whose name mentions verbosity or the printed prefix are what is reported',
               'standard output is what progress is reported on']

TRAIN = []
for _k in fam.AAM_KINDS:
    TRAIN += [('aam', dict(kind=_k)), ('aam', dict(kind=_k, scales=[1.0], batch=2)), ('aam', dict(kind=_k, batch=3, gen=1))]
for _k in fam.ATM_KINDS:
    TRAIN += [('atm', dict(kind=_k)), ('atm', dict(kind=_k, scales=[1.0], batch=2)), ('atm', dict(kind=_k, batch=3, gen=1))]
TRAIN += [('clm', dict()), ('clm', dict(scales=[1.0], batch=2)), ('clm', dict(batch=3, gen=1)),
          ('uni', dict()), ('uni', dict(scales=[1.0])),
          ('aam', dict(kind='HolisticAAM', scales=[1.0, 1.0])), ('aam', dict(kind='PatchAAM', scales=[1.0, 0.5])),
          ('atm', dict(kind='HolisticATM', scales=[1.0, 1.0])), ('clm', dict(scales=[1.0, 1.0])), ('uni', dict(scales=[1.0, 1.0])),
          ('aps', dict(scales=[1.0, 1.0])), ('ert', dict(scales=[1.0, 1.0])), ('ert', dict(scales=[1.0, 1.0], glob=1)),
          ('aps', dict(scales=[1.0])), ('aps', dict(dg='none')), ('aps', dict(scales=[1.0], dg='mst')),
          ('aps', dict(scales=[1.0], sg='none')), ('aps', dict(scales=[1.0], batch=8)), ('aps', dict(batch=7, gen=1)),
          ('ert', dict()), ('ert', dict(scales=[1.0], over=3)), ('ert', dict(scales=[1.0], glob=1))]
for _a in fam.SDM_ALGS:
    TRAIN += [('sdm', dict(alg=_a)), ('sdm', dict(alg=_a, scales=[1.0, 1.0])), ('sdm', dict(alg=_a, glob=1, scales=[1.0, 1.0])), ('sdm', dict(alg=_a, glob=1, scales=[1.0]))]
for _a in fam.AAM_SD_ALGS:
    TRAIN += [('sdaam', dict(alg=_a)), ('sdaam', dict(alg=_a, glob=1))]


def cases(tier):
    for i in range(len(TRAIN)):
        yield dict(kind='train', i=i, inc=0)
        if TRAIN[i][0] in ('aam', 'atm', 'clm', 'aps'):
            yield dict(kind='train', i=i, inc=1)
            if tier == 'thorough':
                yield dict(kind='train', i=i, inc=2)
    for i in range(len(BUILDERS)):
        yield dict(kind='builder', i=i)
    names = fitters.iterative(tier) + fitters.cascaded(tier) + ['ert', 'wrapper']
    for n in names:
        for o in range(len(fitters.options(n))):
            yield dict(kind='fit', fam=n, opt=o, deep=int(tier == 'thorough'))
    for src in SOURCES:
        yield dict(kind='progress', src=src, n=5 if tier == 'quick' else 7)


@contextmanager
def silent():
    """standard output (also that of C++ code) goes to a buffer / nowhere"""
    old = sys.stdout
    fd = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    buf = io.StringIO()
    try:
        old.flush()
        os.dup2(null, 1)
        sys.stdout = buf
        yield buf
    finally:
        sys.stdout = old
        os.dup2(fd, 1)
        os.close(fd)
        os.close(null)


def rng():
    s = np.random.get_state()
    return (s[1].tolist(), s[2], s[3], s[4], random.getstate())


def seed():
    np.random.seed(77)
    random.seed(77)


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


# ---- training ---------------------------------------------------------------
def boxes(ims):
    for k, im in enumerate(ims):
        b = im.landmarks['PTS'].bounding_box()
        for j in range(2):
            c = b.copy()
            c.points[...] = b.points + [0.7 * j - 0.4 * k, 0.3 * k - 0.5]
            im.landmarks['box_%d' % j] = c
    return ims


def source(ims, cfg):
    return (i for i in ims) if cfg.get('gen') else ims


def train(what, cfg, verbose):
    kw = {}
    if 'scales' in cfg:
        kw['scales'] = cfg['scales']
    if 'batch' in cfg:
        kw['batch_size'] = cfg['batch']
    if verbose is not None:
        kw['verbose'] = verbose
    n = 6
    if what == 'aam':
        return fam.aam(cfg['kind'], ims=source(fx.make_images(n), cfg), **kw)
    if what == 'atm':
        import menpofit.atm as T
        ims = fx.make_images(n)
        k = dict(fam.BASE)
        if fam.needs_patch(cfg['kind']):
            k['patch_shape'] = (7, 7)
        k.update(kw)
        return getattr(T, cfg['kind'])(ims[0], source([i.landmarks['PTS'] for i in ims], cfg), **k)
    if what == 'clm':
        return fam.clm(ims=source(fx.make_images(n), cfg), **kw)
    if what == 'uni':
        return fam.unified(**kw)
    if what == 'aps':
        a = dict(tree='tree', none=None, mst='mst')[cfg.get('dg', 'tree')]
        return fam.aps(ims=source(fx.make_images(14), cfg), dg=None if a == 'mst' else a, sg=None if cfg.get('sg') else 'ring',
                       can_be_incremented=True, use_procrustes=a != 'mst', **kw)
    ims = boxes(fx.make_images(n)) if cfg.get('glob') else fx.make_images(n)
    if cfg.get('glob'):
        kw['bounding_box_group_glob'] = 'box_*'
        kw['n_perturbations'] = 2
    if what == 'ert':
        if cfg.get('over'):
            kw['n_dlib_perturbations'] = cfg['over']
        if 'scales' in cfg:
            kw['n_iterations'] = 2
        return fam.dlib_ert(ims, **kw)
    if what == 'sdm':
        if 'scales' in cfg:
            kw.update(patch_shape=(7, 7), n_iterations=2)
        return fam.sdm(cfg['alg'], ims=ims, **kw)
    return fam.sd_aam(cfg['alg'], m=MODEL.get('m'), ims=ims, **kw)


MODEL = {}


def increment(m, what, k, verbose, cfg):
    kw = {} if verbose is None else dict(verbose=verbose)
    if 'batch' in cfg:
        kw['batch_size'] = cfg['batch']
    ims = [fx.make_image(20 + 10 * k + i) for i in range({2: 4, 3: 5, 7: 14, 8: 8}.get(cfg.get('batch'), 8 if what == 'aps' else 3))]
    if what == 'atm':
        m.increment(ims[0], [i.landmarks['PTS'] for i in ims], group='PTS', **kw)
    else:
        m.increment(ims, group='PTS', **kw)


def run_train(case, ctx):
    what, cfg = TRAIN[case['i']]
    if what == 'sdaam':
        MODEL['m'] = fam.aam('HolisticAAM')
    base = None
    hists = [(None,) * (1 + case['inc'])] + list(itertools.product((False, True), repeat=1 + case['inc']))
    import copy
    prefix = {}
    for h in hists:
        seed()
        with silent():
            def go():
                if h[:1] not in prefix:
                    m = train(what, cfg, h[0])
                    prefix[h[:1]] = (copy.deepcopy(m) if case['inc'] else m, np.random.get_state(), random.getstate())
                else:
                    m = copy.deepcopy(prefix[h[:1]][0])
                    np.random.set_state(prefix[h[:1]][1])
                    random.setstate(prefix[h[:1]][2])
                for k, v in enumerate(h[1:]):
                    increment(m, what, k, v, cfg)
                return m
            m, e = attempt(go)
        r = rng()
        ctx.step(len(h))
        msg = '%s %s verbose %s' % (what, cfg, h)
        if e is not None:
            s = dict(error='%s: %s' % (type(e).__name__, e))
        else:
            s = walk.flatten(m)
            if what == 'ert':
                im = fx.make_image(3)
                bb = im.landmarks['PTS'].bounding_box()
                s['fit'] = [np.array(x.points) for x in m.fit_from_bb(im, bb).shapes]
                s['fit'] = np.array(s['fit'])
        if base is None:
            base = (s, r, h)
            if e is not None:
                ctx.bad('train-raises', '%s: %s' % (msg, s['error']))
                return
            continue
        ctx.trace()
        d = ('raises %s' % s['error']) if e is not None else walk.difference(base[0], s)
        ctx.check(not d, 'trained-model', lambda: '%s: %s' % (msg, d))
        ctx.check(r == base[1], 'random-numbers', msg)
        ctx.state(case['i'], h, d)
    MODEL.clear()


# ---- building blocks ---------------------------------------------------------
def _b_reference(v):
    import menpofit.builder as B
    ims = fx.make_images(4)
    out = []
    for d in (None, 25):
        out.append(B.compute_reference_shape([i.landmarks['PTS'] for i in ims], d, verbose=v).points)
    return out


def _b_rescale(v):
    import menpofit.builder as B
    ims = fx.make_images(4)
    return B.rescale_images_to_reference_shape(ims, 'PTS', fx.pc(fx.base_points() * 0.7), verbose=v)


def _b_norm(v):
    import menpofit.builder as B
    return [B.normalization_wrt_reference_shape(fx.make_images(4), 'PTS', d, verbose=v) for d in (None, 20)]


def _b_features(v):
    import menpofit.builder as B
    from menpo.feature import gradient
    return [B.compute_features(fx.make_images(n), gradient, prefix=p, verbose=v) for n in (1, 3) for p in ('', 'x')]


def _b_scale(v):
    import menpofit.builder as B
    return [B.scale_images(fx.make_images(n), s, prefix=p, return_transforms=t, verbose=v)
            for n in (1, 3) for s in (1, 0.5) for t in (0, 1) for p in ('', 'x')]


def _b_warp(v):
    import menpofit.builder as B
    from menpofit.transform import DifferentiablePiecewiseAffine
    out = []
    for mesh in (True,):
        ims = fx.make_images(3)
        rf = B.build_reference_frame(ims[0].landmarks['PTS'], boundary=1)
        out.append(B.warp_images(ims, [i.landmarks['PTS'] for i in ims], rf, DifferentiablePiecewiseAffine, prefix='x', verbose=v))
    return out


def _b_patches(v):
    import menpofit.builder as B
    from menpo.feature import no_op
    ims = fx.make_images(3)
    return B.extract_patches(ims, [i.landmarks['PTS'] for i in ims], (5, 5), prefix='y', verbose=v)


def _b_perturb(v):
    from menpofit.fitter import generate_perturbations_from_gt, noisy_shape_from_bounding_box
    out = []
    for n in (1, 3):
        for glob in (None, 'box_*'):
            for g in ((None, 'PTS') if glob is None else ('PTS',)):
                ims = boxes(fx.make_images(3)) if glob else fx.make_images(3)
                f = generate_perturbations_from_gt(ims, n, noisy_shape_from_bounding_box, gt_group=g, bb_group_glob=glob, verbose=v)
                out.append(([np.array([b.points for b in f(i)]) for i in ims], [sorted(i.landmarks) for i in ims]))
    return out


def _pdm(cls):
    import menpofit.modelinstance as M
    return getattr(M, cls)([i.landmarks['PTS'] for i in fx.make_images(6)])


def _b_pdm(cls):
    def f(v):
        m = _pdm(cls)
        for k in range(2):
            m.increment([fx.make_image(10 + 4 * k + i).landmarks['PTS'] for i in range(3)], verbose=v)
        return m
    return f


def _b_expert(cls, kw):
    def f(v):
        import menpofit.clm.expert.ensemble as E
        ims = fx.make_images(3)
        sh = [i.landmarks['PTS'] for i in ims]
        e = getattr(E, cls)(ims, sh, patch_shape=(7, 7), context_shape=(11, 11), verbose=v, **kw)
        more = [fx.make_image(9 + i) for i in range(2)]
        e.increment(more, [i.landmarks['PTS'] for i in more], verbose=v)
        return [e, e.predict_response(ims[0], sh[0])]
    return f


def _b_appearance(v):
    from menpofit.sdm.algorithm.base import build_appearance_model
    from menpo.feature import no_op
    from menpo.model import PCAVectorModel
    ims = fx.make_images(4)
    return [build_appearance_model(ims, [i.landmarks['PTS'] for i in ims], (5, 5), no_op, PCAVectorModel, verbose=v, prefix=p)
            for p in ('', 'z')]


def _b_regularized(v):
    from menpofit.sdm import RegularizedSDM
    seed()
    return RegularizedSDM(fx.make_images(4), patch_shape=(7, 7), n_perturbations=2, n_iterations=2, alpha=1.0, verbose=v,
                          scales=(0.5, 1.0), diagonal=30)


def _b_mst(v):
    from menpofit.aps.base import _compute_minimum_spanning_tree as f
    return f([i.landmarks['PTS'] for i in fx.make_images(9)], root_vertex=1, verbose=v)


BUILDERS = [('compute_reference_shape', _b_reference), ('rescale_images_to_reference_shape', _b_rescale),
            ('normalization_wrt_reference_shape', _b_norm), ('compute_features', _b_features), ('scale_images', _b_scale),
            ('warp_images', _b_warp), ('extract_patches', _b_patches), ('generate_perturbations_from_gt', _b_perturb),
            ('PDM.increment', _b_pdm('PDM')), ('OrthoPDM.increment', _b_pdm('OrthoPDM')),
            ('CorrelationFilterExpertEnsemble', _b_expert('CorrelationFilterExpertEnsemble', {})),
            ('build_appearance_model', _b_appearance), ('RegularizedSDM', _b_regularized)]


def run_builder(case, ctx):
    name, f = BUILDERS[case['i']]
    base = None
    for v in (False, True, False):
        seed()
        with silent():
            r, e = attempt(lambda: f(v))
        ctx.step()
        s = dict(error='%s: %s' % (type(e).__name__, e)) if e is not None else walk.flatten(r)
        if base is None:
            base = s, rng()
            ctx.check(e is None, 'builder-raises', lambda: '%s: %s' % (name, s.get('error')))
            continue
        ctx.trace()
        d = walk.difference(base[0], s)
        ctx.check(not d, 'builder', lambda: '%s verbose %s: %s' % (name, v, s.get('error', d)))
        ctx.check(rng() == base[1], 'random-numbers', '%s verbose %s' % (name, v))
        ctx.state(name, v, sorted(s)[:50])


# ---- fitting ------------------------------------------------------------------
def outcome(r):
    d = dict(final=np.array(r.final_shape.points), it=bool(r.is_iterative), cls=type(r).__name__,
             initial=None if r.initial_shape is None else np.array(r.initial_shape.points),
             image=np.array(r.image.pixels))
    if r.is_iterative:
        d['shapes'] = np.array([s.points for s in r.shapes])
        d['n'] = r.n_iters
    for a in ('n_iters_per_scale', 'shape_parameters', 'appearance_parameters', 'homogeneous_parameters',
              'reconstructed_initial_shapes'):
        v = getattr(r, a, None)
        if v is not None:
            d[a] = walk.flatten([np.array(x.points) if hasattr(x, 'points') else np.array(x) for x in v])
    return walk.flatten(d)


def run_fit(case, ctx):
    name = case['fam']
    if name in ('ert', 'wrapper'):
        import menpofit.dlib as D
        fit = fam.dlib_ert()
        if name == 'wrapper':
            fit = D.DlibWrapper(fit.algorithms[-1].dlib_model)
        opt, budgets, costs = {}, [None], [None]
    else:
        fit = fitters.fitter(name)
        opt = fitters.options(name)[case['opt']]
        casc = name.startswith('sdm') or name.startswith('sdaam')
        budgets = [None] if casc else ([[2, 1], 3, 24] if not case['deep'] else [[2, 1], 3, [0, 2], [1, 0], [0, 0], 24, [60, 60]])
        costs = [None, False, True]
    for k in ((7,) if not case['deep'] else (7, 1, 9)):
        im = fx.make_image(k)
        p = im.landmarks['PTS'].points
        gt = fx.pc(p)
        ini = fx.pc(p + [0.9, -0.7])
        for b in budgets:
            for mode in ('shape', 'bb'):
                st = ini if mode == 'shape' else ini.bounding_box()
                base = None
                # every option combination is followed by a plain fit: nothing may linger
                for c, g in itertools.product(costs, (0, 1, 2)):
                    kw = dict(opt)
                    if b is not None:
                        kw['max_iters'] = b
                    plain = dict(kw)
                    if b == 24 and not case['deep'] and (mode == 'bb' or g == 2 or c is False):
                        continue
                    if c is not None:
                        kw['return_costs'] = c
                    if g:
                        kw['gt_shape'] = gt if g == 1 else fx.pc(p * 0.8 + 3)
                    for which, q in (('asked', kw), ('after', plain)):
                        if which == 'after' and not (c or g):
                            continue
                        seed()
                        before = rng()
                        marks = sorted(im.landmarks)
                        r, e = attempt(lambda: (fit.fit_from_shape if mode == 'shape' else fit.fit_from_bb)(im, st, **q))
                        ctx.step()
                        ctx.check(sorted(im.landmarks) == marks, 'landmarks', name)
                        msg = '%s %s image %d budget %s from %s costs %s gt %s (%s)' % (name, opt, k, b, mode, c, g, which)
                        if e is not None:
                            o = dict(error=type(e).__name__)
                        else:
                            o = outcome(r)
                            if which == 'asked':
                                ctx.check((r.gt_shape is None) == (not g), 'ground-truth', msg)
                                if g:
                                    ctx.close(r.gt_shape.points, kw['gt_shape'].points, 'ground-truth', msg)
                                    r.final_error()
                        used = rng() == before
                        if base is None:
                            base = (o, used)
                            continue
                        ctx.trace()
                        d = walk.difference(base[0], o)
                        ctx.check(not d, 'fit', lambda: '%s: %s%s' % (msg, d, '' if e is None else ' (%s)' % e))
                        ctx.check(used == base[1], 'random-numbers', msg)
                if base is not None:
                    ctx.state(name, case['opt'], k, b, mode, str(base[0].get('[n]')), base[0].get('[final]'))


# ---- progress printer ----------------------------------------------------------
SOURCES = ['list', 'tuple', 'range', 'array', 'dict', 'str', 'generator', 'sequence', 'fails']


class Seq(object):
    """a sequence that records every request"""

    def __init__(self, items, log):
        self.items, self.log = items, log

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= len(self.items):
            raise IndexError(i)
        self.log.append(i)
        return self.items[i]


def make(src, n, log):
    """(iterable, needs n_items)"""
    items = [object() for _ in range(n)]
    if src == 'list':
        return items, False
    if src == 'tuple':
        return tuple(items), False
    if src == 'range':
        return range(3, 3 + n), False
    if src == 'array':
        return np.arange(2 * n).reshape(n, 2), False
    if src == 'dict':
        return {k: None for k in range(n)}, False
    if src == 'str':
        return 'abcdefgh'[:n], False
    if src == 'sequence':
        return Seq(items, log), False

    def gen():
        for i, x in enumerate(items):
            log.append(i)
            yield x
        if src == 'fails':
            raise KeyError('source')
    return gen(), True


def expected(src, it):
    return list(it)


class Boom(Exception):
    pass


def schedule(f, it, src, log, stop, kw):
    """pull stop items (all if None) and close; what was observed, and what had been requested at each pull"""
    got, seen = [], []
    end = 'stopped'
    with silent():
        g = f(it, **kw)
        while stop is None or len(got) < stop:
            try:
                x = next(g)
            except StopIteration:
                end = 'exhausted'
                break
            except KeyError:
                end = 'failed'
                break
            except Exception as e:
                end = '%s: %s' % (type(e).__name__, e)
                break
            got.append(x)
            seen.append(len(log))
        if hasattr(g, 'close'):
            g.close()
    return got, seen, end


def run_progress(case, ctx):
    from menpofit.visualize import print_progress
    src = case['src']
    flags = list(itertools.product((True, False), repeat=3))
    for n in range(case['n'] + 1):
        for stop in [None] + list(range(n + 1)):
            for prefix in ('', 'p'):
                for bar, count, eta in flags:
                    for newline in (True, False):
                        for give_n in (False, True):
                            res = []
                            for verbose in (False, True, None):
                                log = []
                                it, need = make(src, n, log)
                                if need and not give_n:
                                    continue
                                kw = dict(prefix=prefix, show_bar=bar, show_count=count, show_eta=eta, end_with_newline=newline)
                                if verbose is not None:
                                    kw['verbose'] = verbose
                                if give_n:
                                    kw['n_items'] = max(n, 1)
                                ref = None if src in ('generator', 'fails') else list(it)
                                del log[:]
                                got, seen, end = schedule(print_progress, it, src, log, stop, kw)
                                ctx.step()
                                m = n if stop is None else min(n, stop)
                                ctx.check(len(got) == m, 'items', '%s of %d stop %s %s: %d items' % (src, n, stop, kw, len(got)))
                                if ref is not None and len(got) == m:
                                    ctx.check(all(a is b or np.array_equal(a, b) for a, b in zip(got, ref)), 'items',
                                              '%s of %d stop %s %s: wrong items or order' % (src, n, stop, kw))
                                want = ('failed' if src == 'fails' else 'exhausted') if stop is None else 'stopped'
                                ctx.check(end == want, 'end', '%s of %d stop %s %s: %s instead of %s' % (src, n, stop, kw, end, want))
                                if src in ('generator', 'fails', 'sequence'):
                                    ctx.check(seen == list(range(1, m + 1)), 'pulls',
                                              '%s of %d stop %s %s: requested %s' % (src, n, stop, kw, seen))
                                    if stop is not None:
                                        ctx.check(len(log) == m, 'pulls', '%s of %d stop %s %s: %d requests' % (src, n, stop, kw, len(log)))
                                res.append((len(got), seen, end))
                            if res:
                                ctx.trace()
                                ctx.check(all(x == res[0] for x in res), 'progress', '%s of %d stop %s' % (src, n, stop))
            ctx.state(src, n, stop)
    if src == 'list':
        # nested printers and a source without length
        with silent():
            for outer, inner in itertools.product((True, False), repeat=2):
                got = [(i, j) for i in print_progress(range(3), verbose=outer)
                       for j in print_progress([5, 6], prefix='x', verbose=inner)]
                ctx.step()
                ctx.check(got == [(i, j) for i in range(3) for j in (5, 6)], 'nested', str(got))
            for a, b in itertools.product((0, 3), (2, 4)):
                for v in (True, False):
                    got = list(print_progress(iter(range(b)), n_items=a + b, offset=a, verbose=v))
                    ctx.step()
                    ctx.check(got == list(range(b)), 'offset', '%s %s' % (a, got))
