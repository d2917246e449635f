"""P05 - iteration budgets are respected and a longer run extends a shorter one.

The budgets of a two (three) scale fitter form a lattice.  Every point of a
bounded part of that lattice is executed with every fitter and all pairs of
points that must agree on a prefix are compared (histories of a run and of its
extensions), together with the number of iterations, the reason for stopping,
the reconstruction of the start and the number of costs.
"""
import itertools
from copy import deepcopy

import numpy as np

from vlib import fx, fam, fitters

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of the lattice of iteration budgets of every real fitter; each run is compared with '
             'the prefixes of all other runs and with the budget accounting model')
RULE = ('fitters x optimiser options x starts x {all per-scale budgets 0..3 over 2 scales, all totals 0..7, one-element '
        'lists, long budgets}; a state is a distinct (fitter, budget, iterations, final shape)')
ASSUMPTIONS = ['a step is negligible when no landmark moves by more than 1e-3 pixels of the input image',
               'long runs of a diverging optimiser may end in a singular system (no result)']
CHUNK = 2


def BOUNDS(tier):
    return dict(per_scale=3 if tier == 'quick' else 5, total=7 if tier == 'quick' else 12,
                long=30 if tier == 'quick' else 80, starts=2 if tier == 'quick' else 4)


def cases(tier):
    b = BOUNDS(tier)
    for n in fitters.iterative(tier):
        for o in range(len(fitters.options(n))):
            for st in range(b['starts']):
                yield dict(kind='iter', fam=n, opt=o, start=st, m=b['per_scale'], total=b['total'], long=b['long'])
    for n in ('aam:HolisticAAM:WibergInverseCompositional', 'atm:PatchATM:InverseCompositional',
              'lk:DifferentiableAlignmentAffine:ForwardAdditive:SSD', 'clm:RegularisedLandmarkMeanShift',
              'uni:ProjectOutRegularisedLandmarkMeanShift', 'aps:tree:Forward'):
        yield dict(kind='three', fam=n, m=2)
        yield dict(kind='one', fam=n)
    for n in fitters.iterative(tier):
        for o in range(len(fitters.options(n))):
            yield dict(kind='tol', fam=n, opt=o, n=6 if tier == 'quick' else 12)
    for n in fitters.cascaded(tier):
        yield dict(kind='casc', fam=n, m=2 if tier == 'quick' else 3)


def setting(start):
    """(image, ground truth, start): training and unseen images"""
    k = (7, 1, 3, 9)[start]
    im = fx.make_image(k)
    gt = im.landmarks['PTS'].points.copy()
    return im, fx.pc(gt + [[1.0, -0.8], [-0.3, 0.4], [0.6, 1.1], [-1.0, -0.4]][start])


def zero_start(ctx, name, fit, im, msg):
    """a zero budget returns the model's reconstruction of the start"""
    for j, alg in enumerate(fit.algorithms):
        s = fit.scales[j]
        small = im.rescale(s) if s != 1 else im
        for d in ((0.7, -0.5), (-1.3, 2.1)):
            ini = fx.pc(im.landmarks['PTS'].points * s + np.array(d))
            T = deepcopy(alg.transform)
            T.set_target(ini)
            want = getattr(T, 'sparse_target', T.target).points
            par = np.array(T.as_vector())
            r = alg.run(small, ini, max_iters=0)
            ctx.step()
            ctx.trace()
            ctx.check(r.n_iters == 0, 'zero-iterations', '%s scale %d: %s iterations' % (msg, j, r.n_iters))
            ctx.close(r.final_shape.points, want, 'zero-reconstruction', '%s scale %d final shape of a zero budget' % (msg, j))
            ctx.check(len(r.shapes) == 2, 'zero-shapes', '%s scale %d: %d shapes' % (msg, j, len(r.shapes)))
            p = getattr(r, 'shape_parameters', None)
            if p is None:
                p = getattr(r, 'homogeneous_parameters', None)
            ctx.close(p[-1], par, 'zero-parameters', '%s scale %d' % (msg, j))


def share_bounds(b, ns):
    """(largest number per scale, total) a budget allows"""
    if isinstance(b, (list, tuple)) and len(b) > 1:
        return list(b), sum(b)
    k = b[0] if isinstance(b, (list, tuple)) else b
    return [-(-k // ns)] * ns, k


def account(ctx, run, b, ns, costs, msg):
    lim, total = share_bounds(b, ns)
    ctx.check(len(run.n) == ns, 'scales', '%s: %s' % (msg, run.n))
    ctx.check(run.extra == 0, 'shapes', '%s: %d shapes more than the iterations and reconstructions' % (msg, run.extra))
    ctx.check(all(n <= l for n, l in zip(run.n, lim)), 'budget', '%s: %s iterations performed, at most %s allowed' % (msg, run.n, lim))
    ctx.check(sum(run.n) <= total, 'budget', '%s: %s iterations performed, %d in total allowed' % (msg, run.n, total))
    early = None
    if isinstance(b, list) and len(b) > 1:
        early = [j for j in range(ns) if run.n[j] < b[j]]
    elif sum(run.n) < total:
        early = [j for j in range(ns) if run.n[j] < lim[j]]
    for j in early or ():
        if isinstance(b, list) and len(b) > 1 or run.n[j] < total // ns:
            if ctx.check(run.n[j] > 0, 'early-stop', '%s: scale %d stopped before its first step' % (msg, j)):
                mv = np.abs(run.shapes[j][-1] - run.shapes[j][-2]).max()
                ctx.check(mv < 1e-3, 'early-stop', '%s: scale %d stopped after %d iterations, still moving by %.3g' % (
                    msg, j, run.n[j], mv))
    if costs:
        ctx.check(run.costs is not None and run.n_costs == run.est, 'costs', '%s: %s costs for %d estimates' % (
            msg, getattr(run, 'n_costs', None), run.est))
        if run.costs is not None:
            ctx.check(all(np.isfinite(c) for s in run.costs for c in s), 'costs', '%s: costs %s' % (msg, run.costs))
    for a, n in run.n_par.items():
        ctx.check(n == run.est, 'parameters', '%s: %d %s for %d estimates' % (msg, n, a, run.est))
    ctx.check(np.array_equal(run.final, run.shapes[-1][-1] if run.shapes[-1] else run.all[-1]), 'final', msg)


def prefix(ctx, short, long_, j, msg):
    """scale j of `short` is a prefix of scale j of `long_`"""
    n = len(short.shapes[j])
    ctx.trace()
    d = fitters.same(short.shapes[j], long_.shapes[j][:n])
    ctx.check(not d, 'prefix-shapes', '%s scale %d shapes: %s' % (msg, j, d))
    for a in short.par:
        d = fitters.same(short.par[a][j], long_.par[a][j][:n])
        ctx.check(not d, 'prefix-parameters', '%s scale %d %s: %s' % (msg, j, a, d))
    if short.costs is not None and long_.costs is not None:
        d = fitters.same(short.costs[j], long_.costs[j][:n])
        ctx.check(not d, 'prefix-costs', '%s scale %d costs: %s' % (msg, j, d))


SING = (np.linalg.LinAlgError, ValueError, FloatingPointError)


def tolerance(ctx, case, name, fit, opts):
    """the optimiser stops at the first step that is not larger than its tolerance

    A run that is never stopped gives the sizes of all steps; it is repeated with a
    tolerance between every two of them, below all and above all.
    """
    im, _ = setting(0)
    for j, alg in enumerate(fit.algorithms):
        if not hasattr(alg, 'eps'):
            continue
        s = fit.scales[j]
        small = im.rescale(s) if s != 1 else im
        ini = fx.pc(im.landmarks['PTS'].points * s + np.array([0.7, -0.5]))
        keep = alg.eps
        msg = '%s %s scale %d' % (name, opts, j)

        def go(eps):
            alg.eps = eps
            try:
                return alg.run(small, ini, max_iters=case['n'], **opts)
            finally:
                alg.eps = keep

        def size(a, b):
            return float(np.linalg.norm(a - b))
        try:
            full = go(-1.0)
        except SING:
            ctx.state(msg, 'diverged')
            continue
        ctx.check(full.n_iters == case['n'], 'tolerance', '%s: stopped after %d of %d iterations below a tolerance no step can reach' % (
            msg, full.n_iters, case['n']))
        sh = [np.array(x.points) for x in full.shapes]
        sh = sh[len(sh) - full.n_iters - 1:]
        lk = name.startswith('lk:')
        dense = not lk and len(sh[0]) != alg.transform.target.n_points
        r = go(1e9)
        ctx.check(r.n_iters == 1, 'tolerance', '%s: %d iterations above a tolerance every step is within' % (msg, r.n_iters))
        sizes = [size(a, b) for a, b in zip(sh, sh[1:])]
        grid = sorted(sizes)
        grid = [g0 + (g1 - g0) * 0.5 for g0, g1 in zip(grid, grid[1:]) if g1 - g0 > 1e-6 * g1] + [grid[0] * 0.5, grid[-1] * 2]
        last = None
        for e in sorted(grid):
            if e <= 0:
                continue
            r = go(e)
            ctx.step()
            ctx.state(msg, round(e, 6), r.n_iters)
            if not lk and not dense:
                want = next((k + 1 for k, d in enumerate(sizes) if d <= e), len(sizes))
                ctx.check(r.n_iters == want, 'tolerance', '%s: %d iterations with tolerance %.4g, steps of size %s' % (
                    msg, r.n_iters, e, np.round(sizes, 5)))
            ctx.check(last is None or r.n_iters <= last, 'tolerance', '%s: a larger tolerance takes more iterations' % msg)
            last = r.n_iters
            d = fitters.same([x.points for x in r.shapes][-1], sh[r.n_iters])
            ctx.check(not d, 'tolerance', '%s: the estimates depend on the tolerance: %s' % (msg, d))
        # a tolerance chosen when the optimiser is constructed
        e = sorted(grid)[len(grid) // 2]
        if e > 0:
            mk = fitters.model_kind(name)
            other = fitters.fitter(name, fitters.model(mk) if mk else None, eps=e).algorithms[j]
            r, r2 = go(e), other.run(small, ini, max_iters=case['n'], **opts)
            d = fitters.same([x.points for x in r.shapes], [x.points for x in r2.shapes])
            ctx.check(not d, 'tolerance', '%s: constructed with tolerance %.4g: %s' % (msg, e, d))
        # a tolerance that is left alone ends a run that does not move any more
        try:
            r = alg.run(small, ini, max_iters=60, **opts)
        except SING:
            continue
        sh = [np.array(x.points) for x in r.shapes][-r.n_iters - 1:]
        tiny = [k for k, (a, b) in enumerate(zip(sh, sh[1:])) if size(a, b) < (1e-11 if lk else 1e-7)]
        ctx.check(not tiny or tiny[0] == r.n_iters - 1, 'tolerance', '%s: %d iterations although step %s was negligible' % (
            msg, r.n_iters, tiny[:1]))


def explore(ctx, case, fit, budgets, longs, opts, costs, tag):
    im, ini = setting(case.get('start', 0))
    ns = len(fit.scales)
    runs = {}
    for b in budgets + longs:
        msg = '%s budget %s' % (tag, b)
        try:
            r = fit.fit_from_shape(im, ini, max_iters=deepcopy(b), return_costs=costs, **opts)
        except SING as e:
            if b in longs:
                ctx.state(tag, 'diverged', str(b))
                continue
            if max(share_bounds(b, ns)[0]) > 3:
                continue
            # an optimiser may diverge; the one-iteration runs must work (a step of the
            # correlation coefficient may leave the image, where it is undefined)
            if max(share_bounds(b, ns)[0]) <= 1 and not tag.split(' ')[0].endswith(':ECC'):
                ctx.bad('crash', '%s: %s: %s' % (msg, type(e).__name__, e))
            ctx.state(tag, 'diverged', str(b))
            continue
        run = fitters.Run(r)
        ctx.step()
        account(ctx, run, b, ns, costs, msg)
        runs[str(b)] = (b, run)
        ctx.state(tag, str(b), run.n, np.round(run.final, 4))
    # every pair of runs
    L = list(runs.values())
    for (b1, r1), (b2, r2) in itertools.permutations(L, 2):
        for j in range(ns):
            msg = '%s budget %s against %s' % (tag, b1, b2)
            if len(r1.shapes[j]) <= len(r2.shapes[j]):
                prefix(ctx, r1, r2, j, msg)
            if r1.n[j] != r2.n[j]:
                break               # later scales start elsewhere
    return runs


def run(case, ctx):
    if case['kind'] == 'casc':
        return casc(case, ctx)
    name = case['fam']
    kw = {}
    if case['kind'] == 'three':
        sc = dict(scales=(0.5, 0.75, 1.0))
    elif case['kind'] == 'one':
        sc = dict(scales=1.0)
    else:
        sc = {}
    mk = fitters.model_kind(name)
    if sc and mk is None:
        kw = sc
    m = (fitters.model(mk, **sc) if sc else fitters.shared_model(mk)) if mk else None
    fit = fitters.fitter(name, m, **kw)
    costs = fitters.has_costs(name)
    if case['kind'] == 'tol':
        return tolerance(ctx, case, name, fit, fitters.options(name)[case['opt']])
    if case['kind'] == 'iter':
        opts = fitters.options(name)[case['opt']]
        k = case['m'] + 1
        budgets = [list(b) for b in itertools.product(range(k), repeat=2)]
        budgets += list(range(case['total'] + 1)) + [[i] for i in range(case['total'] + 1)]
        longs = [[case['long']] * 2, case['long'], [case['long'], 1]]
        tag = '%s %s start %d' % (name, opts, case['start'])
        runs = explore(ctx, case, fit, budgets, longs, opts, costs, tag)
        im, ini = setting(case['start'])
        if case['start'] == 0:
            zero_start(ctx, name, fit, im, tag)
        # without costs the same run, and no costs
        if '[1, 1]' in runs:
            r0 = fitters.Run(fit.fit_from_shape(im, ini, max_iters=[1, 1], **opts))
            ctx.check(r0.costs is None, 'costs-unrequested', tag)
            prefix(ctx, r0, runs['[1, 1]'][1], 0, tag + ' without costs')
        # the default budget is the documented 20
        try:
            rd = fitters.Run(fit.fit_from_shape(im, ini, **opts))
            account(ctx, rd, 20, 2, False, tag + ' default budget')
        except SING:
            pass
    elif case['kind'] == 'three':
        budgets = [list(b) for b in itertools.product(range(case['m'] + 1), repeat=3)]
        budgets += list(range(8)) + [[i] for i in range(8)]
        explore(ctx, case, fit, budgets, [[12, 12, 12]], {}, costs, name + ' three scales')
    else:
        budgets = [[i] for i in range(6)] + list(range(6))
        runs = explore(ctx, case, fit, budgets, [40], {}, costs, name + ' one scale')
        for i in range(6):
            a, b = runs[str([i])][1], runs[str(i)][1]
            d = fitters.same(a.numbers(), b.numbers())
            ctx.check(not d, 'int-list', '%s budget %d: %s' % (name, i, d))


def casc(case, ctx):
    """the iterations of cascaded fitters are chosen when training"""
    name = case['fam']
    m = fitters.shared_model('HolisticAAM') if name.startswith('sdaam') else None
    im, ini = setting(0)
    runs = {}
    for b in itertools.product(range(case['m'] + 1), repeat=2):
        fit = fitters.fitter(name, m, n_iterations=list(b), n_perturbations=2)
        for k in (None, 1, [3, 5]):
            r = fitters.Run(fit.fit_from_shape(im, ini, **({} if k is None else dict(max_iters=k))))
            ctx.step()
            msg = '%s n_iterations %s max_iters %s' % (name, b, k)
            ctx.check(r.n == list(b), 'cascade-iterations', '%s: %s iterations' % (msg, r.n))
            ctx.check(r.extra == 0, 'shapes', '%s: %d' % (msg, r.extra))
            ctx.check(r.costs is None, 'costs-unrequested', msg)
            if k is None:
                runs[b] = r
            else:
                d = fitters.same(r.numbers(), runs[b].numbers())
                ctx.check(not d, 'cascade-iterations', '%s: %s' % (msg, d))
        ctx.state(name, b, np.round(runs[b].final, 4))
    for (b1, r1), (b2, r2) in itertools.permutations(list(runs.items()), 2):
        if r1.n[0] <= r2.n[0]:
            prefix(ctx, r1, r2, 0, '%s n_iterations %s against %s' % (name, b1, b2))
        if r1.n[0] == r2.n[0] and r1.n[1] <= r2.n[1]:
            prefix(ctx, r1, r2, 1, '%s n_iterations %s against %s' % (name, b1, b2))
