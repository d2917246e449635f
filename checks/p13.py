"""P13 - error statistics summarise exactly the errors they are given."""
import itertools
import numpy as np

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of small error multisets, orders, thresholds and steps against exact counting'
RULE = ('all multisets (and all orders up to size 3) of lattice errors x thresholds x steps; all one-step improvements; '
        'tables over all statistic subsets/sort keys; non-trivial = distinct statistics tuple')
ASSUMPTIONS = ['the area is the Simpson integral of the curve on its grid divided by the maximum error, as implemented '
               'and documented']
VALS = [0.0, 0.125, 0.25, 0.3, 0.5, 0.75, 1.0]


def grids(tier):
    out = [(0.125, 0.5, 0.0), (0.25, 0.5, 0.0), (0.5, 1.0, 0.0), (0.125, 1.0, 0.0), (0.25, 0.25, 0.0), (0.125, 0.5, 0.25),
           # decimal grids: (max - min) is a multiple of the step only up to rounding
           (0.01, 0.05, 0.0), (0.1, 0.3, 0.0), (0.1, 0.7, 0.0), (0.05, 0.15, 0.0), (0.005, 0.1, 0.0), (0.02, 0.14, 0.0)]
    if tier == 'thorough':
        out += [(0.001, m / 100., 0.0) for m in range(1, 31)]
    return out


def cases(tier):
    n = 3 if tier == 'quick' else 4
    ms = [list(m) for k in range(1, n + 1) for m in itertools.combinations_with_replacement(VALS, k)]
    for i in range(0, len(ms), 6):
        yield dict(kind='sets', sets=ms[i:i + 6], grids=grids('quick'))
    for g in grids(tier):
        yield dict(kind='edges', grid=g)
    yield dict(kind='table', pair=0)
    yield dict(kind='table', pair=1)
    yield dict(kind='plot')


def r_ced(e, x):
    return sum(1 for v in e if v <= x) / float(len(e))


def grid_of(step, mx, mn):
    n = int(round((mx - mn) / step))
    return [mn + (mx - mn) * k / n for k in range(n + 1)] if n else [mn]


def simpson(y, x):
    from scipy.integrate import simpson as s
    return float(s(np.array(y), x=np.array(x)))


def med(v):
    v = sorted(v)
    n = len(v)
    return (v[(n - 1) // 2] + v[n // 2]) / 2.0


def ref(e, step, mx, mn):
    x = np.linspace(mn, mx, int(round((mx - mn) / step)) + 1)
    m = sum(e) / len(e)
    return (m, (sum((v - m) ** 2 for v in e) / len(e)) ** 0.5, med(e), med([abs(v - med(e)) for v in e]), max(e),
            simpson([r_ced(e, q) for q in x], x) / mx, sum(1 for v in e if v > mx) / float(len(e)))


def close(a, b):
    return np.allclose(np.array(a, float), np.array(b, float), rtol=0, atol=1e-9)


def run(case, ctx):
    import menpofit.error as E
    if case['kind'] == 'sets':
        for e in case['sets']:
            for conv in (list, np.array):
                for bins in (VALS, np.array(VALS), [0.2, 0.9, -1.0]):
                    ctx.step()
                    c = E.compute_cumulative_error(conv(e), bins)
                    w = [r_ced(e, x) for x in bins]
                    ctx.state(w)
                    ctx.check(close(c, w), 'ced', lambda: 'errors %s (%s) bins %s: %s expected %s' % (
                        e, conv.__name__, list(bins), list(c), w))
                ctx.check(close(E.mad(conv(e)), med([abs(v - med(e)) for v in e])), 'mad', str(e))
            perms = set(itertools.permutations(e)) if len(e) <= 3 else [tuple(e), tuple(e[::-1])]
            for step, mx, mn in case['grids']:
                # ties between decimal errors and rounded grid values are not defined by the documentation
                exact = all((v * 8) % 1 == 0 for v in (step, mx, mn))
                w = ref(e, step, mx, mn)
                for p in sorted(perms):
                    ctx.step()
                    g = E.compute_statistical_measures(list(p), step_error=step, max_error=mx, min_error=mn)
                    ctx.state([round(float(v), 9) for v in g])
                    if exact:
                        ctx.check(close(g, w), 'stats', lambda: '%s step %s max %s min %s: %s expected %s' % (
                            p, step, mx, mn, [float(v) for v in g], w))
                    else:
                        ctx.check(close(g[6], w[6]) and close(g[:5], w[:5]), 'fr', lambda: '%s step %s max %s: %s expected %s' % (
                            p, step, mx, [float(v) for v in g], w))
                auc, fr = E.area_under_curve_and_failure_rate(list(e), step, mx, min_error=mn)
                ctx.check(close([auc, fr], g[5:]), 'agree', lambda: str((e, auc, fr, g)))
                full = [mn] * len(e)
                top = E.area_under_curve_and_failure_rate(full, step, mx, min_error=mn)[0]
                ctx.check(abs(top - (mx - mn) / mx) < 1e-9 or mx == mn, 'auc-top',
                          lambda: 'perfect fits must have area (max-min)/max: %s for %s' % (top, (step, mx, mn)))
                # improving any one error
                for i in range(len(e)):
                    k = VALS.index(e[i])
                    if k:
                        e2 = list(e)
                        e2[i] = VALS[k - 1]
                        a2, f2 = E.area_under_curve_and_failure_rate(e2, step, mx, min_error=mn)
                        ctx.step()
                        ctx.check(a2 >= auc - 1e-9 and f2 <= fr + 1e-9, 'monotone',
                                  lambda: '%s -> %s: area %s -> %s, failure %s -> %s' % (e, e2, auc, a2, fr, f2))
            # a failed fit (infinite error) is never below any error
            for step, mx, mn in case['grids']:
                x = np.array(grid_of(step, mx, mn))
                f = [v + step * 0.01 for v in e] + [np.inf]
                auc, fr = E.area_under_curve_and_failure_rate(list(f), step, mx, min_error=mn)
                ctx.step()
                ctx.check(close(E.compute_cumulative_error(f, x), [r_ced(f, q) for q in x]), 'infinite', str(f))
                ctx.check(abs(fr - sum(1 for v in f if v > mx) / float(len(f))) < 1e-9, 'infinite', lambda: 'failure rate %s of %s' % (fr, f))
                if len(x) > 1:
                    ctx.check(abs(auc - simpson([r_ced(f, q) for q in x], x) / mx) < 1e-9, 'infinite', lambda: 'area %s of %s' % (auc, f))
            for a, b, (step, mx, mn) in ((e, [0.125], (0.125, 0.5, 0.0)), (e, [0.75, 0.25], (0.125, 0.5, 0.0)), (e, [0.5, 1.0, 0.25], (0.125, 0.5, 0.25))):
                for conv in (list, np.array):
                    g = E.compute_statistical_measures([conv(a), conv(b)], step_error=step, max_error=mx, min_error=mn)
                    ctx.check(close(np.array(g), np.array([ref(a, step, mx, mn), ref(b, step, mx, mn)]).T), 'multi',
                              lambda: str((a, b, g)))
                    ctx.step()
    elif case['kind'] == 'edges':
        step, mx, mn = case['grid']
        # errors just above / below the threshold: failure rate counts exactly those above
        eps = step * 0.25
        for e in itertools.product([mx - eps, mx + eps, mx + 3 * eps, mn + eps], repeat=3):
            auc, fr = E.area_under_curve_and_failure_rate(np.array(e), step, mx, min_error=mn)
            want = sum(1 for v in e if v > mx) / 3.
            ctx.step()
            ctx.state(fr, round(float(auc), 9))
            ctx.check(abs(fr - want) < 1e-9, 'fr-edge', lambda: 'errors %s max %s step %s: failure rate %s expected %s' % (
                e, mx, step, fr, want))
            x = np.array(grid_of(step, mx, mn))
            if np.abs(np.subtract.outer(np.array(e), x)).min() > step * 1e-3 and len(x) > 1:      # no error on a grid value
                a = simpson([r_ced(e, q) for q in x], x) / mx
                ctx.check(abs(auc - a) < 1e-9, 'auc-grid', lambda: 'errors %s max %s min %s step %s: area %s expected %s' % (e, mx, mn, step, auc, a))
            ctx.check(-1e-9 <= auc <= (mx - mn) / mx + 1e-9, 'auc-range', lambda: 'area %s of %s (%s)' % (auc, e, case['grid']))
    elif case['kind'] == 'table':
        from menpofit.visualize import statistics_table
        types = ['mean', 'std', 'median', 'mad', 'max', 'auc', 'fr']
        if case['pair'] == 0:
            errs = [[0.5, 0.125, 0.25], [0.125, 0.125, 0.0], [1.0, 0.75, 0.25]]
        else:
            errs = [[0.25, 0.25, 0.5, 0.75], [0.5, 0.0, 0.0, 1.0], [0.25, 0.125, 0.3, 0.75], [0.125] * 4]
        names = ['m%d' % i for i in range(len(errs))]
        R = {t: [ref(e, 0.125, 0.5, 0.0)[k] for e in errs] for k, t in enumerate(types)}
        subsets = [None] + [list(c) for k in (1, 2) for c in itertools.permutations(types, k)] + [types[::-1]]
        for st in subsets:
            for rename in (False, True):
                cols = st or types
                sn = ['N_' + c for c in cols] if rename else None
                if rename and st is None:
                    sn = ['N_' + c for c in types]
                for sb in [None] + types:
                    ctx.step()
                    kw = dict(auc_max_error=0.5, auc_error_step=0.125, stats_types=st, stats_names=sn, sort_by=sb)
                    if sb is not None and sb not in cols:
                        ctx.raises(ValueError, lambda: statistics_table([list(e) for e in errs], list(names), **kw), 'sort-reject')
                        continue
                    tab = statistics_table([list(e) for e in errs], list(names), **kw)
                    shown = sn or cols
                    ctx.check(list(tab.columns) == list(shown), 'columns', lambda: '%s %s' % (list(tab.columns), shown))
                    ctx.check(sorted(tab.index) == names, 'index', lambda: str(list(tab.index)))
                    for c, t in zip(shown, cols):
                        for i, nme in enumerate(names):
                            ctx.check(abs(float(tab.loc[nme, c]) - R[t][i]) < 1e-9, 'cell',
                                      lambda: 'cell %s/%s of %s: %s expected %s' % (nme, c, kw, tab.loc[nme, c], R[t][i]))
                    if sb is None:
                        ctx.check(list(tab.index) == names, 'order', lambda: str(list(tab.index)))
                    else:
                        col = [float(v) for v in tab[shown[cols.index(sb)]]]
                        ctx.check(col == sorted(col, reverse=(sb == 'auc')), 'sorted', lambda: '%s %s' % (sb, col))
                    ctx.state(st, rename, sb, [str(x) for x in tab.index])
        ctx.raises(ValueError, lambda: statistics_table(errs, names, 0.5, 0.125, stats_types=['nope']), 'type-reject')
        ctx.raises(ValueError, lambda: statistics_table(errs, names, 0.5, 0.125, stats_types=['mean'], stats_names=['a', 'b']), 'len-reject')
        one = statistics_table(list(errs[0]), ['m'], 0.5, 0.125)
        ctx.check(close(one.values[0], ref(errs[0], 0.125, 0.5, 0.0)), 'single', str(one))
    else:
        import menpo.visualize as mv
        from menpofit.visualize import plot_cumulative_error_distribution as plot
        got = {}
        saved = mv.plot_curve

        def fake(x_axis, y_axis, **k):
            got.update(x=x_axis, y=y_axis, legend=k.get('legend_entries'))
            return got
        mv.plot_curve = fake
        try:
            for rng in (None, [0., 0.5, 0.125], [0.25, 1.01, 0.25], [0, 1, 0.5]):
                for errs in ([0.25, 0.5], [[0.25, 0.5], [0.0, 0.125, 1.0]], [[0.01, 0.05, 0.1]]):
                    ctx.step()
                    plot(errs, error_range=rng)
                    r = rng or [0., 0.101, 0.005]
                    x = np.array(got['x'], float)
                    ctx.check(abs(x[0] - r[0]) < 1e-12 and np.allclose(np.diff(x), r[2]) and x[-1] <= r[1] + r[2] * 0.5
                              and x[-1] >= r[1] - r[2] * 1.001, 'plot-grid', lambda: '%s for %s' % (x, r))
                    lst = errs if isinstance(errs[0], list) else [errs]
                    ctx.check(len(got['y']) == len(lst) and len(got['legend']) == len(lst), 'plot-n', str(got))
                    for e, y in zip(lst, got['y']):
                        ctx.check(close(y, [r_ced(e, q) for q in x]), 'plot-ced', lambda: str((e, y)))
                    ctx.state(str(rng), str(errs))
            ctx.raises(ValueError, lambda: plot([[0.1], [0.2]], legend_entries=['a']), 'legend-reject')
        finally:
            mv.plot_curve = saved
