"""P25 - views and plots draw exactly the data and options they are given.

The figure is the observed state: every call of a bounded space of calls (groups,
subplots, with and without image, options given once, as one-element list, per
group or with a wrong length) is rendered with the real matplotlib (Agg) and the
artists found in the figure are compared with the data.
"""
import itertools
from collections import OrderedDict

import numpy as np

from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of bounded calls of every viewer and plotting function (groups, order, subplots, image, labels, option '
             'forms); the artists of the rendered figure are compared with a model of what was asked for')
RULE = ('ordered selections of landmark groups (plain, graph, labelled) x subplots x image x labels x option forms; result viewers x '
        'rendered shapes x option forms; error lists x grids; deformation models x scales x graphs; a state is a distinct figure')
ASSUMPTIONS = ['matplotlib and menpo render a single shape or curve correctly']
CHUNK = 4

GROUPS = ['plain', 'graph', 'lab']
OPTS = OrderedDict([
    ('line_style', ['-', '--', ':']), ('line_width', [1.0, 2.5, 4]), ('marker_style', ['o', 's', '^']),
    ('marker_size', [5, 7.5, 9]), ('marker_edge_width', [1.0, 2, 3.5]), ('line_colour', ['r', 'g', 'b']),
    ('marker_edge_colour', ['k', 'm', 'c']), ('marker_face_colour', ['y', 'r', 'b']),
    ('render_lines', [True, False, True]), ('render_markers', [True, True, False])])
CURVES = ['line_colour', 'line_style', 'line_width', 'marker_style', 'marker_size', 'marker_face_colour', 'marker_edge_colour', 'marker_edge_width']


def BOUNDS(tier):
    return dict(groups=3, curves=3, scales=3 if tier == 'thorough' else 2)


def cases(tier):
    sel = [list(s) for n in range(4) for s in itertools.permutations(GROUPS, n)]
    for s in sel:
        for ri, sub in itertools.product((True, False), repeat=2):
            yield dict(k='multi', groups=s, image=ri, sub=sub)
    for s in sel:
        if len(s) in (1, 3) or tier == 'thorough':
            yield dict(k='forms', groups=s)
    for n in (1, 2, 3):
        for rng in (None, [0., 0.101, 0.005], [0., 0.5, 0.1], [0.02, 0.06, 0.01], [0.1, 1.0, 0.25]):
            yield dict(k='ced', n=n, range=rng)
    for single in (True, False):
        yield dict(k='result', multi=not single)
        yield dict(k='curves', multi=not single)
    for kind in ('tree', 'chain', 'star', 'dag', 'mst'):
        for sc in ([[1.0], [0.5, 1.0]] if tier == 'quick' else [[1.0], [0.5, 1.0], [0.5, 0.75, 1.0]]):
            yield dict(k='deform', graph=kind, scales=sc)
    for kind in ('tree', 'none'):
        yield dict(k='aps', graph=kind)


# ---------------------------------------------------------------- figures

def plt_():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    return plt


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(np.round(to_rgba(c), 4))


def artists(ax):
    """markers and line sets of an axes, in drawing order"""
    lines, colls = [], []
    for l in ax.lines:
        lines.append(dict(pts=l.get_xydata()[:, ::-1], marker=l.get_marker(), size=l.get_markersize(), mew=l.get_markeredgewidth(),
                          mec=rgba(l.get_markeredgecolor()), mfc=rgba(l.get_markerfacecolor())))
    for c in ax.collections:
        colls.append(dict(segs=np.array(c.get_segments())[:, :, ::-1] if len(c.get_segments()) else np.zeros((0, 2, 2)),
                          colour=rgba(c.get_colors()[0]), width=float(np.atleast_1d(c.get_linewidth())[0]), style=c.get_linestyle()[0]))
    return lines, colls


def dash(style, width):
    from matplotlib.collections import LineCollection
    return LineCollection([], linestyles=style, linewidths=width).get_linestyle()[0]


def scene():
    from menpo.image import Image
    from menpo.shape import PointUndirectedGraph, LabelledPointUndirectedGraph
    im = Image(fx.pixels((44, 50), 3))
    p = fx.base_points(6)
    im.landmarks['plain'] = fx.pc(p)
    im.landmarks['graph'] = PointUndirectedGraph.init_from_edges(p * 0.8 + 3, np.array([[0, 1], [1, 2], [2, 3], [3, 4], [4, 5]]))
    m = OrderedDict([('a', np.array([1, 1, 0, 0, 0, 0], bool)), ('b', np.array([0, 0, 1, 1, 1, 1], bool))])
    im.landmarks['lab'] = LabelledPointUndirectedGraph.init_from_edges(p * 0.7 + 6, np.array([[0, 1], [2, 3], [4, 5]]), m)
    return im


def parts(lm, labels=None):
    """the pieces a shape is drawn in: (points, edges)"""
    if hasattr(lm, 'labels'):
        out = []
        for l in (labels or lm.labels):
            out += parts(lm.get_label(l))
        return out
    e = getattr(lm, 'edges', None)
    if hasattr(lm, 'trilist'):
        e = sorted(set(tuple(sorted((int(t[i]), int(t[j])))) for t in lm.trilist for i, j in ((0, 1), (1, 2), (0, 2))))
    return [(np.array(lm.points), None if e is None else np.array(lm.points)[np.array(e)])]


def same_segments(a, b):
    key = lambda s: sorted(set(tuple(sorted(map(tuple, np.round(x, 6).tolist()))) for x in s))      # an edge may be drawn twice
    return key(a) == key(b)


def expected(im, groups, o, labels=None):
    """per group: marker pieces and line pieces with their options"""
    out = []
    for k, g in enumerate(groups):
        mk, ln = [], []
        for pts, seg in parts(im.landmarks[g], labels[k] if labels else None):
            if o['render_markers'][k]:
                mk.append((pts, k))
            if o['render_lines'][k] and seg is not None:
                ln.append((seg, k))
        out.append((mk, ln))
    return out


def match(ctx, ax, exp, o, msg):
    """artists of an axes against a list of groups"""
    lines, colls = artists(ax)
    mk = [x for e in exp for x in e[0]]
    ln = [x for e in exp for x in e[1]]
    if ctx.check(len(lines) == len(mk), 'shapes', '%s: markers of %d shapes drawn, %d expected' % (msg, len(lines), len(mk))):
        for l, (pts, k) in zip(lines, mk):
            if ctx.check(l['pts'].shape == pts.shape, 'points', '%s: %d points drawn for %d' % (msg, len(l['pts']), len(pts))):
                ctx.close(l['pts'], pts, 'points', msg)
            got = (l['marker'], float(l['size']), float(l['mew']), l['mec'], l['mfc'])
            want = (o['marker_style'][k], float(o['marker_size'][k]), float(o['marker_edge_width'][k]),
                    rgba(o['marker_edge_colour'][k]), rgba(o['marker_face_colour'][k]))
            ctx.check(got == want, 'marker-options', '%s: markers of shape %d drawn as %s, asked for %s' % (msg, k, got, want))
    if ctx.check(len(colls) == len(ln), 'shapes', '%s: lines of %d shapes drawn, %d expected' % (msg, len(colls), len(ln))):
        for c, (seg, k) in zip(colls, ln):
            ctx.check(same_segments(c['segs'], seg), 'lines', '%s: edges of shape %d' % (msg, k))
            got = (c['colour'], c['width'], repr(c['style']))
            want = (rgba(o['line_colour'][k]), float(o['line_width'][k]), repr(dash(o['line_style'][k], o['line_width'][k])))
            ctx.check(got == want, 'line-options', '%s: lines of shape %d drawn as %s, asked for %s' % (msg, k, got, want))


def legend(ctx, ax, names, exp, o, msg):
    """every entry shows the style of the group it names"""
    leg = ax.get_legend()
    drawn = [k for k, e in enumerate(exp) if e[0] or e[1]]
    if not ctx.check(leg is not None or not drawn, 'legend', '%s: no legend' % msg) or leg is None:
        return
    texts = [t.get_text() for t in leg.get_texts()]
    if not ctx.check(texts == [names[k] for k in drawn], 'legend', '%s: legend %s, expected %s' % (msg, texts, [names[k] for k in drawn])):
        return
    hs = leg.legend_handles if hasattr(leg, 'legend_handles') else leg.legendHandles
    for h, k in zip(hs, drawn):
        mark = h.get_marker() if hasattr(h, 'get_marker') else 'None'
        if mark not in ('None', None, '', ' '):
            got = (mark, rgba(h.get_markerfacecolor()))
            want = (o['marker_style'][k], rgba(o['marker_face_colour'][k]))
        else:
            col = h.get_color()
            got = (rgba(col[0] if np.ndim(col) == 2 else col),)
            want = (rgba(o['line_colour'][k]),)
        ctx.check(got == want, 'legend', '%s: entry %r shows %s, the shape is drawn with %s' % (msg, names[k], got, want))


def full(n, over=None):
    o = {a: v[:n] for a, v in OPTS.items()}
    o.update(over or {})
    return o


def multi(case, ctx):
    from menpofit.visualize import view_image_multiple_landmarks as view
    plt = plt_()
    im = scene()
    G = case['groups']
    n = len(G)
    flags = list(itertools.product((True, False), repeat=n))
    labels = [None, ['a'], ['b', 'a']] + ([[['a'] if g == 'lab' else None for g in G], [['b'] for g in G]] if n else [])
    for leg, titles in itertools.product((True, False), (None, {g: 'T' + g for g in G})):
        for mk, ln in itertools.product(flags, repeat=2):
            if (titles is not None or not leg) and not (all(mk) and all(ln)):
                continue
            for wl in labels if all(mk) and all(ln) else [None]:
                o = full(n, dict(render_markers=list(mk), render_lines=list(ln)))
                msg = '%s legend=%s titles=%s markers=%s lines=%s labels=%s' % (case, leg, bool(titles), mk, ln, wl)
                before = repr((o, wl, titles))
                px = im.pixels.copy()
                try:
                    view(im, list(G), with_labels=wl, new_figure=True, subplots_enabled=case['sub'], subplots_titles=titles,
                         render_image=case['image'], render_legend=leg, render_numbering=(n == 1), **o)
                    f = plt.gcf()
                    ctx.step()
                    ctx.trace()
                    ctx.check(len(plt.get_fignums()) == 1, 'figure', '%s: %d figures' % (msg, len(plt.get_fignums())))
                    ctx.check(repr((o, wl, titles)) == before, 'arguments', '%s: the arguments were changed' % msg)
                    ctx.check(np.array_equal(px, im.pixels) and sorted(im.landmarks.keys()) == sorted(GROUPS), 'image', msg)
                    names = [(titles or {}).get(g, g) for g in G]
                    lab = None
                    if wl is not None:
                        lab = [wl] * n if isinstance(wl[0], str) else wl
                        lab = [l if g == 'lab' else None for l, g in zip(lab, G)]
                    exp = expected(im, G, o, lab)
                    want_ax = max(1, n) if case['sub'] else 1
                    if n == 0 and not case['image']:
                        want_ax = None
                    if want_ax is not None and not ctx.check(len(f.axes) == want_ax, 'axes', '%s: %d axes, %d expected' % (msg, len(f.axes), want_ax)):
                        continue
                    for i, ax in enumerate(f.axes):
                        if case['image']:
                            ctx.check(len(ax.images) >= 1 and np.allclose(np.squeeze(ax.images[-1].get_array()), im.pixels[0]), 'image',
                                      '%s: the image shown is not the image given' % msg)
                        else:
                            ctx.check(len(ax.images) == 0, 'image', '%s: an image is shown' % msg)
                    if n == 0:
                        continue
                    if case['sub']:
                        for k, ax in enumerate(f.axes):
                            one = [([], [])] * k + [exp[k]]
                            match(ctx, ax, one, o, '%s subplot %d' % (msg, k))
                            ctx.check(ax.get_title() == (names[k] if leg else ''), 'title', '%s: subplot %d is titled %r' % (msg, k, ax.get_title()))
                            ctx.check(ax.get_legend() is None, 'legend', '%s: subplot %d has a legend' % (msg, k))
                    else:
                        match(ctx, f.axes[0], exp, o, msg)
                        if leg:
                            legend(ctx, f.axes[0], names, exp, o, msg)
                        else:
                            ctx.check(f.axes[0].get_legend() is None, 'legend', '%s: unrequested legend' % msg)
                    if n == 1 and mk[0]:
                        nums = sum(len(ax.texts) for ax in f.axes)
                        want = sum(len(p) for p, _ in exp[0][0])
                        ctx.check(nums == want, 'numbering', '%s: %d numbers, %d landmarks' % (msg, nums, want))
                    ctx.state(str(case), leg, mk, ln, str(wl))
                finally:
                    plt.close('all')
    # landmarks not rendered: the image alone
    if case['image']:
        try:
            view(im, list(G), new_figure=True, subplots_enabled=case['sub'], render_landmarks=False)
            f = plt.gcf()
            ctx.step()
            ctx.check(len(f.axes) == 1 and not f.axes[0].lines and not f.axes[0].collections and len(f.axes[0].images) == 1, 'no-landmarks',
                      '%s: landmarks drawn although not requested' % case)
        finally:
            plt.close('all')


def forms(case, ctx):
    """every option once, as a one-element list, per group, or rejected"""
    from menpofit.visualize import view_image_multiple_landmarks as view
    plt = plt_()
    im = scene()
    G = case['groups']
    n = len(G)
    base = {a: v[0] for a, v in OPTS.items()}
    wrong = dict(line_style=3, line_width='1', marker_style=None, marker_size='a', marker_edge_width=None, render_lines='yes', render_markers=None)
    for a, vals in OPTS.items():
        for v in vals:
            for form in ('once', 'list1'):
                if 'colour' in a and form == 'list1' and n > 1:
                    continue
                arg = v if form == 'once' else [v]
                keep = repr(arg)
                o = full(n, {b: [w] * n for b, w in base.items()})
                o[a] = [v] * n
                for ri in (True, False):
                    try:
                        view(im, list(G), new_figure=True, subplots_enabled=False, render_image=ri, render_legend=False, **dict(base, **{a: arg}))
                        ctx.step()
                        ctx.trace()
                        msg = '%s %s=%s image=%s' % (G, a, keep, ri)
                        ctx.check(repr(arg) == keep, 'arguments', '%s: the list given by the caller was changed to %s' % (msg, arg))
                        match(ctx, plt.gcf().axes[0], expected(im, G, o), o, msg)
                        ctx.state(a, str(v), form, tuple(G), ri)
                    finally:
                        plt.close('all')
        for bad in [[vals[0]] * m for m in (0, 2, 3, 4) if m not in (1, n)]:
            rejected(ctx, view, im, G, base, a, bad, plt)
        if a in wrong:
            rejected(ctx, view, im, G, base, a, wrong[a], plt)
    for bad in ('a', 3, [['a']] * (n + 1)):
        rejected(ctx, view, im, G, base, 'with_labels', bad, plt)


def rejected(ctx, view, im, G, base, a, bad, plt):
    try:
        view(im, list(G), new_figure=True, subplots_enabled=False, **dict(base, **{a: bad}))
        ctx.bad('accepted', '%s groups: %s=%r was accepted' % (len(G), a, bad))
    except ValueError:
        ctx.step()
    except Exception as e:
        ctx.bad('accepted', '%s groups: %s=%r: %s instead of a ValueError' % (len(G), a, bad, type(e).__name__))
    finally:
        plt.close('all')


# ---------------------------------------------------------------- curves

ERR = [[0.0, 0.05, 0.05, 0.1, 0.3], [0.005, 0.02, 0.045], [0.9]]


def curve(ctx, ax, k, x, y, o, msg):
    l = ax.lines[k]
    d = l.get_xydata()
    if ctx.check(d.shape == (len(x), 2), 'curve', '%s: %d points for %d values' % (msg, len(d), len(x))):
        ctx.close(d, np.column_stack([x, y]), 'curve', msg)
    got = (rgba(l.get_color()), l.get_linestyle(), float(l.get_linewidth()), l.get_marker(), float(l.get_markersize()),
           rgba(l.get_markerfacecolor()), rgba(l.get_markeredgecolor()), float(l.get_markeredgewidth()))
    want = tuple(rgba(v) if 'colour' in a else (float(v) if not isinstance(v, str) else v) for a, v in zip(CURVES, o))
    ctx.check(got == want, 'curve-options', '%s: drawn as %s, asked for %s' % (msg, got, want))


def ced(case, ctx):
    from menpofit.visualize import plot_cumulative_error_distribution as plot
    plt = plt_()
    n, rng = case['n'], case['range']
    E = ERR[:n]
    col = [OPTS[a][:n] for a in CURVES]
    for single in ((True, False) if n == 1 else (False,)):
        for names in (None, ['c%d' % i for i in range(n)]):
            for lim in (None, (0., 2.)):
                err = list(E[0]) if single else [list(e) for e in E]
                keep = repr((err, rng))
                try:
                    plot(err, error_range=rng, legend_entries=names, axes_x_limits=lim, new_figure=True, title='ti', x_label='xx', y_label='yy',
                         **{a: list(c) for a, c in zip(CURVES, col)})
                    ctx.step()
                    ctx.trace()
                    msg = '%s single=%s names=%s' % (case, single, names)
                    ctx.check(repr((err, rng)) == keep, 'arguments', '%s: the arguments were changed' % msg)
                    ax = plt.gca()
                    a, b, s = rng or [0., 0.101, 0.005]
                    x = []
                    while a + len(x) * s < b - 1e-12:
                        x.append(a + len(x) * s)
                    if ctx.check(len(ax.lines) == n, 'curve', '%s: %d curves' % (msg, len(ax.lines))):
                        for k in range(n):
                            y = [sum(e <= v + 1e-12 for e in E[k]) / float(len(E[k])) for v in x]
                            # grid values that coincide with an error up to rounding may count either way
                            got = ax.lines[k].get_xydata()[:, 1]
                            if len(got) == len(x):
                                y = [g if any(abs(e - v) < 1e-9 for e in E[k]) and g in (
                                    t, sum(e < v - 1e-9 for e in E[k]) / float(len(E[k]))) else t for v, t, g in zip(x, y, got)]
                            curve(ctx, ax, k, x, y, [c[k] for c in col], '%s curve %d' % (msg, k))
                        t = [t.get_text() for t in ax.get_legend().get_texts()]
                        ctx.check(t == (names or ['Curve %d' % i for i in range(n)]), 'legend', '%s: legend %s' % (msg, t))
                    ctx.check((ax.get_title(), ax.get_xlabel(), ax.get_ylabel()) == ('ti', 'xx', 'yy'), 'title', msg)
                    ctx.close(ax.get_ylim(), (0., 1.), 'limits', msg)
                    ctx.close(ax.get_xlim(), lim or (0., x[-1]), 'limits', msg)
                    ctx.state(str(case), single, str(names), str(lim))
                finally:
                    plt.close('all')
    for bad in ([], ['a'] * (n + 1)):
        try:
            plot([list(e) for e in E], error_range=rng, legend_entries=bad, new_figure=True)
            ctx.bad('accepted', '%s: %d legend entries for %d curves' % (case, len(bad), n))
        except ValueError:
            ctx.step()
        finally:
            plt.close('all')


def err(a, b):
    return float(np.abs(a.points - b.points).max())


def results(multi):
    """one result of every kind, from real fits"""
    im = fx.make_image(7)
    gt = im.landmarks['PTS']
    ini = fx.pc(gt.points + [1.0, -0.8])
    sc = dict(scales=(0.5, 1.0) if multi else 1.0)
    from vlib import fitters
    for name in ('aam:HolisticAAM:WibergInverseCompositional', 'lk:DifferentiableAlignmentAffine:ForwardAdditive:SSD', 'aps:tree:Inverse', 'sdm:NonParametricNewton',
                 'clm:ActiveShapeModel'):
        mk = fitters.model_kind(name)
        m = fitters.model(mk, **sc) if mk else None
        f = fitters.fitter(name, m, **({} if mk else dict(sc, **({} if multi or name.startswith('lk') else dict(patch_shape=(5, 5), n_iterations=2)))))
        kw = {} if name.startswith('sdm') else dict(max_iters=2, return_costs=fitters.has_costs(name))
        for g in (gt, None):
            yield name, im, f.fit_from_shape(im, ini, gt_shape=g, **kw)
            if not multi and hasattr(f, 'algorithms') and not name.startswith('sdm'):
                yield name + ' algorithm', im, f.algorithms[0].run(im, ini, gt_shape=g, **kw)


def result_views(case, ctx):
    plt = plt_()
    for name, im, r in results(case['multi']):
        own = sorted(r.image.landmarks), r.image.pixels.copy()

        def unchanged(msg):
            ctx.check(sorted(r.image.landmarks) == own[0] and np.array_equal(r.image.pixels, own[1]), 'result-image-changed',
                      '%s: image of the result has landmarks %s instead of %s' % (msg, sorted(r.image.landmarks), own[0]))
        for fin, ini, g, sub, ri in itertools.product((True, False), repeat=5):
            want = ([('Final', r.final_shape, 0)] if fin else []) + ([('Initial', r.initial_shape, 1)] if ini else []) + (
                [('Groundtruth', r.gt_shape, 2)] if g and r.gt_shape is not None else [])
            n = len(want)
            o = full(n)
            o['render_lines'] = [True] * n
            o['render_markers'] = [True] * n
            kw = {a: (v if n else v[:0]) for a, v in o.items() if 'colour' not in a}
            if n == 0:
                kw = {}
            for k, who in enumerate(('final', 'initial', 'gt')):
                for a in ('marker_face_colour', 'marker_edge_colour', 'line_colour'):
                    kw['%s_%s' % (who, a)] = OPTS[a][k]
            for a in ('marker_face_colour', 'marker_edge_colour', 'line_colour'):
                o[a] = [OPTS[a][w[2]] for w in want]
            msg = '%s final=%s initial=%s gt=%s subplots=%s image=%s' % (name, fin, ini, g, sub, ri)
            try:
                r.view(new_figure=True, render_final_shape=fin, render_initial_shape=ini, render_gt_shape=g, subplots_enabled=sub,
                       render_image=ri, **kw)
                f = plt.gcf()
                ctx.step()
                ctx.trace()
                ctx.state(msg, case['multi'])
                exp = [([(p, k) for p, _ in parts(w[1])], [(s, k) for _, s in parts(w[1]) if s is not None]) for k, w in enumerate(want)]
                if ri:
                    for ax in f.axes:
                        ctx.check(len(ax.images) >= 1 and np.allclose(np.squeeze(ax.images[-1].get_array()), im.pixels[0]), 'image', msg)
                if not n:
                    continue
                if sub:
                    if ctx.check(len(f.axes) == n, 'axes', '%s: %d axes' % (msg, len(f.axes))):
                        for k, ax in enumerate(f.axes):
                            match(ctx, ax, [([], [])] * k + [exp[k]], o, '%s subplot %d' % (msg, k))
                            ctx.check(ax.get_title() == want[k][0], 'title', '%s: subplot %d titled %r' % (msg, k, ax.get_title()))
                else:
                    match(ctx, f.axes[0], exp, o, msg)
                    legend(ctx, f.axes[0], [w[0] for w in want], exp, o, msg)
            finally:
                plt.close('all')
                unchanged(msg)
        # iterations with one style each
        if hasattr(r, 'shapes'):
            n = min(len(r.shapes), 3)
            for it in itertools.permutations(range(len(r.shapes)), n):
                it = list(it)
                o = full(n)
                for sub in (False, True):
                    msg = '%s view_iterations %s subplots=%s' % (name, it, sub)
                    try:
                        r.view_iterations(iters=list(it), new_figure=True, subplots_enabled=sub, **o)
                        ctx.step()
                        ctx.trace()
                        f = plt.gcf()
                        exp = []
                        for k, i in enumerate(it):
                            ps = parts(r.shapes[i])
                            exp.append(([(p, k) for p, _ in ps] if o['render_markers'][k] else [],
                                        [(s, k) for _, s in ps if s is not None] if o['render_lines'][k] else []))
                        if sub:
                            for k, ax in enumerate(f.axes):
                                match(ctx, ax, [([], [])] * k + [exp[k]], o, '%s subplot %d' % (msg, k))
                        else:
                            match(ctx, f.axes[0], exp, o, msg)
                    finally:
                        plt.close('all')
                        unchanged(msg)


def one_curve(ctx, plt, fn, y, title, ylabel, msg):
    o = [OPTS[a][1] for a in CURVES]
    try:
        fn(new_figure=True, **dict(zip(CURVES, o)))
        ctx.step()
        ctx.trace()
        ax = plt.gca()
        if ctx.check(len(ax.lines) == 1, 'curve', '%s: %d curves' % (msg, len(ax.lines))):
            curve(ctx, ax, 0, list(range(len(y))), y, o, msg)
        for w in title:
            ctx.check(w in ax.get_title().lower(), 'title', '%s: titled %r' % (msg, ax.get_title()))
        for w in ylabel:
            ctx.check(w in ax.get_ylabel().lower(), 'title', '%s: labelled %r' % (msg, ax.get_ylabel()))
        ctx.check('iteration' in ax.get_xlabel().lower(), 'title', '%s: labelled %r' % (msg, ax.get_xlabel()))
    finally:
        plt.close('all')


def must_raise(ctx, fn, msg, plt):
    try:
        fn()
        ctx.bad('accepted', '%s: no error' % msg)
    except ValueError:
        ctx.step()
    except Exception as e:
        ctx.bad('accepted', '%s: %s: %s' % (msg, type(e).__name__, e))
    finally:
        plt.close('all')


def curves(case, ctx):
    plt = plt_()
    import functools
    for name, im, r in results(case['multi']):
        S = [np.array(s.points) for s in r.shapes]
        D = [np.sqrt(((b - a) ** 2).sum(1)) for a, b in zip(S, S[1:])]
        msg = '%s multi=%s' % (name, case['multi'])
        ctx.state(msg, r.gt_shape is None)
        for st, fn in (('mean', np.mean), ('median', np.median), ('max', np.max), ('min', np.min)):
            one_curve(ctx, plt, functools.partial(r.plot_displacements, stat_type=st), [fn(d) for d in D],
                      [st[:3] if st != 'median' else 'median', 'displacement'], [st[:3] if st != 'median' else 'median'], '%s %s displacements' % (msg, st))
        one_curve(ctx, plt, r.plot_displacements, [d.mean() for d in D], ['mean'], ['mean'], msg + ' displacements')
        must_raise(ctx, lambda: r.plot_displacements(stat_type='sum'), msg + ' unknown statistic', plt)
        if r.gt_shape is not None:
            g = r.gt_shape.points
            one_curve(ctx, plt, functools.partial(r.plot_errors, compute_error=err), [np.abs(s - g).max() for s in S], ['error'], ['error'],
                      msg + ' errors')
            one_curve(ctx, plt, r.plot_errors, [r.errors()[i] for i in range(len(S))], ['error'], ['error'], msg + ' default errors')
        else:
            must_raise(ctx, lambda: r.plot_errors(), msg + ' errors without ground truth', plt)
        if r.costs is not None:
            one_curve(ctx, plt, r.plot_costs, list(r.costs), ['cost'], ['cost'], msg + ' costs')
        else:
            must_raise(ctx, lambda: r.plot_costs(), msg + ' costs that were not computed', plt)


# ---------------------------------------------------------------- deformation models

def graph(kind, n=6):
    from menpo.shape import Tree, DirectedGraph
    if kind == 'tree':
        return fam.ring_tree()[1]
    if kind == 'chain':
        return Tree.init_from_edges(np.array([[i, i + 1] for i in range(n - 1)]), n, 0)
    if kind == 'star':
        return Tree.init_from_edges(np.array([[0, i] for i in range(1, n)]), n, 0)
    if kind == 'dag':
        return DirectedGraph.init_from_edges(np.array([[5, 0], [5, 1], [4, 2], [3, 1], [2, 0]]), n)
    return None


def deform(case, ctx):
    plt = plt_()
    sc = case['scales']
    m = fam.aps(dg=graph(case['graph']), scales=sc, patch_shape=[(5, 5)] * len(sc))
    for j in list(range(len(sc))) + [-1]:
        dg = m.deformation_graph[j]
        mean = np.array(m.shape_models[j].model.mean().points)
        Q = m.deformation_models[j].precision
        Q = np.array(Q.todense()) if hasattr(Q, 'todense') else np.array(Q)
        for view, n_std in itertools.product((True, False), (1, 2, 3.5)):
            msg = '%s scale %d image_view=%s n_std=%s' % (case, j, view, n_std)
            try:
                kw = dict(scale_index=j) if j != -1 else {}
                m.view_deformation_model(n_std=n_std, image_view=view, new_figure=True, ellipse_line_colour='g', ellipse_line_width=2.5, **kw)
                ax = plt.gca()
                ctx.step()
                ctx.trace()
                ctx.state(str(case), j, view, n_std)
                E = np.array(dg.edges)
                if not ctx.check(len(ax.patches) == len(E), 'ellipses', '%s: %d ellipses for %d edges' % (msg, len(ax.patches), len(E))):
                    continue
                sw = (lambda p: np.asarray(p)[..., ::-1]) if view else np.asarray
                for el, (p, c) in zip(ax.patches, E):
                    ctx.close(sw(el.get_center()), mean[c], 'ellipse-centre', '%s edge %d-%d' % (msg, p, c))
                    # the edge's block of the precision is minus the inverse covariance of the relative location
                    C = np.linalg.inv(-Q[2 * c:2 * c + 2, 2 * p:2 * p + 2])
                    C = (C + C.T) / 2
                    w, h = sorted([el.width, el.height])
                    ctx.close([w, h], 2 * n_std * np.sqrt(np.linalg.eigvalsh(C)), 'ellipse-size', '%s edge %d-%d' % (msg, p, c), rtol=1e-4)
                    if not view:
                        t = np.radians(el.angle)
                        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                        got = R.dot(np.diag([(el.width / 2 / n_std) ** 2, (el.height / 2 / n_std) ** 2])).dot(R.T)
                        ctx.close(got, C, 'ellipse-shape', '%s edge %d-%d' % (msg, p, c), rtol=1e-4, atol=1e-6 * np.abs(C).max())
                    ctx.check(rgba(el.get_edgecolor()) == rgba('g') and el.get_linewidth() == 2.5, 'ellipse-options', msg)
                lines = [sw(l.get_xydata()) for l in ax.lines]
                ctx.check(any(l.shape == mean.shape and np.allclose(l, mean) for l in lines), 'graph', '%s: the mean shape is not drawn' % msg)
                segs = [np.array([sw(s) for s in c.get_segments()]) for c in ax.collections]
                ctx.check(any(same_segments(s, mean[E]) for s in segs), 'graph', '%s: the edges of the deformation graph are not drawn' % msg)
            finally:
                plt.close('all')


def aps(case, ctx):
    """the cost curves of pictorial structures"""
    plt = plt_()
    m = fam.aps() if case['graph'] == 'tree' else fam.aps(dg=None)
    im = fx.make_image(7)
    ini = fx.pc(im.landmarks['PTS'].points + [0.5, -0.4])
    for alg in fam.APS_ALGS:
        f = fam.aps_fitter(m, alg, n_shape=3)
        for it in (0, 1, [2, 1], 5):
            r = f.fit_from_shape(im, ini, max_iters=it, return_costs=True)
            msg = 'aps %s %s' % (alg, it)
            one_curve(ctx, plt, r.plot_costs, list(r.costs), ['cost'], ['cost'], msg)
            ctx.check(len(r.costs) == len(r.appearance_costs) == len(r.deformation_costs), 'aps-costs', '%s: %d %d %d' % (
                msg, len(r.costs), len(r.appearance_costs), len(r.deformation_costs)))
            ctx.close(r.costs, np.array(r.appearance_costs) + np.array(r.deformation_costs), 'aps-costs', msg)
            ctx.state(msg)
        r = f.fit_from_shape(im, ini, max_iters=1)
        must_raise(ctx, lambda: r.plot_costs(), 'aps costs that were not computed', plt)


def run(case, ctx):
    dict(multi=multi, forms=forms, ced=ced, result=result_views, curves=curves, deform=deform, aps=aps)[case['k']](case, ctx)
