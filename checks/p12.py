"""P12 - landmark error measures compute their documented distances."""
import itertools
import numpy as np

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of small shapes on a lattice and of every landmark index, against a plain reference'
RULE = ('every pair of 2-point lattice shapes (and of 3-point shapes against fixed ground truths) x every measure x '
        'argument form; every facial mark-up pair x every landmark displaced in turn; non-trivial = distinct error value')
ASSUMPTIONS = ['coordinates are taken from a small lattice; measures are piecewise smooth in between']


# ---- reference -------------------------------------------------------------
def r_rms(s, g):
    t = 0.0
    for p, q in zip(s, g):
        for a, b in zip(p, q):
            t += (a - b) ** 2
    return (t / (len(s) * len(s[0]))) ** 0.5


def r_euc(s, g):
    return sum(dist(p, q) for p, q in zip(s, g)) / len(s)


def r_box(s):
    ys, xs = [p[0] for p in s], [p[1] for p in s]
    return max(ys) - min(ys), max(xs) - min(xs)


NORM = {'area': lambda h, w: h * w, 'perimeter': lambda h, w: 2 * (h + w),
        'avg_edge_length': lambda h, w: (h + w) / 2.0, 'diagonal': lambda h, w: (h * h + w * w) ** 0.5}


def dist(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q)) ** 0.5


# ---- cases -----------------------------------------------------------------
def cases(tier):
    lat = [(y, x) for y in range(3) for x in range(3)]
    s2 = list(itertools.product(lat, repeat=2))
    step = 3 if tier == 'quick' else 1
    for i, g in enumerate(s2[::step]):
        yield dict(kind='pair', gt=g)
    s3 = [((0, 0), (2, 1), (1, 2)), ((0, 2), (5, 1), (3, 0)), ((-1, -2), (0, 7), (4, 4))]
    for g in s3:
        yield dict(kind='trip', gt=g)
    for n in (68, 66, 51, 49):
        for m in (68, 66, 51, 49):
            yield dict(kind='face', n=n, m=m, tier=tier)
    yield dict(kind='sizes')
    for g in (((0, 0, 0), (1, 2, 3)), ((2, 0, 1), (0, 0, 5)), ((1, 1, 1), (4, 1, 1))):
        yield dict(kind='deep', gt=g)
    for sc in (1e-3, 1e3):
        yield dict(kind='magnitude', sc=sc)


def same(ctx, got, want, key, msg):
    ctx.step()
    got = float(got)
    ok = abs(got - want) <= 1e-9 * max(1.0, abs(want))
    ctx.state(round(want, 9))
    ctx.check(ok, key, lambda: '%s: got %r expected %r' % (msg() if callable(msg) else msg, got, want))


def measures(ctx, s, g, laws):
    import menpofit.error as E
    from menpo.shape import PointCloud
    sa, ga = np.array(s, dtype=float), np.array(g, dtype=float)
    sp, gp = PointCloud(sa), PointCloud(ga)
    h, w = r_box(g)
    tag = lambda: 's=%s g=%s' % (s, g)
    for f, r in ((E.root_mean_square_error, r_rms), (E.euclidean_error, r_euc)):
        same(ctx, f(sp, gp), r(s, g), f.__name__, tag)
        same(ctx, f(sa, ga), r(s, g), f.__name__, tag)
        same(ctx, f(shape=sp, gt_shape=ga), r(s, g), f.__name__, tag)
        if laws:
            t = np.array([7., -3.])
            same(ctx, f(PointCloud(sa + t), PointCloud(ga + t)), r(s, g), 'translate', tag)
            same(ctx, f(gp, gp), 0.0, 'zero', tag)
            if s != g:
                ctx.check(f(sp, gp) > 0, 'positive', tag)
    for nt, nf in NORM.items():
        bf = {'area': E.bb_area, 'perimeter': E.bb_perimeter, 'avg_edge_length': E.bb_avg_edge_length,
              'diagonal': E.bb_diagonal}[nt]
        hh, ww = r_box(s)
        same(ctx, bf(sa), nf(hh, ww), bf.__name__, tag)
        same(ctx, bf(sp), nf(hh, ww), bf.__name__ + '_points', tag)
        if nf(h, w) != 0:
            same(ctx, E.root_mean_square_bb_normalised_error(sp, gp, norm_type=nt), r_rms(s, g) / nf(h, w), 'rms_bb', tag)
            same(ctx, E.euclidean_bb_normalised_error(sp, gp, norm_type=nt), r_euc(s, g) / nf(h, w), 'euc_bb', tag)
            if laws and nt != 'area':
                for sc in (2.0, 0.25):
                    same(ctx, E.euclidean_bb_normalised_error(PointCloud(sa * sc), PointCloud(ga * sc), norm_type=nt),
                         r_euc(s, g) / nf(h, w), 'scale', tag)
        if nf(hh, ww) != 0:
            same(ctx, E.root_mean_square_bb_normalised_error(sp, gp, norm_shape=sp, norm_type=nt),
                 r_rms(s, g) / nf(hh, ww), 'rms_bb_ns', tag)
            same(ctx, E.euclidean_bb_normalised_error(sp, gp, norm_shape=sp, norm_type=nt),
                 r_euc(s, g) / nf(hh, ww), 'euc_bb_ns', tag)
    if NORM['avg_edge_length'](h, w):
        same(ctx, E.euclidean_bb_normalised_error(sp, gp), r_euc(s, g) / ((h + w) / 2.), 'default_norm', tag)
        same(ctx, E.root_mean_square_bb_normalised_error(sp, gp), r_rms(s, g) / ((h + w) / 2.), 'default_norm', tag)
    for i in range(len(g)):
        for j in range(len(g)):
            d = dist(g[i], g[j])
            same(ctx, E.distance_two_indices(i, j, ga), d, 'two_idx', tag)
            same(ctx, E.distance_two_indices(i, j, gp), d, 'two_idx_points', tag)
            if d:
                same(ctx, E.euclidean_distance_indexed_normalised_error(sp, gp, i, j), r_euc(s, g) / d, 'euc_idx', tag)
                same(ctx, E.root_mean_square_distance_indexed_normalised_error(sp, gp, i, j), r_rms(s, g) / d, 'rms_idx', tag)

    def nf(a, b):
        a, b = getattr(a, 'points', a), getattr(b, 'points', b)
        return 2.0 + 3 * a[0, 0] + 5 * b[0, 1] + 40
    want = 42.0 + 3 * s[0][0] + 5 * g[0][1]
    same(ctx, E.euclidean_distance_normalised_error(sp, gp, nf), r_euc(s, g) / want, 'euc_dist', tag)
    same(ctx, E.root_mean_square_distance_normalised_error(sp, gp, nf), r_rms(s, g) / want, 'rms_dist', tag)
    ctx.check(np.array_equal(sp.points, np.array(s, float)) and np.array_equal(gp.points, np.array(g, float)),
              'mutated', tag)


def face68():
    i = np.arange(68)
    p = np.stack([40 + 25 * np.sin(0.37 * i) + 0.13 * i + (i % 5), 50 + 30 * np.cos(0.71 * i) + 0.29 * i + (i % 3)], 1)
    return p


def conv(p68, n):
    idx = {68: list(range(68)), 66: [k for k in range(68) if k not in (60, 64)],
           51: list(range(17, 68)), 49: [k for k in range(17, 68) if k not in (60, 64)]}[n]
    return idx, p68[idx]


FACES = dict(
    mean_pupil_68_error=(68, [68], [68]), mean_pupil_49_error=(49, [68, 66, 51, 49], [68, 66, 51, 49]),
    outer_eye_corner_68_euclidean_error=(68, [68], [68]),
    outer_eye_corner_51_euclidean_error=(51, [68, 51], [68, 51]),
    outer_eye_corner_49_euclidean_error=(49, [68, 66, 51, 49], [68, 66, 51, 49]),
    bb_avg_edge_length_68_euclidean_error=(68, [68], [68]),
    bb_avg_edge_length_49_euclidean_error=(49, [68, 66, 51, 49], [68]))


def ref_face(name, s68, g68):
    """s68/g68: full 68-point arrays from which the mark-ups are cut"""
    k = FACES[name][0]
    idx, _ = conv(s68, k)
    err = r_euc(s68[idx], g68[idx])
    if name.startswith('mean_pupil'):
        n = dist(g68[36:42].mean(0), g68[42:48].mean(0))
    elif name.startswith('outer'):
        n = dist(g68[36], g68[45])
    else:
        h, w = r_box(g68)
        n = (h + w) / 2.
    return err / n


def run(case, ctx):
    import menpofit.error as E
    from menpo.shape import PointCloud
    if case['kind'] == 'pair':
        lat = [(y, x) for y in range(3) for x in range(3)]
        g = tuple(tuple(p) for p in case['gt'])
        for k, s in enumerate(itertools.product(lat, repeat=2)):
            measures(ctx, s, g, k % 3 == 0)
    elif case['kind'] == 'trip':
        g = tuple(tuple(p) for p in case['gt'])
        lat = [(y, x) for y in (0, 1, 4) for x in (-1, 2)]
        for s in itertools.product(lat, repeat=3):
            measures(ctx, s, g, True)
        ctx.raises(ValueError, lambda: E.euclidean_bb_normalised_error(
            PointCloud(np.array(g, float)), PointCloud(np.array(g, float)), norm_type='nope'), 'norm_type')
    elif case['kind'] == 'deep':
        g = tuple(tuple(p) for p in case['gt'])
        lat = list(itertools.product((0, 2), repeat=3))
        for a, b in itertools.product(lat, repeat=2):
            ga, sa = np.array(g, float), np.array((a, b), float)
            for f, r in ((E.root_mean_square_error, r_rms), (E.euclidean_error, r_euc)):
                same(ctx, f(PointCloud(sa), PointCloud(ga)), r((a, b), g), f.__name__ + '-3d', '%s %s' % (a, b))
            d = dist(g[0], g[1])
            same(ctx, E.distance_two_indices(0, 1, ga), d, 'two_idx-3d', str(g))
            same(ctx, E.euclidean_distance_indexed_normalised_error(PointCloud(sa), PointCloud(ga), 0, 1),
                 r_euc((a, b), g) / d, 'euc_idx-3d', '%s %s' % (a, b))
            same(ctx, E.root_mean_square_distance_indexed_normalised_error(PointCloud(sa), PointCloud(ga), 0, 1),
                 r_rms((a, b), g) / d, 'rms_idx-3d', '%s %s' % (a, b))
    elif case['kind'] == 'magnitude':
        sc = case['sc']
        lat = [(y * sc, x * sc) for y in (0, 1, 4) for x in (-1, 2)]
        g = ((0, 0), (2 * sc, sc), (sc, 2 * sc))
        for s in itertools.product(lat, repeat=3):
            measures(ctx, s, g, False)
    elif case['kind'] == 'face':
        n, m = case['n'], case['m']
        g68 = face68()
        base = g68 + np.stack([np.sin(np.arange(68)), np.cos(2 * np.arange(68))], 1)
        for name, (_, ns, ms) in FACES.items():
            f = getattr(E, name)
            if n not in ns or m not in ms:
                _, a = conv(base, n)
                _, b = conv(g68, m)
                ctx.raises(ValueError, lambda: f(PointCloud(a), PointCloud(b)), name + '-reject', '%s %d %d' % (name, n, m))
                ctx.step()
                continue
            variants = [(base, g68)]
            for j in range(68):
                for d in ((9., 0), (0, -11.)) if j % 2 or case['tier'] == 'thorough' else ((7., 5.),):
                    s2, g2 = base.copy(), g68.copy()
                    s2[j] += d
                    g2[j] += d
                    variants += [(s2, g68), (base, g2), (s2, g2)]
            for s68, gg in variants:
                _, a = conv(s68, n)
                _, b = conv(gg, m)
                A, B = PointCloud(a.copy()), PointCloud(b.copy())
                same(ctx, f(A, B), ref_face(name, s68, gg), name, lambda: '%d->%d points' % (n, m))
                ctx.check(np.array_equal(A.points, a) and np.array_equal(B.points, b), 'mutated', name)
            _, a = conv(base, n)
            _, b = conv(g68, m)
            t = np.array([100., -50.])
            same(ctx, f(PointCloud(a + t), PointCloud(b + t)), ref_face(name, base, g68), 'translate', name)
            same(ctx, f(PointCloud(a * 3), PointCloud(b * 3)), ref_face(name, base, g68), 'scale', name)
            if n == m:
                same(ctx, f(PointCloud(b), PointCloud(b)), 0.0, 'zero', name)
    else:
        for name, (_, ns, ms) in FACES.items():
            f = getattr(E, name)
            for n in list(range(47, 54)) + list(range(64, 71)):
                for m in list(range(47, 54)) + list(range(64, 71)):
                    ctx.step()
                    a = np.arange(2. * n).reshape(n, 2) ** 1.3
                    b = np.arange(2. * m).reshape(m, 2) ** 1.2
                    if n not in ns or m not in ms:
                        ctx.raises(ValueError, lambda: f(PointCloud(a), PointCloud(b)), name + '-reject',
                                   '%s accepts %d/%d points' % (name, n, m))
