"""P15 - generated perturbations are complete, bounded and correctly distributed.

The nondeterminism (random draws) is enumerated: every random source of numpy
is replaced by a scripted one and all combinations of draws from a lattice are
executed on the real functions; the result is compared with an independent
reference of the documented perturbation.
"""
import itertools
import numpy as np
from vlib import fx

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all random-draw sequences over a lattice (controlled nondeterminism) x options x '
             'shapes, and of all image/box/pattern configurations, on the real generators against a reference model')
RULE = ('every sequence of 4 draws from {3 levels} x noise kind x percentage form x rotation flag x source/target pair; '
        'every assignment of 0..2 provided boxes to up to 3 images x number of perturbations x pattern; '
        'a state is a distinct perturbed shape or set of boxes')
ASSUMPTIONS = ['draws are consumed in the order scale, rotation, translation',
               'shapes are two-dimensional (as required by similarity transforms)']
CHUNK = 2


def BOUNDS(tier):
    return dict(draw_levels=3 if tier == 'quick' else 5, shapes=4, images=3, perturbations=3)


class Scripted(object):
    """numpy.random with scripted unit draws; remembers the family used"""
    NAMES = ('rand', 'randn', 'random', 'random_sample', 'ranf', 'uniform', 'normal', 'standard_normal')

    def __init__(self, units):
        self.units = list(units)
        self.used = []

    def _take(self, fam, shape):
        n = int(np.prod(shape)) if shape else 1
        if len(self.units) < n:
            raise RuntimeError('more random draws than documented')
        v = [self.units.pop(0) for _ in range(n)]
        self.used += [fam] * n
        return np.array(v, dtype=float).reshape(shape) if shape else float(v[0])

    @staticmethod
    def _shape(size):
        return () if size is None else (tuple(size) if np.ndim(size) else (int(size),))

    def __enter__(self):
        r = np.random
        self.saved = {n: getattr(r, n) for n in self.NAMES}
        r.rand = lambda *s: self._take('u', s)
        r.randn = lambda *s: self._take('n', s)
        r.random = r.random_sample = r.ranf = lambda size=None: self._take('u', self._shape(size))
        r.standard_normal = lambda size=None: self._take('n', self._shape(size))
        r.uniform = lambda low=0., high=1., size=None: low + (np.asarray(high) - low) * self._take('u', self._shape(size))
        r.normal = lambda loc=0., scale=1., size=None: loc + np.asarray(scale) * self._take('n', self._shape(size))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def rot(theta):
    return np.array([[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]])


def box(P):
    (a, b), (c, d) = P.min(0), P.max(0)
    return np.array([[a, b], [c, b], [c, d], [a, d]])


def align(S, T, rotation):
    """least-squares similarity of S onto T (scale = ratio of norms), as a function"""
    cs, ct = S.mean(0), T.mean(0)
    A, B = S - cs, T - ct
    k = np.linalg.norm(B) / np.linalg.norm(A)
    R = np.eye(2)
    if rotation:
        z = np.sum((A[:, 0] - 1j * A[:, 1]) * (B[:, 0] + 1j * B[:, 1]))
        R = rot(np.angle(z))
    return lambda P: k * (P - cs).dot(R.T) + ct


def perturb(P, T, kind, pct, draws, centre):
    s, r, t1, t2 = draws
    rng = T.max(0) - T.min(0)
    if kind == 'gaussian':
        s, r, t = pct[0] * 0.5 / 3 * s, pct[1] * 60. * r, pct[2] * rng / 3 * np.array([t1, t2])
    else:
        s, r, t = pct[0] * .5 * (2 * s - 1), pct[1] * 180. * (2 * r - 1), pct[2] * rng * (2 * np.array([t1, t2]) - 1)
    return (1 + s) * (P - centre).dot(rot(np.deg2rad(r)).T) + centre + t


def shapes():
    P = fx.base_points(6)
    return [P, P.dot(rot(0.5).T) * 1.7 + np.array([40., -12.]),
            fx.deform(P, 2) * 0.4, np.array([[0., 0.], [30., 2.], [28., 41.], [-3., 35.]])[[0, 1, 2, 3, 0, 2]] + 5]


def cases(tier):
    n = len(shapes())
    for a, b in itertools.product(range(n), repeat=2):
        if a != b or a == 0:
            yield dict(kind='noise', a=a, b=b, lev=3 if tier == 'quick' else 5)
    yield dict(kind='target')
    yield dict(kind='reject')
    for nb in itertools.product((0, 1, 2), repeat=2 if tier == 'quick' else 3):
        for npt in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            yield dict(kind='gen', nb=list(nb), n=npt)
    for nb in ([1, 2], [2, 1]):
        yield dict(kind='gen', nb=nb, n=6)      # more than ten boxes
    for n in ((1, 2, 5, 11) if tier == 'quick' else (1, 2, 3, 5, 9, 10, 11, 12)):
        yield dict(kind='gengt', n=n)


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


PCTS = [(0.2, (0.2,) * 3), ([0.15], (0.15,) * 3), ([0.1, 0.3, 0.05], (0.1, 0.3, 0.05)), ((0.0, 0.4, 0.2), (0., .4, .2)),
        (0.0, (0., 0., 0.)), ([0.3, 0., 0.], (0.3, 0., 0.)), (None, None)]


def run_noise(case, ctx):
    import menpofit.fitter as F
    from menpo.shape import PointCloud
    S, T = shapes()[case['a']], shapes()[case['b']]
    s, t = PointCloud(S), PointCloud(T)
    tb = PointCloud(T).bounding_box()
    for kind in ('uniform', 'gaussian'):
        lev = {('uniform', 3): (0., .3, 1.), ('gaussian', 3): (-1.6, 0., .7), ('uniform', 5): (0., .25, .5, .8, 1.),
               ('gaussian', 5): (-3., -1., 0., .4, 2.)}[(kind, case['lev'])]
        k2 = ''.join([kind[:2], kind[2:]])
        for (pct, full), ro in itertools.product(PCTS, (False, True)):
            for draws in itertools.product(lev, repeat=4):
                tag = '%s %s rotation=%s draws %s shapes %d->%d' % (kind, pct, ro, draws, case['a'], case['b'])
                for fn in ('transform', 'bb', 'shape'):
                    kw = dict(noise_type=k2, allow_alignment_rotation=ro)
                    p0 = None
                    if pct is not None:
                        p0 = list(pct) if isinstance(pct, list) else pct
                        kw['noise_percentage'] = p0
                    f = full or ((0.1,) * 3 if fn == 'transform' else (0.05,) * 3)
                    with Scripted(draws) as sc:
                        if fn == 'transform':
                            got = F.noisy_alignment_similarity_transform(s, t, **kw).apply(s).points
                        elif fn == 'bb':
                            got = F.noisy_shape_from_bounding_box(s, tb, **kw).points
                        else:
                            got = F.noisy_shape_from_shape(s, t, **kw).points
                    if fn == 'bb':
                        a, tt = align(box(S), box(T), ro), box(T)
                    else:
                        a, tt = align(S, T, ro), T
                    want = perturb(a(S), tt, kind, f, draws, tt.mean(0))
                    ctx.step()
                    ctx.trace()
                    if not ctx.close(got, want, 'noise-' + fn, tag, rtol=1e-8, atol=1e-7):
                        return
                    ctx.check(set(sc.used) == {kind[0] if kind == 'uniform' else 'n'} and not sc.units, 'distribution',
                              '%s: draws taken from %s, %d left' % (tag, sc.used, len(sc.units)))
                    if isinstance(pct, list):
                        ctx.check(p0 == pct, 'percentage-mutated', '%s: caller list became %s' % (tag, p0))
                ctx.state(kind, pct, ro, want)
    # no noise: the plain alignment
    got = F.noisy_shape_from_bounding_box(s, tb, noise_percentage=0.0).points
    ctx.close(got, align(box(S), box(T), False)(S), 'zero-noise', '', atol=1e-8)
    ctx.close(F.align_shape_with_bounding_box(s, tb, rotation=False).points, got, 'zero-noise-align', '', atol=1e-8)
    ctx.close(F.align_shape_with_bounding_box(s, tb).points, align(box(S), box(T), True)(S), 'align-box', '', atol=1e-8)
    ctx.check(np.array_equal(s.points, S) and np.array_equal(t.points, T), 'shapes-mutated', '')
    # every subset of the options left at its default
    dr = (.9, .1, .8, .7)
    for omit in itertools.product((0, 1), repeat=3):
        for fn in ('transform', 'bb', 'shape'):
            kw = {k: v for k, v, o in (('noise_type', 'gaussian', omit[0]), ('noise_percentage', [.3, .1, .2], omit[1]),
                                       ('allow_alignment_rotation', True, omit[2])) if not o}
            with Scripted(dr):
                if fn == 'transform':
                    got = F.noisy_alignment_similarity_transform(s, t, **kw).apply(s).points
                elif fn == 'bb':
                    got = F.noisy_shape_from_bounding_box(s, tb, **kw).points
                else:
                    got = F.noisy_shape_from_shape(s, t, **kw).points
            A, B = (box(S), box(T)) if fn == 'bb' else (S, T)
            ctx.step()
            ctx.close(got, perturb(align(A, B, not omit[2])(S), B, 'uniform' if omit[0] else 'gaussian',
                                   (.1 if fn == 'transform' else .05,) * 3 if omit[1] else (.3, .1, .2), dr, B.mean(0)),
                      'defaults', '%s with %s' % (fn, kw), atol=1e-7)


def run_target(case, ctx):
    import menpofit.fitter as F
    from menpo.shape import PointCloud
    from menpo.transform import AlignmentSimilarity, AlignmentAffine
    for S, T in itertools.permutations(shapes(), 2):
        n = len(T)
        draws = [np.sin(1.1 * i + 0.2) for i in range(2 * n)]
        for std in (None, 0.1, 0.0, [0.01 * (i + 1) for i in range(n)]):
            for cls, name in ((AlignmentAffine, 'affine'), (AlignmentSimilarity, 'similarity'), (None, 'affine')):
                kw = {} if cls is None else dict(alignment_transform_cls=cls)
                with Scripted(draws) as sc:
                    tr = F.noisy_target_alignment_transform(PointCloud(S), PointCloud(T), **(kw if std is None else dict(kw, noise_std=std)))
                std = 0.1 if std is None else std
                ctx.step()
                ctx.check(set(sc.used) == {'n'} and not sc.units, 'target-distribution', str(sc.used))
                N = T + np.reshape(std, (-1, 1)) * (T.max(0) - T.min(0)) * np.reshape(draws, (n, 2))
                if name == 'affine':
                    A = np.hstack([S, np.ones((n, 1))])
                    want = A.dot(np.linalg.lstsq(A, N, rcond=None)[0])
                else:
                    want = align(S, N, True)(S)
                ctx.trace()
                ctx.close(tr.apply(S), want, 'target-noise', '%s std=%s' % (name, std), rtol=1e-7, atol=1e-6)
                ctx.state(name, want)


def run_reject(case, ctx):
    import menpofit.fitter as F
    from menpo.shape import PointCloud
    s, t = [PointCloud(p) for p in shapes()[:2]]
    for bad in ('Uniform', 'gauss', '', 'uniform ', None, 3):
        for fn in (F.noisy_alignment_similarity_transform, F.noisy_shape_from_shape):
            ctx.step()
            ctx.state(str(bad), fn.__name__)
            ctx.raises(ValueError, lambda: fn(s, t, noise_type=bad), 'unknown-kind', '%s noise_type=%r' % (fn.__name__, bad))


# ---- generation of boxes -------------------------------------------------------
def images(nb, shift=0):
    """images with nb[i] provided boxes each (one partially outside), in groups bb_*"""
    from menpo.shape import PointCloud
    out = []
    for i, k in enumerate(nb):
        im = fx.make_image(i, shape=(44 + 3 * i, 50 - 2 * i))
        gt = im.landmarks['PTS'].points
        for j in range(k):
            P = gt * (1 + 0.1 * j) + np.array([2. - 30 * j, -1. + 3 * i])
            im.landmarks['bb_%d' % j] = PointCloud(P) if j else PointCloud(P).bounding_box()
        im.landmarks['other'] = PointCloud(gt[:3] + 1)
        out.append(im)
    return out


def clip(P, im):
    return np.clip(P, 0, np.array(im.pixels.shape[1:]) - 1.)


def same_boxes(got, want):
    """multiset equality of box arrays"""
    if len(got) != len(want):
        return False
    left = [np.asarray(w) for w in want]
    for g in got:
        for k, w in enumerate(left):
            if np.allclose(g, w, atol=1e-8):
                left.pop(k)
                break
        else:
            return False
    return True



def run_gen(case, ctx):
    import menpofit.fitter as F
    from menpo.shape import PointCloud
    nb, n = case['nb'], case['n']
    for glob in ('bb_*', 'bb_0', 'bb_[01]'):
        ims = images(nb)
        counts = [sum(1 for g in i.landmarks if g.startswith('bb_') and (glob != 'bb_0' or g == 'bb_0')) for i in ims]
        before = [{g: i.landmarks[g].points.copy() for g in i.landmarks} for i in ims]
        px = [i.pixels.copy() for i in ims]
        calls = []

        def pert(gt, bb):
            k = len(calls)
            calls.append((gt.points.copy(), bb.points.copy()))
            # not a box, wandering out of the image; depends on the box and the call
            return PointCloud(bb.points * (1 + .05 * k) + np.array([3. * np.sin(k), 9. * np.cos(k)]) + (k % 4 == 3) * 25)
        tag = 'boxes %s, %d perturbations, pattern %s' % (nb, n, glob)
        if counts[0] == 0:
            ctx.raises(ValueError, lambda: F.generate_perturbations_from_gt(ims, n, pert, gt_group='PTS', bb_group_glob=glob),
                       'no-boxes', tag)
            ctx.step()
            continue
        f = F.generate_perturbations_from_gt(ims, n, pert, gt_group='PTS', bb_group_glob=glob)
        ctx.check(len(calls) == n * sum(counts), 'calls', '%s: %d perturbations drawn' % (tag, len(calls)))
        c = 0
        for im, b, cnt in zip(ims, before, counts):
            gtb = box(b['PTS'])
            got = [x.points for x in f(im)]
            ctx.step()
            ctx.trace()
            ctx.check(len(got) == cnt * (n + 1), 'count', '%s: %d boxes, expected %d' % (tag, len(got), cnt * (n + 1)))
            src = [box(b[g]) for g in sorted(b) if g.startswith('bb_')][:cnt]
            mine = calls[c:c + n * cnt]
            c += n * cnt
            ctx.check(all(np.allclose(g, gtb) for g, _ in mine), 'own-gt', '%s: ground truth of another image used' % tag)
            ctx.check(same_boxes([q for _, q in mine], [s for s in src for _ in range(n)]), 'own-box',
                      '%s: perturbed boxes are not those of the image' % tag)
            want = [clip(s, im) for s in src]
            for k, (_, q) in enumerate(mine):
                kk = c - n * cnt + k
                P = q * (1 + .05 * kk) + np.array([3. * np.sin(kk), 9. * np.cos(kk)]) + (kk % 4 == 3) * 25
                want.append(clip(box(P), im))
            ctx.check(same_boxes(got, want), 'boxes', lambda: '%s: got %s expected %s' % (
                tag, [g.round(2).tolist() for g in got], [w.round(2).tolist() for w in want]))
            for g in got:
                inside(ctx, g, im, tag)
            untouched(ctx, im, b, tag)
            ctx.state(tag, got)
        ctx.check(all(np.array_equal(p, i.pixels) for p, i in zip(px, ims)), 'pixels', tag)
        # generating again (fewer boxes) replaces the first set
        calls[:] = []
        f = F.generate_perturbations_from_gt(ims, 1, pert, gt_group='PTS')
        for im in ims:
            ctx.check(len(f(im)) == 1, 'regenerate', '%s: %d boxes after generating one from the ground truth' % (tag, len(f(im))))
            ctx.step()


def inside(ctx, g, im, tag):
    ok = g.shape == (4, 2) and np.all(g >= -1e-9) and np.all(g <= np.array(im.pixels.shape[1:]) - 1 + 1e-9)
    ctx.check(ok and np.allclose(g, box(g)), 'inside', '%s: %s is not a box inside %s' % (tag, g.tolist(), im.pixels.shape[1:]))


def untouched(ctx, im, before, tag):
    for g in before:
        ctx.check(g in im.landmarks and np.array_equal(im.landmarks[g].points, before[g]), 'landmarks-kept',
                  '%s: group %s changed' % (tag, g))


def run_gengt(case, ctx):
    import menpofit.fitter as F
    from functools import partial
    n = case['n']
    for kind in ('uniform', 'gaussian'):
        ims = images([0, 1, 2])
        before = [{g: i.landmarks[g].points.copy() for g in i.landmarks} for i in ims]
        units = [abs(np.sin(3.3 * i + 1)) if kind == 'uniform' else 2 * np.sin(3.3 * i) for i in range(4 * n * 3)]
        with Scripted(units) as sc:
            f = F.generate_perturbations_from_gt(ims, n, partial(F.noisy_shape_from_bounding_box, noise_type=kind,
                                                                noise_percentage=0.3), gt_group='PTS')
        ctx.check(not sc.units, 'draws', '%d draws left' % len(sc.units))
        c = 0
        for im, b in zip(ims, before):
            got = [x.points for x in f(im)]
            B = box(b['PTS'])
            want = []
            for _ in range(n):
                want.append(clip(box(perturb(B, B, kind, (.3,) * 3, units[c:c + 4], B.mean(0))), im))
                c += 4
            ctx.step()
            ctx.trace()
            ctx.check(same_boxes(got, want), 'gt-boxes', lambda: '%s %d: got %s expected %s' % (
                kind, n, [g.round(3).tolist() for g in got], [w.round(3).tolist() for w in want]))
            for g in got:
                inside(ctx, g, im, kind)
            untouched(ctx, im, b, kind)
            ctx.state(kind, got)
