"""P17 - frequency-domain filtering equals its spatial definition.

Exhaustive enumeration of every image size, filter size (odd/even, smaller and
larger than the image), channel count, boundary and output mode within the
bounds, executed on the real functions and compared with a direct (loop)
spatial convolution; correlation filters are compared with an independent
per-frequency ridge solve, and every cut of a sample sequence into batches
with the documented recursive weighting.
"""
import itertools
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of image/filter sizes, modes, boundaries, channels and batch '
             'histories on the real code against a direct spatial reference model')
RULE = ('every (image size, filter size) pair within the bounds x mode x boundary x channels x input kind; '
        'every batch history of the incremental correlation filters; a state is a distinct result')
ASSUMPTIONS = ['pixel values are fixed generic (no symmetry) values; both maps are (bi)linear in them',
               'for even filters the "same" window starts at (f-1)//2, as in scipy']
CHUNK = 4


def BOUNDS(tier):
    return dict(image='1..7 x 1..7 (thorough 1..9)', filter='1..6 x 1..6 (thorough 1..9)', channels='1..3',
                filters='patch 3..6, response 3..5, up to 3 batches')


def val(shape, s=0.):
    n = int(np.prod(shape))
    i = np.arange(n)
    return (np.sin(1.7 * i + s) + 0.5 * np.cos(0.9 * i * i + 2 * s) + 0.1 * s).reshape(shape)


def cases(tier):
    m = 7 if tier == 'quick' else 9
    for h in range(1, m + 1):
        yield dict(kind='padcrop', h=h, m=m)
    fm = 6 if tier == 'quick' else 9
    for h in range(1, m + 1):
        for w in range(1, m + 1):
            yield dict(kind='conv', x=[h, w], fm=fm)
    yield dict(kind='api')
    ys = [(3, 3), (4, 3), (5, 4)] if tier == 'quick' else [(a, b) for a in (3, 4, 5) for b in (3, 4, 5)]
    xs = [(5, 5), (6, 5), (5, 8)] if tier == 'quick' else [(a, b) for a in (4, 5, 6, 7) for b in (5, 6, 8)]
    for y in ys:
        for x in xs:
            yield dict(kind='cf', x=x, y=y)
    for name in ('mosse', 'mccf'):
        hists = [[1, 1], [2, 1], [1, 2], [1, 1, 1], [2, 1, 2]]
        if tier != 'quick':
            hists += [[3, 2], [1, 3, 1], [2, 2, 2], [1, 1, 1, 1]]
        for hist in hists:
            yield dict(kind='icf', name=name, hist=hist)
    ens = [((5, 5), (9, 9)), ((5, 3), (9, 8)), ((5, 5), (8, 10))]
    if tier != 'quick':
        ens += [((7, 5), (7, 9)), ((3, 3), (6, 6)), ((9, 9), (17, 17)), ((4, 6), (9, 8))]
    for ps, cs in ens:
        for k, off, mask in itertools.product((1, 2), (0, 1), (True, False)):
            yield dict(kind='ensemble', ps=ps, cs=cs, k=k, off=off, mask=mask)


def direct_full(x, f):
    h, w = x.shape
    a, b = f.shape
    out = np.zeros((h + a - 1, w + b - 1))
    for i in range(a):
        for j in range(b):
            out[i:i + h, j:j + w] += f[i, j] * x
    return out


def reference(x, f, mode, boundary):
    """direct convolution of one channel"""
    h, w = x.shape
    a, b = f.shape
    if boundary == 'symmetric':
        # only the window 'same' is meaningful: outside values are reflections
        xp = np.pad(x, ((a // 2, (a - 1) // 2), (b // 2, (b - 1) // 2)), mode='symmetric')
        full = direct_full(xp, f)
        return full[a - 1:a - 1 + h, b - 1:b - 1 + w]
    full = direct_full(x, f)
    if mode == 'full':
        return full
    if mode == 'same':
        return full[(a - 1) // 2:(a - 1) // 2 + h, (b - 1) // 2:(b - 1) // 2 + w]
    return full[a - 1:h, b - 1:w]


def dup(s):
    """an equal but not identical string"""
    return ''.join([s[:1], s[1:]])


def embed(f, ext):
    """documented padding: centred, the extra row/column in front"""
    out = np.zeros(f.shape[:-2] + tuple(ext))
    h, w = f.shape[-2:]
    i, j = (ext[0] - h + 1) // 2, (ext[1] - w + 1) // 2
    out[..., i:i + h, j:j + w] = f
    return out


def padref(x, ext, boundary):
    h, w = x.shape[-2:]
    i, j = (ext[0] - h + 1) // 2, (ext[1] - w + 1) // 2
    return np.pad(x, [(0, 0)] * (x.ndim - 2) + [(i, ext[0] - h - i), (j, ext[1] - w - j)], mode=boundary)


def cropref(x, shape):
    i, j = (x.shape[-2] - shape[0] + 1) // 2, (x.shape[-1] - shape[1] + 1) // 2
    return x[..., i:i + shape[0], j:j + shape[1]]


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_padcrop(case, ctx):
    from menpofit.math.fft_utils import pad, crop
    h, m = case['h'], case['m']
    for w in range(1, m + 1):
        for H in range(h, h + m + 1):
            for W in range(w, w + m + 1):
                for lead, b in (((), 'constant'), ((2,), 'constant'), ((2, 2), 'symmetric')):
                    x = val(lead + (h, w), 0.3)
                    x0 = x.copy()
                    p = pad(x, (H, W), boundary=b)
                    tag = '%s->%s %s' % ((h, w), (H, W), b)
                    ctx.step(2)
                    ctx.trace()
                    ctx.check(p.shape == lead + (H, W), 'pad-shape', '%s: padded shape %s' % (tag, p.shape))
                    c = crop(p, (h, w))
                    ctx.close(c, x0, 'round-trip', tag, atol=0, rtol=0)
                    ctx.close(p, padref(x0, (H, W), b), 'pad-place', tag, atol=0, rtol=0)
                    ctx.check(np.array_equal(x, x0), 'pad-mutates', tag)
                ctx.state('pad', p.shape, c.shape)


def run_conv(case, ctx):
    from menpofit.math.fft_utils import fft_convolve2d, fft_convolve2d_sum
    xs = tuple(case['x'])
    for fs in itertools.product(range(1, case['fm'] + 1), repeat=2):
        ext = (xs[0] + fs[0] - 1, xs[1] + fs[1] - 1)
        fits = fs[0] <= xs[0] and fs[1] <= xs[1]
        for k in ((2,) if sum(fs) % 3 else (1, 3)):
            x, f = val((k,) + xs, 0.4), val((k,) + fs, 1.9)
            x0, f0 = x.copy(), f.copy()
            Ff = np.fft.fft2(embed(f, ext))
            for mode, b in (('full', 'constant'), ('same', 'constant'), ('valid', 'constant'), ('same', 'symmetric')):
                if mode == 'valid' and not fits:
                    continue
                ref = np.stack([reference(x[i], f[i], mode, b) for i in range(k)])
                for fft_filter in (False, True):
                    tag = 'x %s f %s k=%d mode=%s boundary=%s fft_filter=%s' % (xs, fs, k, mode, b, fft_filter)
                    ff = Ff if fft_filter else f
                    got = fft_convolve2d(x, ff, mode=dup(mode), boundary=b, fft_filter=fft_filter)
                    ctx.close(got, ref, 'convolve', tag, atol=1e-9)
                    got = fft_convolve2d_sum(x, ff, mode=dup(mode), boundary=b, fft_filter=fft_filter, axis=0)
                    ctx.close(got, ref.sum(0, keepdims=True), 'convolve-sum', tag, atol=1e-9)
                    ctx.step(2)
                    ctx.trace(2)
                ctx.state(mode, b, ref)
            ctx.check(np.array_equal(x, x0) and np.array_equal(f, f0), 'conv-mutates', 'inputs changed')


def run_api(case, ctx):
    """defaults, image wrappers, leading dimensions, axis/keepdims, bad modes"""
    from menpo.image import Image
    from menpofit.math.fft_utils import fft_convolve2d, fft_convolve2d_sum
    x, f = val((2, 6, 5), .1), val((2, 3, 4), .7)
    ref = np.stack([reference(x[i], f[i], 'same', 'constant') for i in range(2)])
    for fn, r in ((fft_convolve2d, ref), (fft_convolve2d_sum, ref.sum(0, keepdims=True))):
        kw = {} if fn is fft_convolve2d else dict(axis=0)
        for a, b in itertools.product((x, Image(x)), (f, Image(f))):
            got = fn(a, b, **kw)
            ctx.step()
            if isinstance(a, Image):
                ctx.check(isinstance(got, Image), 'image-in-image-out', '%s of an image gives %s' % (fn.__name__, type(got)))
            g = got.pixels if isinstance(got, Image) else got
            ctx.close(g, r, 'wrapper', '%s(%s,%s)' % (fn.__name__, type(a).__name__, type(b).__name__), atol=1e-9)
            ctx.state(fn.__name__, g)
            ctx.trace()
        for bad in ('fulll', 'Same', '', None):
            ctx.raises(ValueError, lambda: fn(x, f, mode=bad, **kw), 'bad-mode', '%s mode=%r' % (fn.__name__, bad))
            ctx.step()
    # experts: (n_points, k, h, w) images and filters, sum over the channels
    x, f = val((3, 2, 6, 5), .1), val((3, 2, 3, 4), .7)
    ref = np.stack([np.stack([reference(x[i, j], f[i, j], 'same', 'constant') for j in range(2)]) for i in range(3)])
    ctx.close(fft_convolve2d(x, f), ref, '4d', 'n-d convolution', atol=1e-9)
    for ax, kd in itertools.product((0, 1), (True, False)):
        ctx.close(fft_convolve2d_sum(x, f, axis=ax, keepdims=kd), ref.sum(ax, keepdims=kd), '4d-sum',
                  'axis %d keepdims %s' % (ax, kd), atol=1e-9)
        ctx.step()
    # broadcasting one filter bank over many images
    ctx.close(fft_convolve2d(x, f[:1]), np.stack([np.stack([
        reference(x[i, j], f[0, j], 'same', 'constant') for j in range(2)]) for i in range(3)]),
        'broadcast', 'one filter for all', atol=1e-9)


# ---- correlation filters -----------------------------------------------------
def stats(X, y, boundary, joint):
    """per-frequency statistics sXY (k, E), sXX (k, k, E) or diagonal only"""
    n, k, h, w = X.shape
    ext = (h + y.shape[-2] - 1, w + y.shape[-1] - 1)
    Y = np.fft.fft2(embed(y, ext))[0].ravel()
    F = np.fft.fft2(padref(X, ext, boundary)).reshape(n, k, -1)
    sXY = np.einsum('nke,e->ke', F.conj(), Y)
    sXX = np.einsum('nke,nle->kle', F.conj(), F)
    if not joint:
        sXX = sXX * np.eye(k)[:, :, None]
    return sXY, sXX, ext


def solve(sXY, sXX, l, ext):
    k, E = sXY.shape
    out = np.empty((k, E), complex)
    for e in range(E):
        out[:, e] = np.linalg.solve(sXX[:, :, e] + l * np.eye(k), sXY[:, e])
    f = np.real(np.fft.ifft2(out.reshape((k,) + ext)))
    return np.roll(f, (ext[0] // 2, ext[1] // 2), axis=(-2, -1))


def compare_filter(ctx, got, S, y, l, crop, key, tag):
    f = solve(S[0], S[1], l, S[2])
    if crop:
        f = cropref(f, y.shape[-2:])
    ctx.trace()
    ctx.step()
    ctx.state(key, f)
    return ctx.close(got, f, key, tag, rtol=1e-6, atol=1e-8)


def filters():
    from menpofit.math import mosse, imosse, mccf, imccf
    return dict(mosse=(mosse, imosse, False), mccf=(mccf, imccf, True))


def run_cf(case, ctx):
    y = val((1,) + tuple(case['y']), 2.2)
    y[0, case['y'][0] // 2, case['y'][1] // 2] += 3
    for name, (tr, inc, joint) in filters().items():
        for k in (1, 2, 3):
            for n in (1, 2, 3):
                X = val((n, k) + tuple(case['x']), 0.6)
                X0, y0 = X.copy(), y.copy()
                for l, b, crop in ((0.01, 'constant', True), (0.01, 'constant', False),
                                   (0.7, 'symmetric', True), (0.7, 'symmetric', False)):
                    tag = '%s x %s y %s k=%d n=%d l=%s %s crop=%s' % (name, case['x'], case['y'], k, n, l, b, crop)
                    S = stats(X, y, b, joint)
                    f, A, B = tr(X, y, l=l, boundary=b, crop_filter=crop)
                    compare_filter(ctx, f, S, y, l, crop, name, tag)
                    ctx.close(np.asarray(A).ravel(), S[0].ravel(), name + '-statistics', tag, rtol=1e-6, atol=1e-7)
                f, A, B = tr(X, y)
                compare_filter(ctx, f, stats(X, y, 'constant', joint), y, 0.01, True, name, 'defaults')
                ctx.check(np.array_equal(X, X0) and np.array_equal(y, y0), name + '-mutates', 'inputs changed')


def run_icf(case, ctx):
    tr, inc, joint = filters()[case['name']]
    name = case['name']
    for xs, ys, k, b in (((5, 6), (3, 4), 2, 'constant'), ((6, 5), (4, 5), 1, 'symmetric'), ((5, 5), (3, 3), 3, 'constant')):
        y = val((1,) + ys, 1.2)
        y[0, ys[0] // 2, ys[1] // 2] += 2
        X = val((sum(case['hist']), k) + xs, 0.5)
        for fs in itertools.product((1.0, 0.4, 0.0), repeat=len(case['hist']) - 1):
            if len(case['hist']) > 3 and len(set(fs)) > 1:
                continue
            n0 = case['hist'][0]
            f, A, B = tr(X[:n0], y, boundary=b)
            S = stats(X[:n0], y, b, joint)
            n = n0
            for h, ff in zip(case['hist'][1:], fs):
                A0, B0 = np.array(A, copy=True), B.copy()
                Z = X[n:n + h]
                f, A2, B2 = inc(A, B, n, Z, y, boundary=b, f=ff)
                T = stats(Z, y, b, joint)
                na, nx = n * ff, float(h)
                S = ((na * S[0] + nx * T[0]) / (na + nx), (na * S[1] + nx * T[1]) / (na + nx), S[2])
                tag = 'i%s history %s forgetting %s k=%d' % (name, case['hist'], fs, k)
                compare_filter(ctx, f, S, y, 0.01, True, 'i' + name, tag)
                same = np.array_equal(A, A0) and abs(B - B0).max() == 0
                ctx.check(same, 'icf-mutates', '%s: old statistics were modified' % tag)
                f2, _, _ = inc(A, B, n, Z, y, l=0.3, boundary=b, f=ff, crop_filter=False)
                compare_filter(ctx, f2, S, y, 0.3, False, 'i' + name, tag + ' l=.3 uncropped')
                A, B = A2, B2
                n += h
            if all(q == 1.0 for q in fs):
                ref, _, _ = tr(X, y, boundary=b)
                ctx.check(np.allclose(f, ref, rtol=1e-6, atol=1e-8), 'icf-equal-weight',
                          '%s: with forgetting factor 1 the samples are not weighted equally' % tag)


# ---- ensembles -------------------------------------------------------------
def patch_at(px, c, shape, k):
    """documented patch: `shape` pixels around the (integer) landmark, landmark at shape//2"""
    y0, x0 = int(c[0]) - shape[0] // 2, int(c[1]) - shape[1] // 2
    return px[:, y0:y0 + shape[0], x0:x0 + shape[1]]


def norm_patch(p):
    q = p - p.reshape(p.shape[0], -1).mean(1)[:, None, None]
    return q / np.sqrt((q ** 2).reshape(p.shape[0], -1).sum(1))[:, None, None]


def run_ensemble(case, ctx):
    from menpo.image import Image
    from menpo.shape import PointCloud
    from menpofit.clm.expert.ensemble import CorrelationFilterExpertEnsemble
    ps, cs, k = tuple(case['ps']), tuple(case['cs']), case['k']
    off = np.array([[0., 0.], [1., 0.], [0., -2.]]) if case['off'] else None
    offs = off if off is not None else np.zeros((1, 2))
    ims = [Image(val((k, 44, 40), 0.3 + 1.1 * i)) for i in range(6)]
    shp = [PointCloud(np.array([[20., 18.], [15., 22.], [24., 23.]]) + i % 3) for i in range(6)]
    mask = np.outer(np.hanning(cs[0]), np.hanning(cs[1])) if case['mask'] else 1.
    g = np.stack(np.meshgrid(np.arange(ps[0]) - ps[0] // 2, np.arange(ps[1]) - ps[1] // 2, indexing='ij'), -1)
    y = (np.exp(-0.5 * (g ** 2).sum(-1) / 3.) / (2 * np.pi * 3.))[None]

    def patches(im, p, shape):
        return norm_patch(np.concatenate([patch_at(im.pixels, p + o, shape, k) for o in offs]))
    kw = dict(patch_shape=ps, context_shape=cs, sample_offsets=off, cosine_mask=case['mask'])
    for hist in ([3], [1, 2], [2, 1], [1, 1, 1], [2, 2, 2]):
        e = CorrelationFilterExpertEnsemble(ims[:hist[0]], shp[:hist[0]], **kw)
        n, S = 0, None
        for bi, h in enumerate(hist):
            if bi:
                e.increment(ims[n:n + h], shp[n:n + h])
            T = []
            for lm in range(3):
                X = np.stack([mask * patches(ims[i], shp[i].points[lm], cs) for i in range(n, n + h)])
                t = stats(X, y, 'constant', True)
                if bi:
                    t = ((n * S[lm][0] + h * t[0]) / float(n + h), (n * S[lm][1] + h * t[1]) / float(n + h), t[2])
                T.append(t)
            S = T
            n += h
        F = np.stack([cropref(solve(s[0], s[1], 0.01, s[2]), ps) for s in S])
        tag = 'patch %s context %s k=%d offsets %s mask %s history %s' % (ps, cs, k, case['off'], case['mask'], hist)
        ctx.check(e.n_experts == 3 and e.n_images == n and tuple(e.search_shape) == ps and
                  e.n_sample_offsets == len(offs), 'ensemble-counts',
                  '%s: %s experts %s images %s offsets' % (tag, e.n_experts, e.n_images, e.n_sample_offsets))
        sf = e.spatial_filter_images
        for lm in range(3):
            ctx.close(sf[lm].pixels, F[lm][:, ::-1, ::-1], 'expert-filter', '%s landmark %d' % (tag, lm),
                      rtol=1e-5, atol=1e-7)
            # the spectrum of every channel, zero frequency in the middle
            ff = np.abs(np.fft.fftshift(np.fft.fft2(F[lm][:, ::-1, ::-1]), axes=(-2, -1)))
            ctx.close(e.frequency_filter_images[lm].pixels, ff, 'expert-spectrum', '%s landmark %d' % (tag, lm), rtol=1e-5, atol=1e-7)
            ctx.step()
        P = np.array([[22., 19.], [17., 21.], [23., 24.]])
        r = e.predict_response(ims[5], PointCloud(P))
        for lm in range(3):
            q = patches(ims[5], P[lm], ps)
            ref = sum(reference(q[i], F[lm][i], 'same', 'constant') for i in range(len(q)))
            ctx.close(r[lm], ref[None], 'expert-response', '%s landmark %d' % (tag, lm), rtol=1e-5, atol=1e-7)
            ctx.trace()
            ctx.step()
        ctx.state(tag, r)
