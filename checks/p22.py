"""P22 - image and shape preparation puts pixels and landmarks where they belong.

Oracle device: *coordinate images* - pixel (y, x) holds the values (y, x, linear
mixes) - so every output pixel of a rescale / warp / patch extraction says where
it came from; that provenance is compared with an independent geometric model
(barycentric piecewise-affine map, similarity, window offsets).
"""
import itertools
import numpy as np
from vlib import fx, fam

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of preparation calls (shapes x diagonals x scales x boundaries x patch shapes x image '
             'batches and their orders) on the real code against a geometric reference model')
RULE = ('every shape set x diagonal; every ordered batch of up to 3 images out of 3 x scale x transforms flag; every pixel of '
        'every frame for every boundary and patch shape; a state is a distinct shape, frame or provenance map')
ASSUMPTIONS = ['meshes are valid (non-overlapping) triangulations',
               'bilinear resampling of a linear ramp is exact away from the image border']
CHUNK = 2


def BOUNDS(tier):
    return dict(images=3, batch=3, boundaries=[0, 1, 3, 2.5], scales=6 if tier == 'quick' else 12)


# ---------------------------------------------------------------- reference
def in_tri(p, a, b, c):
    """signed barycentric coordinates of p (n,2)"""
    T = np.array([b - a, c - a]).T
    l = np.linalg.solve(T, (p - a).T).T
    return np.column_stack([1 - l.sum(1), l])


def mesh_cover(p, tri, pts):
    """(min over triangles of violation) : >=0 inside by margin, <0 outside"""
    best = np.full(len(p), -np.inf)
    for t in tri:
        m = in_tri(p, *pts[t]).min(1)
        best = np.maximum(best, m)
    return best


def pwa_map(p, tri, src, dst):
    out = np.full(p.shape, np.nan)
    best = np.full(len(p), -np.inf)
    for t in tri:
        b = in_tri(p, *src[t])
        m = b.min(1)
        sel = m > best
        out[sel] = b[sel].dot(dst[t])
        best[sel] = m[sel]
    return out, best


def coord_image(shape, p=None, group='PTS', tri=None, tag=0.):
    from menpo.image import Image
    from menpo.shape import TriMesh, PointCloud
    y, x = np.meshgrid(np.arange(shape[0], dtype=float), np.arange(shape[1], dtype=float), indexing='ij')
    im = Image(np.asarray([y, x, 0.5 * y - 0.25 * x + 7., np.zeros_like(y) + tag]))
    if p is not None:
        im.landmarks[group] = TriMesh(p.copy(), trilist=tri) if tri is not None else PointCloud(p.copy())
    return im


def bilinear(pix, p):
    out = []
    for y, x in p:
        y0, x0 = int(np.floor(y)), int(np.floor(x))
        y0 = min(max(y0, 0), pix.shape[1] - 2)
        x0 = min(max(x0, 0), pix.shape[2] - 2)
        a, b = y - y0, x - x0
        out.append((1 - a) * (1 - b) * pix[:, y0, x0] + a * (1 - b) * pix[:, y0 + 1, x0] +
                   (1 - a) * b * pix[:, y0, x0 + 1] + a * b * pix[:, y0 + 1, x0 + 1])
    return np.array(out)


def shape_sets():
    b6 = fx.base_points(6)
    sq = np.array([[0., 0], [0, 4], [3, 0], [3, 4]])
    return dict(ring=[fx.deform(b6, k) for k in range(3)], one=[b6],
                square=[sq, sq + [2., 5.]], big=[b6 * 40 - 300., fx.deform(b6, 2) * 40],
                tiny=[sq * 1e-3, sq * 2e-3], line=[np.array([[1., 1], [1., 5], [1., 9]])],
                tall=[np.array([[0., 0], [9., 0.5], [18., 0]]), np.array([[1., 0], [8., 0.5], [20., 1]])],
                neg=[-b6, -b6 - 3.])


IMS = {'a': ((40, 52), 0), 'b': ((61, 45), 1), 'c': ((52, 80), 3)}
SCALES = {'quick': [1.0, 0.5, 2.0, 0.75, 1.3, [0.5, 2.0]],
          'thorough': [1.0, 0.5, 2.0, 0.75, 1.3, 0.25, 3.0, 0.9, 1.01, [0.5, 2.0], [1.0, 0.5], [1.5, 1.0]]}


TRAINERS = ['HolisticAAM', 'PatchAAM', 'LinearMaskedAAM', 'HolisticATM', 'PatchATM', 'CLM', 'Unified', 'APS', 'SDM', 'DlibERT']


def cases(tier):
    for n in shape_sets():
        for d in (None, 0, 1, 17.5, 30, 150, 1000.):
            yield dict(kind='ref', shapes=n, diagonal=d)
    for t in TRAINERS:
        for given in (0, 1):
            for d in (None, 20, 33.5, 60):
                yield dict(kind='trainer', trainer=t, given=given, diagonal=d)
    for r in (1, 2, 3):
        for t in itertools.product('abc', repeat=r):
            if r == 3 and tier == 'quick' and len(set(t)) == 2 and t[0] != t[2]:
                continue
            yield dict(kind='rescale', ims=list(t), tier=tier)
            yield dict(kind='batch', ims=list(t), tier=tier)
    for mesh in ('ring', 'square', 'four'):
        for off in (0., 0.3, -7.75, 100.):
            for s in ((1.0, 2.3) if tier == 'quick' else (0.6, 1.0, 1.7, 2.3, 4.1)):
                yield dict(kind='frame', mesh=mesh, off=off, s=s)
                yield dict(kind='pframe', mesh=mesh, off=off, s=s)
    for s in (0.9, 0.97, 0.98, 0.985, 0.99, 1.0, 1.01, 1.015, 1.02, 1.03, 1.1):
        yield dict(kind='near', scale=s)
    for perm in itertools.permutations('abc', 2):
        for tr in ('pwa', 'tps'):
            for s in (1.0, 1.6):
                yield dict(kind='warp', ims=list(perm), tr=tr, s=s)
    for k in 'abc':
        for tr in ('pwa', 'tps'):
            for d in ([0., 0.], [0.2, 0.], [0.02, 0.3], [1., -0.6]):
                yield dict(kind='warp', ims=[k, k, k], tr=tr, s=1.0, near=d)
    for perm in itertools.product('abc', repeat=2):
        for ps in ((3, 3), (5, 7), (7, 5), (1, 1), (4, 4), (4, 6)):
            yield dict(kind='patch', ims=list(perm), ps=list(ps))
    yield dict(kind='patch', ims=list('abcabcabcabc'), ps=[5, 3])
    for model in ('HolisticAAM', 'MaskedAAM', 'LinearAAM', 'LinearMaskedAAM'):
        for sc in ([1.0], [0.5, 1.0]):
            yield dict(kind='sampling', model=model, scales=sc)
    for n in shape_sets():
        yield dict(kind='align', shapes=n)
    for mesh in ('ring', 'square', 'four'):
        for s in (1.0, 2.0):
            yield dict(kind='dense', mesh=mesh, s=s)


def mesh(name):
    if name == 'ring':
        p = fx.base_points(6)
    elif name == 'square':
        p = np.array([[0., 0], [0, 10], [8, 0], [8, 10]])
    else:
        p = np.array([[0., 0], [1, 12], [11, 2], [9, 13], [5, 6]])
    return p, fx.trilist(p)


def mk(k):
    shp, d = IMS[k]
    b = fx.base_points(6)
    p = fx.deform(b, d) * (1 + 0.15 * d) - 0.1 * d
    return coord_image(shp, p, tri=fx.trilist(b), tag=d), p


def bydata(im):
    return im.pixels


def snap(im):
    return im.pixels.copy(), {g: im.landmarks[g].points.copy() for g in im.landmarks}


def same_snap(ctx, im, s, key):
    ctx.check(im.pixels.shape == s[0].shape and np.array_equal(im.pixels, s[0]), key, 'input pixels modified')
    ctx.check(sorted(im.landmarks) == sorted(s[1]), key, 'input landmark groups changed: %s' % list(im.landmarks))
    for g in im.landmarks:
        if g in s[1]:
            ctx.check(np.array_equal(im.landmarks[g].points, s[1][g]), key, 'input landmarks %s modified' % g)


def linmap(a, b):
    """best least-squares linear map + offset from a to b with its residual"""
    A = np.column_stack([a, np.ones(len(a))])
    M, _, rank, _ = np.linalg.lstsq(A, b, rcond=None)
    return M, np.abs(A.dot(M) - b).max()


def provenance(ctx, out, tr_expected, key, msg):
    """interior pixels of out (4-channel coord image) come from tr_expected(pixel)"""
    h, w = out.pixels.shape[1:]
    yy, xx = np.meshgrid(np.arange(1, h - 1), np.arange(1, w - 1), indexing='ij')
    p = np.column_stack([yy.ravel(), xx.ravel()]).astype(float)
    exp = tr_expected(p)
    got = out.pixels[:, p[:, 0].astype(int), p[:, 1].astype(int)].T
    return exp, got


def k_ref(case, ctx):
    from menpofit.builder import compute_reference_shape
    from menpo.shape import PointCloud, TriMesh
    P = shape_sets()[case['shapes']]
    d = case['diagonal']
    tri = fx.trilist(P[0]) if case['shapes'] not in ('line',) else None
    for perm in itertools.permutations(range(len(P))):
        for kind in ('pc', 'tri'):
            if kind == 'tri' and tri is None:
                continue
            S = [PointCloud(P[i]) if kind == 'pc' else TriMesh(P[i], trilist=tri) for i in perm]
            r = compute_reference_shape(S, d)
            ctx.step()
            ctx.trace()
            m = np.mean(P, axis=0)
            if d:
                rng = m.max(0) - m.min(0)
                m = m * (d / np.sqrt((rng ** 2).sum()))
            ctx.close(r.points, m, 'reference-shape', 'diagonal=%r' % d, rtol=1e-9, atol=1e-9)
            if d:
                g = r.points.max(0) - r.points.min(0)
                ctx.close(np.sqrt((g ** 2).sum()), d, 'diagonal', 'diagonal', rtol=1e-9)
            if kind == 'tri':
                ctx.check(hasattr(r, 'trilist') and np.array_equal(r.trilist, tri), 'reference-type', 'triangulation lost')
            for i, s in zip(perm, S):
                ctx.check(np.array_equal(s.points, P[i]), 'reference-mutates', 'input shape changed')
            ctx.state('ref', r.points)
    # a diagonal close to the one the shape has
    from menpofit.builder import rescale_reference_shape
    rng = P[0].max(0) - P[0].min(0)
    own = np.sqrt((rng ** 2).sum())
    for f in (1.0, 1.001, 0.999, 1.005, 0.995, 1.02, 0.97):
        s = PointCloud(P[0].copy())
        r = rescale_reference_shape(s, own * f)
        ctx.step()
        ctx.trace()
        ctx.close(r.points, P[0] * f, 'reference-shape', 'the diagonal %g of the shape rescaled to %g' % (own, own * f), rtol=1e-9, atol=1e-9)
        ctx.check(np.array_equal(s.points, P[0]), 'reference-mutates', 'input shape changed')
        r = compute_reference_shape([s], own * f)
        ctx.close(r.points, P[0] * f, 'reference-shape', 'one shape of diagonal %g, rescaled to %g' % (own, own * f), rtol=1e-9, atol=1e-9)


def k_trainer(case, ctx):
    """the reference shape of every trainer has the requested diagonal"""
    t, d = case['trainer'], case['diagonal']
    ims = fam.images(14 if t == 'APS' else 8 if t == 'Unified' else 5)
    m = np.mean([i.landmarks['PTS'].points for i in ims], axis=0)
    k = dict(diagonal=d, scales=[1.0])
    if case['given']:
        r = ims[1].landmarks['PTS'].copy()
        r.points[...] = (r.points - r.points.mean(0)) * [1.2, 1.3] + 30
        m = r.points.copy()
        k['reference_shape'] = r
    if t in fam.AAM_KINDS:
        f = fam.aam(t, ims, **k)
    elif t in fam.ATM_KINDS:
        f = fam.atm(t, ims, **k)
    elif t == 'SDM':
        f = fam.sdm(ims=ims, patch_shape=(7, 7), n_iterations=[1], **dict(k))
    else:
        f = dict(CLM=fam.clm, Unified=fam.unified, APS=fam.aps, DlibERT=fam.dlib_ert)[t](ims, **dict(k, n_iterations=[1])
                                                                                        if t == 'DlibERT' else k)
    if t == 'DlibERT':
        # dlib models are normalised by bounding boxes
        m = m if case['given'] else np.mean([i.landmarks['PTS'].bounding_box().points for i in ims], axis=0)
        lo, hi = m.min(0), m.max(0)
        m = np.array([lo, [hi[0], lo[1]], hi, [lo[0], hi[1]]])
    if d:
        m = m * (d / np.sqrt(((m.max(0) - m.min(0)) ** 2).sum()))
    ctx.step()
    ctx.trace()
    ctx.close(f.reference_shape.points, m, 'trainer-reference', '%s given=%s diagonal=%s' % (t, case['given'], d), rtol=1e-9, atol=1e-9)
    if case['given']:
        ctx.close(r.points, (ims[1].landmarks['PTS'].points - ims[1].landmarks['PTS'].points.mean(0)) * [1.2, 1.3] + 30, 'trainer-mutates',
                  'the given reference shape was changed', rtol=1e-12, atol=1e-12)
    ctx.state('trainer', t, f.reference_shape.points)


def check_scaled(ctx, out, im, p, key, msg):
    """out is a scaled version of coordinate image im; its landmarks follow"""
    h, w = out.pixels.shape[1:]
    q = out.landmarks['PTS'].points
    # provenance map of the pixels: affine
    yy, xx = np.meshgrid(np.arange(2, h - 2), np.arange(2, w - 2), indexing='ij')
    g = np.column_stack([yy.ravel(), xx.ravel()]).astype(float)
    src = out.pixels[:2, g[:, 0].astype(int), g[:, 1].astype(int)].T
    M, res = linmap(g, src)
    ctx.check(res < 1e-6, key + '-pixels', '%s: the pixel map is not affine (residual %g)' % (msg, res))
    ctx.check(abs(M[0, 1]) < 1e-8 and abs(M[1, 0]) < 1e-8, key + '-pixels', '%s: pixel map rotates/mixes axes' % msg)
    back = np.column_stack([q, np.ones(len(q))]).dot(M)
    ctx.close(back, p, key + '-landmarks', '%s: content under the landmarks' % msg, rtol=1e-6, atol=1e-6)
    # full content, incl. linear mix and tag channels
    mix = out.pixels[2, g[:, 0].astype(int), g[:, 1].astype(int)]
    ctx.close(mix, 0.5 * src[:, 0] - 0.25 * src[:, 1] + 7., key + '-pixels', msg + ' channels', rtol=1e-6, atol=1e-6)
    ctx.close(out.pixels[3, 2:-2, 2:-2], np.full((h - 4, w - 4), im.pixels[3, 0, 0]), key + '-order', msg + ' wrong source image',
              atol=1e-9)
    return M


def k_rescale(case, ctx):
    from menpofit.builder import (rescale_images_to_reference_shape, normalization_wrt_reference_shape,
                                  compute_reference_shape)
    from menpo.shape import PointCloud
    made = [mk(k) for k in case['ims']]
    for rs in (0.5, 0.8, 1.0, 1.9):
        ims = [m[0] for m in made]
        snaps = [snap(i) for i in ims]
        rp = fx.deform(fx.base_points(6), 5) * rs + 3.
        out = rescale_images_to_reference_shape(ims, 'PTS', PointCloud(rp))
        ctx.step(len(out))
        ctx.trace(len(out))
        ctx.check(len(out) == len(ims), 'rescale-count', '%d outputs' % len(out))
        for o, (im, p) in zip(out, made):
            # scale = ratio of the centred norms
            exp = np.linalg.norm(rp - rp.mean(0)) / np.linalg.norm(p - p.mean(0))
            M = check_scaled(ctx, o, im, p, 'rescale', 'reference scale %g' % rs)
            for a in (0, 1):
                # image sizes are integral: allow the rounding of one pixel
                n = im.pixels.shape[1 + a]
                ctx.check(abs(1 / M[a, a] - exp) <= exp * 1e-6 + (abs(exp - 1) + 1.01) / (n - 1), 'rescale-size',
                          'axis %d scaled by %g instead of %g' % (a, 1 / M[a, a], exp))
                ctx.check(abs(o.pixels.shape[1 + a] - n * exp) <= 1.01, 'rescale-size', 'output extent')
            ctx.state('rescale', o.pixels.shape, o.landmarks['PTS'].points)
        for im, s in zip(ims, snaps):
            same_snap(ctx, im, s, 'rescale-mutates')
        # independence: alone or in a batch
        alone = [rescale_images_to_reference_shape([i], 'PTS', PointCloud(rp))[0] for i in ims]
        for o, a in zip(out, alone):
            ctx.check(np.array_equal(o.pixels, a.pixels) and np.array_equal(o.landmarks['PTS'].points,
                      a.landmarks['PTS'].points), 'rescale-independent', 'result depends on the rest of the batch')
    for d in (None, 20, 45.):
        ims = [m[0] for m in made]
        ref, out = normalization_wrt_reference_shape(ims, 'PTS', d)
        ctx.step(len(out))
        er = compute_reference_shape([PointCloud(m[1]) for m in made], d)
        ctx.close(ref.points, er.points, 'normalization-ref', 'reference shape', rtol=1e-9)
        direct = rescale_images_to_reference_shape(ims, 'PTS', er)
        for o, e in zip(out, direct):
            ctx.check(o.pixels.shape == e.pixels.shape and np.allclose(o.pixels, e.pixels) and
                      np.allclose(o.landmarks['PTS'].points, e.landmarks['PTS'].points), 'normalization-images',
                      'normalised images are not the images rescaled to the reference shape')
    # other landmark groups select the scale by the named group only and follow along
    im, p = mk(case['ims'][0])
    im.landmarks['OTHER'] = PointCloud(p[:4] * 0.5 + 8.)
    op = p[:4] * 0.5 + 8.
    rp = op * 1.5
    o = rescale_images_to_reference_shape([im], 'OTHER', PointCloud(rp))[0]
    M = check_scaled(ctx, o, im, p, 'rescale-group', 'group selection')
    q = o.landmarks['OTHER'].points
    ctx.close(np.column_stack([q, np.ones(len(q))]).dot(M), op, 'rescale-group', 'second group', atol=1e-6, rtol=1e-6)
    ctx.check(abs(1 / M[0, 0] - 1.5) < 0.04 and abs(1 / M[1, 1] - 1.5) < 0.04, 'rescale-group', 'scale from the wrong group')


def k_near(case, ctx):
    """scales close to one change large images by many pixels"""
    from menpofit.builder import scale_images
    b = fx.base_points(6)
    p = (b - b.min(axis=0)) * 4 + 20
    s = case['scale']
    for shp in ((310, 260), (260, 410)):
        im = coord_image(shp, p, tri=fx.trilist(b), tag=3)
        for rt in (False, True):
            r = scale_images([im], s, return_transforms=rt)
            o = r[0][0] if rt else r[0]
            ctx.step()
            ctx.trace()
            M = check_scaled(ctx, o, im, p, 'scale', 'scale %r' % s)
            for a in (0, 1):
                n = shp[a]
                ctx.check(abs(o.pixels.shape[1 + a] - n * s) <= 1.01, 'scale-factor', 'extent %d of a %d pixel image scaled by %r' % (
                    o.pixels.shape[1 + a], n, s))
                ctx.check(abs(1 / M[a, a] - s) <= (abs(s - 1) + 1.01) / (n - 1) + 1e-6, 'scale-factor', 'scaled by %g, not %g' % (1 / M[a, a], s))
            if rt:
                ctx.close(r[1][0].apply(o.landmarks['PTS'].points), p, 'scale-transform', 'transform(output landmarks)', rtol=1e-6, atol=1e-6)
            ctx.state('near', s, o.pixels.shape)


def k_batch(case, ctx):
    """scale_images, compute_features"""
    from menpofit.builder import scale_images, compute_features
    made = [mk(k) for k in case['ims']]
    ims = [m[0] for m in made]
    snaps = [snap(i) for i in ims]
    for sc in SCALES[case['tier']]:
        s = tuple(sc) if isinstance(sc, list) else sc
        for rt in (False, True):
            r = scale_images(ims, s, return_transforms=rt)
            out, trs = r if rt else (r, None)
            ctx.step(len(out))
            ctx.trace(len(out))
            ctx.check(len(out) == len(ims), 'scale-count', '%d outputs' % len(out))
            if rt:
                ctx.check(len(trs) == len(ims), 'scale-count', '%d transforms' % len(trs))
            for j, (o, (im, p)) in enumerate(zip(out, made)):
                M = check_scaled(ctx, o, im, p, 'scale', 'scale %r' % (s,))
                for a in (0, 1):
                    e = s[a] if isinstance(s, tuple) else s
                    n = im.pixels.shape[1 + a]
                    ctx.check(abs(1 / M[a, a] - e) <= (abs(e - 1) + 1.01) / (n - 1) + 1e-6, 'scale-factor',
                              'axis %d scaled by %g instead of %g' % (a, 1 / M[a, a], e))
                    ctx.check(abs(o.pixels.shape[1 + a] - n * e) <= 1.01, 'scale-factor', 'output extent')
                if rt:
                    # the transform maps the output landmarks back to the input ones
                    q = o.landmarks['PTS'].points
                    a1 = trs[j].apply(q)
                    ctx.close(a1, p, 'scale-transform', 'transform(output landmarks)', rtol=1e-6, atol=1e-6)
                ctx.state('scale', o.pixels.shape, o.landmarks['PTS'].points)
    for im, sn in zip(ims, snaps):
        same_snap(ctx, im, sn, 'scale-mutates')
    # features: called once per image, in order, results in order
    calls = []

    def feat(i):
        calls.append(i)
        o = i.copy()
        o.pixels = o.pixels * 2 + len(calls)
        return o
    out = compute_features(ims, feat)
    ctx.step(len(out))
    ctx.check(len(calls) == len(ims) and all(a is b for a, b in zip(calls, ims)), 'features-order',
              'feature function not called once per image in order')
    ctx.check(len(out) == len(ims), 'features-order', 'count')
    for j, (o, i) in enumerate(zip(out, ims)):
        ctx.check(np.array_equal(o.pixels, i.pixels * 2 + j + 1), 'features-order', 'result %d out of order' % j)
    for im, sn in zip(ims, snaps):
        same_snap(ctx, im, sn, 'features-mutates')


def k_frame(case, ctx):
    from menpofit.builder import build_reference_frame
    from menpo.shape import TriMesh, PointCloud
    p, tri = mesh(case['mesh'])
    p = p * case['s'] + case['off']
    for kind in ('tri', 'pc'):
        for b in (None, 0, 1, 3, 2.5, 7):
            kw = {} if b is None else dict(boundary=b)
            bb = 3 if b is None else b
            for group in ('source', 'other'):
                s = TriMesh(p.copy(), trilist=tri) if kind == 'tri' else PointCloud(p.copy())
                if group != 'source':
                    kw['group'] = group
                f = build_reference_frame(s, **kw)
                ctx.step()
                ctx.trace()
                ctx.check(np.array_equal(s.points, p), 'frame-mutates', 'input changed')
                if not ctx.check(list(f.landmarks) == [group], 'frame-group', str(list(f.landmarks))):
                    continue
                q = f.landmarks[group].points
                frame_geometry(ctx, f, p, q, bb)
                t = fx.trilist(p) if kind == 'pc' else tri
                yy, xx = np.mgrid[:f.shape[0], :f.shape[1]]
                g = np.column_stack([yy.ravel(), xx.ravel()]).astype(float)
                c = mesh_cover(g, t, q).reshape(f.shape)
                m = f.mask.mask
                wrong = (m & (c < -1e-6)) | (~m & (c > 1e-6))
                ctx.check(not wrong.any(), 'frame-mask', '%d pixels wrong (mask %d)' % (wrong.sum(), m.sum()))
                ctx.state('frame', f.shape, q, int(m.sum()))


def frame_geometry(ctx, f, p, q, bb):
    """landmarks are the shape, merely translated, with the margin on all sides"""
    ctx.close(q - q.mean(0), p - p.mean(0), 'frame-landmarks', 'landmarks are not a translated copy', rtol=1e-9, atol=1e-9)
    lo = q.min(0)
    hi = np.array(f.shape) - q.max(0)
    ctx.check((lo >= bb - 1e-9).all() and (lo < bb + 1 + 1e-9).all(), 'frame-margin', 'low margin %s, requested %s' % (lo, bb))
    ctx.check((hi >= bb - 1e-9).all() and (hi < bb + 2 + 1e-9).all(), 'frame-margin', 'high margin %s, requested %s' % (hi, bb))


def k_pframe(case, ctx):
    from menpofit.builder import build_patch_reference_frame
    from menpo.shape import TriMesh
    p, tri = mesh(case['mesh'])
    p = p * case['s'] + case['off']
    for b in (None, 0, 3, 4):
        for ps in ((3, 3), (5, 5), (5, 9), (9, 5), (17, 17), (4, 4), (6, 4)):
            kw = {} if b is None else dict(boundary=b)
            s = TriMesh(p.copy(), trilist=tri)
            f = build_patch_reference_frame(s, patch_shape=ps, **kw)
            ctx.step()
            ctx.trace()
            q = f.landmarks['source'].points
            frame_geometry(ctx, f, p, q, (3 if b is None else b) + max(ps))
            m = f.mask.mask
            # the patch centre is a pixel nearest to the landmark; menpo truncates
            best = None
            for rule in (np.floor, np.round):
                for sh in ((0,) if ps[0] % 2 and ps[1] % 2 else (0, 1)):
                    exp = np.zeros(f.shape, bool)
                    for y, x in q:
                        lo = [int(rule(v)) - n // 2 + (sh if n % 2 == 0 else 0) for v, n in ((y, ps[0]), (x, ps[1]))]
                        exp[lo[0]:lo[0] + ps[0], lo[1]:lo[1] + ps[1]] = True
                    w = int((m != exp).sum())
                    best = w if best is None else min(best, w)
            ctx.check(best == 0, 'pframe-mask', 'patch %s: %d pixels wrong' % (ps, best))
            if b is None and ps == (17, 17):
                f2 = build_patch_reference_frame(s)
                ctx.check(f2.shape == f.shape and np.array_equal(f2.mask.mask, m), 'pframe-default', 'default patch shape')
            ctx.state('pframe', f.shape, int(m.sum()))


def k_warp(case, ctx):
    from menpofit.builder import warp_images, build_reference_frame
    from menpofit.transform import DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines
    from menpo.shape import TriMesh
    b = fx.base_points(6)
    tri = fx.trilist(b)
    ref = TriMesh((fx.deform(b, 4) - 3.2) * case['s'], trilist=tri)
    f = build_reference_frame(ref)
    src = f.landmarks['source'].points
    made = [mk(k) for k in case['ims']]
    if case.get('near'):
        # successive shapes that hardly differ
        made = [(im, p + np.outer(np.cos(np.arange(6) * (j + 1)), case['near']) * j) for j, (im, p) in enumerate(made)]
        for im, p in made:
            im.landmarks['PTS'].points[...] = p
    T = dict(pwa=DifferentiablePiecewiseAffine, tps=DifferentiableThinPlateSplines)[case['tr']]
    snaps = [snap(m[0]) for m in made]
    shapes = [TriMesh(m[1].copy(), trilist=tri) for m in made]
    fm, fp = f.mask.mask.copy(), f.pixels.copy()
    out = warp_images([m[0] for m in made], shapes, f, T)
    ctx.step(len(out))
    ctx.trace(len(out))
    ctx.check(len(out) == len(made), 'warp-count', 'count')
    ti = f.mask.true_indices()
    for o, (im, p), s in zip(out, made, shapes):
        ctx.check(np.array_equal(s.points, p), 'warp-mutates', 'shape changed')
        ctx.check(o.shape == f.shape and np.array_equal(o.mask.mask, fm), 'warp-frame', 'mask or size differs from the frame')
        ctx.check(list(o.landmarks) == ['source'] and np.allclose(o.landmarks['source'].points, src), 'warp-landmarks',
                  'landmarks %s' % list(o.landmarks))
        got = o.pixels[:, ti[:, 0], ti[:, 1]].T
        inside = np.ones(len(ti), bool)
        if case['tr'] == 'pwa':
            exp, m = pwa_map(ti.astype(float), tri, src, p)
            inside = m > -1e-9
        else:
            exp = T(TriMesh(src, trilist=tri), TriMesh(p, trilist=tri)).apply(ti.astype(float))
        h, w = im.shape
        inside &= (exp > 0).all(1) & (exp[:, 0] < h - 1) & (exp[:, 1] < w - 1)
        ctx.check(inside.sum() > 20, 'vacuous', 'no interior pixels')
        ctx.close(got[inside][:, :2], exp[inside], 'warp-content', 'provenance', rtol=1e-6, atol=1e-6)
        ctx.close(got[inside][:, 2], 0.5 * exp[inside][:, 0] - 0.25 * exp[inside][:, 1] + 7., 'warp-content', 'mix', atol=1e-6)
        ctx.check(np.allclose(got[inside][:, 3], im.pixels[3, 0, 0]), 'warp-order', 'image/shape pairs mixed')
        ctx.state('warp', got)
    for (im, p), s in zip(made, snaps):
        same_snap(ctx, im, s, 'warp-mutates')
    ctx.check(np.array_equal(f.mask.mask, fm) and np.array_equal(f.pixels, fp) and
              np.array_equal(f.landmarks['source'].points, src), 'warp-mutates', 'reference frame changed')
    # no sharing between the outputs
    a = out[0].pixels.copy()
    lm = out[0].landmarks['source'].points.copy()
    out[1].pixels[...] = -5.
    out[1].landmarks['source'].points[...] = 0.
    ctx.check(np.array_equal(out[0].pixels, a), 'warp-independent', 'warped images share pixels')
    ctx.check(np.array_equal(out[0].landmarks['source'].points, lm), 'warp-independent', 'warped images share landmarks')
    # degenerate batches
    ctx.check(list(warp_images([], [], f, T)) == [], 'warp-count', 'empty batch')


def k_patch(case, ctx):
    from menpofit.builder import extract_patches
    from menpo.shape import PointCloud
    made = [mk(k) for k in case['ims']]
    ps = tuple(case['ps'])
    snaps = [snap(m[0]) for m in made]
    shapes = [PointCloud(m[1].copy()) for m in made]
    out = extract_patches([m[0] for m in made], shapes, ps)
    ctx.step(len(out))
    ctx.check(len(out) == len(made), 'patch-count', 'count')
    seen = []

    def norm(x):
        seen.append(x.copy())
        return x * 3. + 1.
    outn = extract_patches([m[0] for m in made], shapes, ps, normalise_function=norm)
    ctx.check(len(seen) == len(made), 'patch-normalise', 'normalisation not applied once per image')
    dy, dx = np.mgrid[:ps[0], :ps[1]]
    for o, on, (im, p) in zip(out, outn, made):
        a = o.pixels
        ctx.trace()
        if not ctx.check(a.shape == (6, 1, 4) + ps, 'patch-shape', str(a.shape)):
            continue
        for i in range(6):
            c0 = a[i, 0, :2, 0, 0]
            ctx.close(a[i, 0, 0], c0[0] + dy, 'patch-content', 'rows of patch %d' % i, atol=1e-9)
            ctx.close(a[i, 0, 1], c0[1] + dx, 'patch-content', 'columns of patch %d' % i, atol=1e-9)
            ctx.check(np.allclose(a[i, 0, 3], im.pixels[3, 0, 0]), 'patch-order', 'patch from another image')
            for ax in (0, 1):
                mid = c0[ax] + (ps[ax] - 1) / 2.
                tol = 0.5 if ps[ax] % 2 else 1.0
                ctx.check(abs(mid - p[i, ax]) <= tol + 1e-6, 'patch-centre',
                          'patch %d centred at %g for landmark %g (axis %d)' % (i, mid, p[i, ax], ax))
        ctx.close(on.pixels, a * 3. + 1., 'patch-normalise', 'normalisation of the own patches', atol=1e-9)
        ctx.state('patch', a)
    for (im, p), s, sh in zip(made, snaps, shapes):
        same_snap(ctx, im, s, 'patch-mutates')
        ctx.check(np.array_equal(sh.points, p), 'patch-mutates', 'shape changed')


def procrustes(a, b):
    """similarity (no reflection) aligning a to b, least squares"""
    ca, cb = a.mean(0), b.mean(0)
    x, y = a - ca, b - cb
    U, s, Vt = np.linalg.svd(x.T.dot(y))
    D = np.diag([1., np.sign(np.linalg.det(U.dot(Vt))) or 1.])
    R = U.dot(D).dot(Vt)
    sc = (s * np.diag(D)).sum() / (x ** 2).sum()
    return sc * x.dot(R) + cb


def k_align(case, ctx):
    from menpofit.builder import align_shapes
    from menpo.shape import PointCloud
    P = shape_sets()[case['shapes']]
    b = fx.base_points(6)
    if case['shapes'] == 'ring':
        P = [fx.deform(b, k) for k in range(5)]
    if len(P) < 2 or case['shapes'] == 'line':
        return
    for perm in itertools.islice(itertools.permutations(range(len(P))), 24):
        S = [PointCloud(P[i].copy()) for i in perm]
        out = align_shapes(S)
        ctx.step(len(out))
        ctx.trace(len(out))
        ctx.check(len(out) == len(S), 'align-count', 'count')
        for i, s in zip(perm, S):
            ctx.check(np.array_equal(s.points, P[i]), 'align-mutates', 'input changed')
        size = np.mean([np.linalg.norm(P[i] - P[i].mean(0)) for i in perm])
        mean = np.mean([o.points for o in out], 0)
        for o, i in zip(out, perm):
            sim = procrustes(P[i], o.points)
            ctx.close(sim, o.points, 'align-similarity', 'aligned shape is not a similarity of its own source',
                      rtol=1e-6, atol=1e-6 * size)
            ctx.close(o.points.mean(0), [0, 0], 'align-centre', 'centre', atol=1e-6 * size)
            opt = procrustes(P[i], mean)
            d0 = np.linalg.norm(o.points - mean)
            d1 = np.linalg.norm(opt - mean)
            ctx.check(d0 <= d1 * 1.02 + 1e-3 * size, 'align-optimal', 'distance to the mean %g, optimum %g' % (d0, d1))
        ctx.check(abs(np.linalg.norm(mean) / size - 1) < 0.25, 'align-scale', 'aligned size %g for input size %g' % (
            np.linalg.norm(mean), size))
        ctx.state('align', mean)


def k_dense(case, ctx):
    from menpofit.builder import densify_shapes, build_reference_frame
    from menpofit.transform import DifferentiablePiecewiseAffine
    from menpo.shape import TriMesh
    p, tri = mesh(case['mesh'])
    f = build_reference_frame(TriMesh(p * case['s'], trilist=tri))
    src = f.landmarks['source'].points
    pts = [p + 2., p * [1.2, 0.8] - 5., p.dot(np.array([[0.9, 0.2], [-0.2, 0.9]]))]
    for r in (1, 2, 3):
        for sel in itertools.permutations(range(3), r):
            S = [TriMesh(pts[i].copy(), trilist=tri) for i in sel]
            out = densify_shapes(S, f, DifferentiablePiecewiseAffine)
            ctx.step(len(out))
            ctx.trace(len(out))
            ctx.check(len(out) == len(S), 'dense-count', 'count')
            ti = f.mask.true_indices().astype(float)
            for o, i in zip(out, sel):
                exp, m = pwa_map(ti, tri, src, pts[i])
                ctx.close(o.points, np.vstack([pts[i], exp]), 'dense-content', 'dense shape', rtol=1e-6, atol=1e-6)
                ctx.state('dense', o.points)


def k_sampling(case, ctx):
    """sub-sampling masks: positions and image describe the same pixels of the reference"""
    from menpofit.aam.fitter import holistic_sampling_from_scale as by_scale, holistic_sampling_from_step as by_step
    m = fam.aam(case['model'], scales=case['scales'])
    ref = m.appearance_models[0].mean()
    M = ref.mask.mask.copy()
    n = int(M.sum())
    idx = np.argwhere(M)

    def same(tp, bi, want, tag):
        tp = np.asarray(tp)
        if not ctx.check(tp.dtype == bool and tp.shape == (n,), 'sampling', '%s: %s positions of shape %s for %d pixels' % (tag, tp.dtype, tp.shape, n)):
            return
        mk = np.asarray(bi.mask)
        if not ctx.check(mk.shape == M.shape, 'sampling', '%s: mask of shape %s' % (tag, mk.shape)):
            return
        ctx.check(not (mk & ~M).any(), 'sampling', '%s: %d pixels outside the reference' % (tag, (mk & ~M).sum()))
        ctx.check(np.array_equal(mk[M], tp), 'sampling', '%s: the positions and the mask differ' % tag)
        ctx.check(np.array_equal(tp, want), 'sampling', '%s: %d pixels selected, %d expected' % (tag, tp.sum(), want.sum()))
        ctx.check(np.array_equal(ref.mask.mask, m.appearance_models[0].mean().mask.mask) and np.array_equal(
            m.appearance_models[0].mean().mask.mask, M), 'sampling', '%s: the model changed' % tag)
        ctx.state(tag)
        ctx.step()
        ctx.trace()
    for step in list(range(1, 12)) + [n - 1, n, n + 5]:
        tp, bi = by_step(m, step)
        same(tp, bi, np.arange(n) % step == 0, '%s step %d' % (case, step))
    for s in (0.1, 0.2, 0.35, 0.5, 0.65, 0.75, 0.9, 1.0, 1.25, 1.5, 2.0):
        small = ref.rescale(s)
        a, b = small.landmarks['source'].points, ref.landmarks['source'].points
        f = np.linalg.norm(b - b.mean(0)) / np.linalg.norm(a - a.mean(0))
        hit = np.zeros_like(M)
        for y, x in np.round(np.argwhere(small.mask.mask) * f).astype(int):
            if 0 <= y < M.shape[0] and 0 <= x < M.shape[1]:
                hit[y, x] = True
        tp, bi = by_scale(m, s)
        same(tp, bi, hit[M], '%s scale %s' % (case, s))


def run(case, ctx):
    globals()['k_' + case['kind']](case, ctx)
