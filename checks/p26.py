"""P26 - warped images show what lies under each given shape.

A coordinate image (every pixel stores its own position) makes the warp itself
observable: each pixel of a warped image says where it was taken from.  All
ordered selections of shapes up to a bounded length are asked for, before and
after fits of every fitter that offers warped images.
"""
import copy
import itertools

import numpy as np

from vlib import fx, fam, fitters

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of ordered shape selections x histories (new, after a fit, after an aborted request, interleaved) on '
             'real fitters, images whose pixels store their own coordinates; the provenance of every pixel is compared with a model of the warp')
RULE = ('fitters with warped images x all ordered selections (with repetition) of up to three of five shapes x histories; image kinds; '
        'a state is a distinct (fitter, shape, warped image)')
ASSUMPTIONS = ['menpo samples an image linearly and exactly at the positions it is asked for',
               'least squares alignments and thin plate splines of menpo (checked against the exact shapes of the model)']
CHUNK = 1

SIZE = (64, 72)
HIST = ['new', 'fit', 'abort', 'again', 'other-image']


def BOUNDS(tier):
    return dict(selection=3 if tier == 'quick' else 4, shapes=5, histories=len(HIST))


def names(tier):
    seen = {}
    for n in fitters.iterative(tier) + fitters.cascaded(tier):
        k = n.split(':')
        if k[0] in ('clm', 'sdm'):
            continue
        # the interface behind it: model x {plain, simultaneous-like, supervised}
        key = (k[0], k[1]) if k[0] in ('atm', 'aps') else (k[0],) if k[0] in ('sdaam', 'uni') else tuple(k)
        if k[0] == 'lk' and tier == 'quick':
            key = (k[0], k[1], k[2])
        if tier == 'thorough':
            key = n
        seen.setdefault(key, n)
    return list(seen.values())


def cases(tier):
    for n in names(tier):
        yield dict(kind='fitter', fam=n, L=BOUNDS(tier)['selection'])
    for kind in fam.AAM_KINDS + fam.ATM_KINDS:
        for scales in ([1.0], [1.0, 0.5], [0.25, 0.5, 1.0]):
            yield dict(kind='fitter', fam='%s:%s:%s' % (kind[-3:].lower(), kind, 'AlternatingInverseCompositional' if kind[-3:] == 'AAM'
                                                        else 'InverseCompositional'), L=2, scales=scales)
    for t in ('DifferentiablePiecewiseAffine', 'DifferentiableThinPlateSplines'):
        for kind in ('HolisticAAM', 'LinearAAM', 'HolisticATM', 'LinearATM'):
            yield dict(kind='fitter', fam='%s:%s:%s' % (kind[-3:].lower(), kind, 'ProjectOutInverseCompositional' if kind[-3:] == 'AAM'
                                                        else 'InverseCompositional'), L=2, transform=t)
    for ps in ([(5, 7), (9, 5)], [(4, 6), (6, 4)]):
        yield dict(kind='fitter', fam='aam:PatchAAM:ProjectOutInverseCompositional', L=2, patch=ps)
        yield dict(kind='fitter', fam='atm:PatchATM:InverseCompositional', L=2, patch=ps)
    # features belong to the model, warped images show the image itself; patches are normalised by the model's function
    for n in ('aam:HolisticAAM:ProjectOutInverseCompositional', 'atm:HolisticATM:ForwardCompositional', 'aam:LinearAAM:WibergInverseCompositional',
              'aam:PatchAAM:ProjectOutInverseCompositional', 'uni:ProjectOutRegularisedLandmarkMeanShift', 'aps:tree:Inverse',
              'lk:DifferentiableAlignmentAffine:InverseCompositional:SSD'):
        yield dict(kind='fitter', fam=n, L=2, feat=1)
    yield dict(kind='fitter', fam='atm:PatchATM:InverseCompositional', L=2, norm=1)
    for sampling in (2, 3):
        for kind in ('HolisticAAM', 'PatchAAM', 'LinearAAM'):
            yield dict(kind='fitter', fam='aam:%s:WibergInverseCompositional' % kind, L=2, sampling=sampling)


def coords(size=SIZE, off=(0., 0.), n=3):
    from menpo.image import Image
    y, x = np.meshgrid(np.arange(size[0]) + off[0], np.arange(size[1]) + off[1], indexing='ij')
    return Image(np.asarray([y, x, 2 * y - 0.5 * x + 3][:n], dtype=float))


def build(case):
    n = case['fam']
    mk = fitters.model_kind(n)
    kw, fk = {}, {}
    if case.get('scales'):
        kw['scales'] = case['scales']
    if case.get('transform'):
        import menpofit.transform as T
        kw['transform'] = getattr(T, case['transform'])
    if case.get('patch'):
        kw['patch_shape'] = [tuple(p) for p in case['patch']]
    if case.get('feat'):
        fk['holistic_features' if mk is None else ''] = kw['holistic_features'] = [tripled, squared]
    if case.get('norm'):
        kw['patch_normalisation'] = doubled
    m = fitters.model(mk, **kw) if mk else None
    if case.get('sampling'):
        s = case['sampling']
        if 'Patch' in n:
            s = [(np.indices((7, 7)).sum(axis=0) % s == 0)] * 2
        fk['sampling'] = s
    if kw.get('scales'):
        fk['n_shape'] = 3
    fk.pop('', None)
    return m, fitters.fitter(n, m, **fk)


def tripled(im):
    im = im.copy()
    im.pixels = im.pixels * 3.
    return im


def squared(im):
    im = im.copy()
    im.pixels = np.vstack([im.pixels ** 2, 1 - im.pixels])
    return im


def doubled(x):
    return x * 2. + 1.


def algorithm(f):
    return f.algorithms[-1]


def bary(src, tri, dst, q):
    """piecewise affine image of the points q; nan where outside"""
    out = np.full(q.shape, np.nan)
    for t in tri:
        a, b, c = src[t]
        M = np.column_stack([b - a, c - a])
        w = np.linalg.solve(M, (q - a).T).T
        m = (w >= -1e-9).all(axis=1) & (w.sum(axis=1) <= 1 + 1e-9) & np.isnan(out[:, 0])
        A, B, C = dst[t]
        out[m] = A + w[m, :1] * (B - A) + w[m, 1:] * (C - A)
    return out


class Oracle(object):
    """where each pixel of the warped image has to come from"""

    def __init__(self, name, f):
        self.kind = name.split(':')[0]
        a = algorithm(f)
        if self.kind == 'lk':
            self.template, self.src = a.template, copy.deepcopy(f.sources[-1])
            self.cls = name.split(':')[1]
            return
        self.t = copy.deepcopy(a.interface.transform)
        pdm = getattr(self.t, 'pdm', self.t)
        self.pdm = pdm
        self.linear = hasattr(self.t, 'dense_target')
        self.patch = not hasattr(self.t, 'transform') and not self.linear
        self.template = a.interface.template
        if self.linear:
            self.ns = self.t.n_landmarks
        elif not self.patch:
            self.src = self.template.landmarks['source']
            self.tcls = type(self.t.transform)
        else:
            self.ps = tuple(f.algorithms[-1].interface.patch_shape)

    def shapes(self):
        """named starting shapes: two of the model, one deformed, two arbitrary"""
        fx0 = fx.make_image(2).landmarks['PTS'].points
        if self.kind == 'lk':
            return [fx.pc(fx0 * 1.1 + 5), fx.pc(fx.make_image(4).landmarks['PTS'].points + 9), fx.pc(fx0 * 0.8 + 12),
                    fx.pc(fx0.dot(np.array([[.96, .28], [-.28, .96]])) + [3, 16]), fx.pc(fx0 * [1.2, .9] + [4, 12])], [False] * 5
        out, known = [], []
        self.dense = []
        p = self.pdm
        for j, (s, d) in enumerate((((1.15, 0.), (6., 8.)), ((1.0, 0.2), (4., 19.)))):
            R = np.array([[s[0], -s[1]], [s[1], s[0]]])
            g = fx0.dot(R) + d
            self.t.set_target(fx.pc(g)) if not self.patch else p.set_target(fx.pc(g))
            v = p.as_vector().copy()
            if j == 0:
                v[4:] = 0           # a similarity of the mean shape
            else:
                v[1] = 0            # a deformed, but not rotated one
                v[4:6] += [0.9, -0.6][:len(v) - 4]
            p._from_vector_inplace(v)
            self.dense.append(p.target.points.copy())
            tgt = self.t.sparse_target if self.linear else p.target
            out.append(fx.pc(tgt.points))
            known.append(j + 1)
        for k, d in ((4, 7.), (5, 11.5)):
            out.append(fx.pc(fx.make_image(k).landmarks['PTS'].points * (1 + 0.02 * d) + d / 2))
            known.append(False)
        r = np.random.RandomState(3).uniform(-2.5, 2.5, fx0.shape)
        out.append(fx.pc(fx0 + 8 + r))
        known.append(False)
        return out, known

    def positions(self, s, known):
        """(positions per pixel of the template mask) or (patch centres)"""
        if self.kind == 'lk':
            from menpo.transform import AlignmentAffine, AlignmentSimilarity
            c = AlignmentAffine if 'Affine' in self.cls else AlignmentSimilarity
            return c(self.src, s).apply(self.template.mask.true_indices().astype(float)), None
        if self.linear:
            if known:
                return self.dense[known - 1][self.ns:], None
            self.t.set_target(s)
            return self.t.target.points[self.ns:], None
        p = self.pdm
        p.set_target(s)
        tgt = p.target
        if known:
            tgt = s             # a shape of the model is reached exactly
        if self.patch:
            return None, tgt.points
        q = self.template.mask.true_indices().astype(float)
        if 'Piecewise' in self.tcls.__name__:
            return bary(self.src.points, self.src.trilist, tgt.points, q), None
        from menpo.transform import ThinPlateSplines
        return ThinPlateSplines(fx.pc(self.src.points), fx.pc(tgt.points)).apply(q), None


def check_one(ctx, orc, got, s, known, im, off, msg, norm=0):
    ctx.trace()
    pos, centres = orc.positions(s, known)
    n = im.n_channels
    off = np.asarray(off)

    def pixel(a):
        """a: ... x channels, positions relative to the image (before the offset)"""
        a = a + off
        return np.stack([a[..., 0], a[..., 1], 2 * a[..., 0] - 0.5 * a[..., 1] + 3][:n], axis=-1)
    if centres is not None:
        g = np.asarray(got if isinstance(got, np.ndarray) else got.pixels)
        if norm:
            g = (g - 1.) / 2.
        ps = orc.ps
        if not ctx.check(g.shape == (len(centres), 1, n) + ps, 'shape', '%s: patches of shape %s' % (msg, g.shape)):
            return
        dy, dx = np.mgrid[:ps[0], :ps[1]]
        for i, c in enumerate(centres):
            c0 = g[i, 0, :, 0, 0]
            rel = np.stack([dy, dx], axis=-1) + (c0[:2] - off)
            ctx.close(np.moveaxis(g[i, 0], 0, -1), pixel(rel), 'patch-content', '%s patch %d' % (msg, i), atol=1e-8)
            for ax in (0, 1):
                mid = c0[ax] - off[ax] + (ps[ax] - 1) / 2.
                ctx.check(abs(mid - c[ax]) <= (0.5 if ps[ax] % 2 else 1.0) + 1e-5, 'patch-centre',
                          '%s: patch %d is centred at %.2f for a landmark at %.2f (axis %d)' % (msg, i, mid, c[ax], ax))
        return
    mask = orc.template.mask
    if not ctx.check(hasattr(got, 'mask') and got.pixels.shape == (n,) + tuple(mask.shape), 'shape', '%s: %s' % (msg, got.pixels.shape)):
        return
    ctx.check(np.array_equal(got.mask.mask, mask.mask), 'mask', '%s: mask differs from that of the template' % msg)
    v = got.pixels[:, mask.mask].T
    h, w = im.shape
    ok = ~np.isnan(pos[:, 0]) & (pos >= 0).all(axis=1) & (pos[:, 0] <= h - 1) & (pos[:, 1] <= w - 1)
    # (pixels on the outline of the mesh may fall on either side of it)
    if not ctx.check(ok.mean() > 0.8, 'harness', '%s: only %d of %d pixels are compared' % (msg, ok.sum(), len(ok))):
        return
    ctx.close(v[ok], pixel(pos[ok]), 'content', '%s: content of the warped image' % msg, rtol=1e-6, atol=2e-5)


def run(case, ctx):
    name = case['fam']
    m, f = build(case)
    if not hasattr(f, 'warped_images'):
        ctx.bad('offer', '%s offers no warped images' % name)
        return
    orc = Oracle(name, copy.deepcopy(f))
    shapes, known = orc.shapes()
    wide = coords()
    first = {}

    def ask(sel, msg, im=wide, off=(0., 0.), it=list):
        ss = [shapes[i].copy() for i in sel]
        before = im.pixels.copy()
        got = f.warped_images(im, it(ss))
        ctx.step()
        if not ctx.check(isinstance(got, list) and len(got) == len(sel), 'count', '%s: %d warped images for %d shapes' % (
                msg, len(got), len(sel))):
            return
        ctx.check(np.array_equal(im.pixels, before), 'image-changed', msg)
        for a, i in zip(ss, sel):
            ctx.check(np.array_equal(a.points, shapes[i].points), 'shape-changed', msg)
        for k, (g, i) in enumerate(zip(got, sel)):
            key = (i, off, im.n_channels)
            px = np.asarray(g if isinstance(g, np.ndarray) else g.pixels)
            if key not in first and im.n_channels == 1:
                full = first[i, off, 3]         # each channel is warped alike
                ctx.close(px, full[:, :, :1] if full.ndim == 5 else full[:1], 'channels', '%s shape %d, one channel' % (msg, i), atol=1e-8)
            elif key not in first:
                check_one(ctx, orc, g, shapes[i], known[i], im, off, '%s shape %d' % (msg, i), case.get('norm'))
                first[key] = px.copy()
                ctx.state(name, sorted(case.items(), key=str).__repr__(), i, off, px)
            else:
                ctx.close(px, first[key], 'independent', '%s: warped image %d of selection %s differs from that of the shape alone' % (
                    msg, k, sel), atol=1e-5)
        for a, b in itertools.combinations(got, 2):
            pa, pb = [x if isinstance(x, np.ndarray) else x.pixels for x in (a, b)]
            ctx.check(not np.shares_memory(pa, pb), 'shared', '%s: warped images share memory' % msg)
    for i in range(len(shapes)):
        ask([i], 'new fitter, %s' % name)
    for L in range(case['L'] + 1):
        for sel in itertools.product(range(len(shapes)), repeat=L):
            if L > 2 and len(set(sel)) == 1:
                continue
            ask(list(sel), name)
    ask((4, 0), 'as tuple', it=tuple)
    for n, off in ((1, (0., 0.)), (3, (5., -9.)), (2, (0.5, 0.25))):
        ask([1, 2], '%s %d channels' % (name, n), im=coords(off=off, n=n), off=off)
    # all pairs of consecutive requests over shapes x images x one image object whose contents change in place
    a, b = coords(off=(11., 2.)), coords()
    buf = coords()
    alphabet = [(i, j) for i in (0, 3) for j in range(4)]
    for x, y in itertools.product(alphabet, repeat=2):
        for i, j in (x, y):
            off = ((11., 2.), (0., 0.), (-4., 6.), (7., 7.))[j]
            if j > 1:
                buf.pixels[...] = coords(off=off).pixels
            ask([i], '%s requests %s %s' % (name, x, y), im=(a, b, buf, buf)[j], off=off)
    # interleaved with fits and with requests that fail
    im = fx.make_image(7)
    for k, h in enumerate(('fit', 'bb', 'abort', 'fit')):
        try:
            if h == 'fit':
                f.fit_from_shape(im, fx.pc(im.landmarks['PTS'].points + 1 + k), **({} if name.startswith('sd') else dict(max_iters=2)))
            elif h == 'bb':
                f.fit_from_bb(im, im.landmarks['PTS'].bounding_box(), **({} if name.startswith('sd') else dict(max_iters=1)))
            else:
                f.warped_images(wide, [shapes[0], None])
        except (np.linalg.LinAlgError, ValueError, AttributeError):
            pass
        for sel in ([2], [0, 3], [4, 1, 0]):
            ask(sel, '%s after %s' % (name, h))
