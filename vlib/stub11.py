"""A stand-in for a fitter whose construction and calls are recorded (P11)."""
import numpy as np

BUILT = []      # one entry per construction
CALLS = []      # (fitter id, mode, image pixels, start points, options)
KINDS = ['plain', 'nonparam', 'param', 'ms-nonparam', 'ms-param']


class StubFitter(object):
    """fit_from_* return a scripted result of the requested kind; every shape is a
    known function of the image it got, of the start it got and of the options"""

    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs
        self.spec = args[0]
        self.payload = kwargs.get('payload')
        BUILT.append((args, dict(kwargs)))

    def _fit(self, mode, image, start, gt_shape=None, **options):
        CALLS.append((self, mode, np.array(image.pixels), np.array(start.points), dict(options, gt_shape=gt_shape)
                      if gt_shape is not None else dict(options)))
        # mutating what it was handed must not reach the caller's data
        r = result(self.spec, mode, image, start, gt_shape, options)
        return r

    def fit_from_bb(self, image, bounding_box, gt_shape=None, **kw):
        return self._fit('bb', image, bounding_box, gt_shape, **kw)

    def fit_from_shape(self, image, initial_shape, gt_shape=None, **kw):
        return self._fit('shape', image, initial_shape, gt_shape, **kw)


def result(spec, mode, image, start, gt, options):
    import menpofit.result as R
    from menpo.shape import PointCloud
    n = options.get('max_iters', spec['n'])
    n = list(n) if isinstance(n, (list, tuple)) else [n]
    rng = float(image.pixels.mean()) * 4 + (3. if mode == 'bb' else 0.) + float(options.get('alpha') or 0.)

    def sh(k):
        p = np.array(start.points)
        i = np.arange(len(p))
        return PointCloud(p + np.stack([np.sin(i + k + rng), np.cos(2 * i - k + rng)], 1))
    init = sh(0) if spec['init'] else None
    kind = spec['kind']
    costs = [float(k) + rng for k in range(sum(n))] if options.get('return_costs') else None
    if kind == 'plain':
        return R.Result(sh(1), image=image, initial_shape=init, gt_shape=gt)
    shapes = [sh(k) for k in range(1, 1 + sum(n))]
    par = [np.arange(3.) + k for k in range(sum(n) + 1)]
    if kind == 'nonparam':
        return R.NonParametricIterativeResult(shapes or [sh(9)], initial_shape=init, image=image, gt_shape=gt, costs=costs)
    if kind == 'param':
        return R.ParametricIterativeResult([sh(-1)] + shapes, par, initial_shape=init, image=image, gt_shape=gt,
                                           costs=costs)
    results, k = [], 1
    for ni in n:
        s = [sh(k + a) for a in range(ni)]
        k += ni
        c = [float(a) for a in range(ni)] if options.get('return_costs') else None
        if kind == 'ms-nonparam':
            results.append(R.NonParametricIterativeResult(s or [sh(k + .5)], initial_shape=sh(0), image=image, gt_shape=None,
                                                          costs=c))
        else:
            results.append(R.ParametricIterativeResult([sh(k + .25)] + s, par[:ni + 1], initial_shape=sh(0), image=image,
                                                       gt_shape=None, costs=c))
    from menpo.transform import Scale, Translation
    cls = R.MultiScaleNonParametricIterativeResult if kind == 'ms-nonparam' else R.MultiScaleParametricIterativeResult
    m = len(n)
    return cls(results, [1.0] * m, [Translation([0., 0.])] * m, [Scale(1., n_dims=2)] * m, image=image, gt_shape=gt)


# ---- preparations ----------------------------------------------------------
def homog(m):
    from menpo.transform import Homogeneous
    return Homogeneous(np.array(m, dtype=float))


MATS = dict(
    shift=[[1, 0, 3.5], [0, 1, -2.25], [0, 0, 1]],
    scale=[[2, 0, 0], [0, 2, 0], [0, 0, 1]],
    aniso=[[0.5, 0, 1], [0, 1.5, -2], [0, 0, 1]],
    rot=[[0.8, -0.6, 4], [0.6, 0.8, 1], [0, 0, 1]],
    affine=[[1.2, 0.3, -5], [-0.1, 0.7, 6], [0, 0, 1]],
)


def prepare(name, image, pointcloud):
    """image and shapes are expressed in another frame; transform maps back"""
    from menpo.image import Image
    t = homog(MATS[name])
    return Image(image.pixels[:, ::-1, 1:] * 0.5), t


def prepare_shift(image, pointcloud):
    return prepare('shift', image, pointcloud)


def prepare_scale(image, pointcloud):
    return prepare('scale', image, pointcloud)


def prepare_aniso(image, pointcloud):
    return prepare('aniso', image, pointcloud)


def prepare_rot(image, pointcloud):
    return prepare('rot', image, pointcloud)


def prepare_affine(image, pointcloud):
    return prepare('affine', image, pointcloud)


def prepare_dependent(image, pointcloud):
    """the frame depends on the start: the start's centre becomes the origin"""
    from menpo.image import Image
    c = pointcloud.centre()
    return Image(image.pixels * 0.25), homog([[1, 0, c[0]], [0, 1, c[1]], [0, 0, 1]])


OWN = dict(shift=prepare_shift, scale=prepare_scale, aniso=prepare_aniso, rot=prepare_rot, affine=prepare_affine,
           dependent=prepare_dependent)
