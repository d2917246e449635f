"""Deterministic miniature images, shapes and trained models (no RNG)."""
import numpy as np
from functools import lru_cache


def base_points(n=6, c=(20., 24.), s=10.):
    t = np.arange(n) * 2 * np.pi / n + 0.3
    p = np.stack([np.sin(t) * s * 0.8, np.cos(t) * s], 1)
    p[::2] *= 0.55
    return p + np.array(c)


def deform(p, k):
    """k-th deterministic deformation of p (similarity + non-rigid)."""
    n = len(p)
    c = p.mean(0)
    q = p - c
    i = np.arange(n)
    th = 0.12 * np.sin(1.7 * k + 0.5)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    sc = 1 + 0.08 * np.cos(2.3 * k)
    nr = np.stack([0.9 * np.sin(0.7 * i + 1.3 * k), 0.9 * np.cos(1.1 * i - 0.9 * k)], 1)
    return (q + nr).dot(R.T) * sc + c + np.array([1.1 * np.sin(k), 1.3 * np.cos(2 * k)])


def pixels(shape, k, n_channels=1):
    y, x = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij')
    out = []
    for ch in range(n_channels):
        f = 0.5
        for a, b, ph, am in ((0.31, 0.11, 0.2, .2), (0.07, 0.23, 1.1, .15),
                             (0.45, -0.37, 2.0, .08)):
            f = f + am * np.sin(a * y + b * x + ph + 0.35 * k + 0.8 * ch)
        out.append(f)
    return np.asarray(out)


def trilist(p):
    from menpo.shape import TriMesh
    return TriMesh(p).trilist


def make_image(k=0, shape=(44, 50), n_channels=1, n_points=6, group='PTS',
               mesh=True, copies=None):
    from menpo.image import Image
    from menpo.shape import PointCloud, TriMesh
    p = deform(base_points(n_points), k)
    im = Image(pixels(shape, k, n_channels))
    if mesh:
        im.landmarks[group] = TriMesh(p, trilist=trilist(base_points(n_points)))
    else:
        im.landmarks[group] = PointCloud(p)
    return im


def make_images(n=4, **kw):
    return [make_image(k, **kw) for k in range(n)]


def pc(points):
    from menpo.shape import PointCloud
    return PointCloud(np.asarray(points, dtype=float))
