"""Flattening of arbitrary objects into comparable plain data (for comparing two
runs of the same code)."""
import functools
import numpy as np

SKIP = ('verbose', 'prefix')


def flatten(obj):
    out, seen = {}, {}
    _walk(obj, '', out, seen)
    return out


def _skip(k):
    return any(s in str(k) for s in SKIP)


def _walk(o, path, out, seen):
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
        out[path] = o
        return
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'O':
            out[path + '#'] = o.shape
            for i, x in enumerate(o.ravel()):
                _walk(x, '%s[%d]' % (path, i), out, seen)
        else:
            out[path] = o
        return
    if isinstance(o, functools.partial):
        _walk((o.func, o.args, o.keywords), path + '.partial', out, seen)
        return
    if isinstance(o, type) or callable(o) and hasattr(o, '__name__') and not hasattr(o, '__dict__'):
        out[path] = getattr(o, '__name__', repr(type(o)))
        return
    if hasattr(o, '__func__') or type(o).__name__ == 'function':
        out[path] = getattr(o, '__name__', '')
        return
    if id(o) in seen:
        out[path] = 'same as ' + seen[id(o)][0]
        return
    seen[id(o)] = (path, o)      # keeps o alive, so that ids stay unique
    if hasattr(o, 'toarray') and hasattr(o, 'nnz'):
        out[path] = np.asarray(o.toarray())
        return
    if isinstance(o, dict):
        ks = [k for k in o if not _skip(k)]
        out[path + '#'] = sorted(map(str, ks))
        for k in sorted(ks, key=str):
            _walk(o[k], '%s[%s]' % (path, k), out, seen)
        return
    if isinstance(o, (list, tuple)):
        out[path + '#'] = len(o)
        for i, x in enumerate(o):
            _walk(x, '%s[%d]' % (path, i), out, seen)
        return
    if isinstance(o, (set, frozenset)):
        out[path] = sorted(map(str, o))
        return
    mod = type(o).__module__ or ''
    if 'dlib' in mod and not hasattr(o, '__dict__'):
        if 'options' in type(o).__name__:
            for a in sorted(a for a in dir(o) if '__' not in a and not _skip(a)):
                out['%s.%s' % (path, a)] = getattr(o, a)
        else:
            out[path] = type(o).__name__
        return
    out[path + '#'] = type(o).__name__
    d = getattr(o, '__dict__', None)
    if d is None:
        return
    for k in sorted(d):
        if not _skip(k):
            _walk(d[k], '%s.%s' % (path, k), out, seen)


def difference(a, b, tol=1e-7):
    """'' or the first difference of two flattened objects"""
    if sorted(a) != sorted(b):
        d = sorted(set(a) ^ set(b))
        return 'only one has %s' % d[0]
    for k in sorted(a):
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
                return '%s: %s %s != %s %s' % (k, x.dtype, x.shape, y.dtype, y.shape)
            if x.dtype.kind in 'fc':
                if not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
                    return '%s: differs by %.3g' % (k, np.nanmax(np.abs(x - y)))
            elif not np.array_equal(x, y):
                return '%s: differs' % k
        elif isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
            if not np.isclose(x, y, rtol=tol, atol=tol, equal_nan=True):
                return '%s: %r != %r' % (k, x, y)
        elif type(x) != type(y) or x != y:
            return '%s: %r != %r' % (k, x, y)
    return ''
