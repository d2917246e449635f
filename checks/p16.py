"""P16 - regressors solve the least-squares problems they name."""
import itertools
import numpy as np

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of data shapes/settings and of every train/increment history (all ways of cutting a '
             'sample sequence into batches) on the real regressors against a from-scratch reference solver')
RULE = ('all (samples, features, outputs) up to the bound x bias x regularisation x 3 data families; every composition of '
        '<=N samples into train + increment batches in two orders; a state is the pair of solution matrix and history')
ASSUMPTIONS = ['well-conditioned deterministic data; the bias coefficient is regularised like the others',
               'component selection by variance is only exercised where it keeps at least one component']
CHUNK = 4


def BOUNDS(tier):
    return dict(samples=8 if tier == 'quick' else 12, features=4, outputs=3, increment_samples=6 if tier == 'quick' else 8)


def cases(tier):
    N = BOUNDS(tier)['samples']
    for n in range(2, N + 1):
        for p in range(1, 5):
            yield dict(kind='batch', n=n, p=p)
    M = BOUNDS(tier)['increment_samples']
    for n in range(2, M + 1):
        for p in (1, 2, 3):
            yield dict(kind='incr', n=n, p=p)
    yield dict(kind='refuse')


SCALE = {0: 1.0, 1: 1.0, 2: 1.0, 3: 1e4, 4: 1e-2}


def data(n, p, d, fam):
    fam, base = fam, {3: 0, 4: 1}.get(fam, fam)
    i = np.arange(n)[:, None]
    j = np.arange(p)[None]
    k = np.arange(d)[None]
    if base == 0:
        X = np.sin(1.3 * i * (j + 1) + 0.7 * j + 0.4) * (1 + 0.5 * j)
        Y = np.cos(0.9 * i * (k + 1) + 0.3 * k) * 2 + 0.1 * i
    elif base == 1:      # small integers
        X = ((i * i * (j + 2) + 3 * j + i * (j * j + 1)) % 7 - 3.0) + 0.25 * ((i == j % n))
        Y = ((i * (k + 3) + k) % 5 - 2.0)
    else:               # noise-free linear data
        X = np.sin(2.1 * i + 1.7 * i * j + j) * 1.5 + 0.2 * j
        X = X + 0.4 * np.cos(3.0 * (i + 1) * (j + 1))
        R = np.cos(1.1 * np.arange(p)[:, None] + 2.0 * k) + 0.3
        Y = X.dot(R) + 0.7 * (k + 1)
    return X * SCALE[fam], Y + 0.0


def aug(X, bias):
    return np.hstack([X, np.ones((len(X), 1))]) if bias else X


def ridge(X, Y, a):
    m = X.shape[1]
    return np.linalg.lstsq(np.vstack([X, np.sqrt(a) * np.eye(m)]) if a else X,
                           np.vstack([Y, np.zeros((m, Y.shape[1]))]) if a else Y, rcond=None)[0]


def cond_ok(X):
    s = np.linalg.svd(X, compute_uv=False)
    return len(s) and s[-1] > 0.05 * s[0] and s[-1] > 0.05


def predict_check(ctx, reg, R, p, bias, tag, key, d):
    Q = np.vstack([np.eye(p), np.linspace(-2, 3, p)[None], np.zeros((1, p))])
    want = aug(Q, bias).dot(R)
    Q0 = Q.copy()
    ctx.close(reg.predict(Q), want, key, tag, rtol=1e-6, atol=1e-7)
    for r in range(len(Q)):
        ctx.step()
        ctx.close(reg.predict(Q[r]), want[r], key + '-vector', tag, rtol=1e-6, atol=1e-7)
    ctx.check(np.array_equal(Q, Q0), key + '-mutates', tag)


def run_batch(case, ctx):
    from menpofit.math import IRLRegression, IIRLRegression, PCRRegression, OptimalLinearRegression, OPPRegression
    n, p = case['n'], case['p']
    for d, fam in itertools.product((1, 2), (3, 4)):
        # very large / small features: the regularisation weight is absolute
        X, Y = data(n, p, d, fam)
        for a in (0.3, 5.0, 0.3 * SCALE[fam] ** 2):
            for inc in (False, True):
                reg = IRLRegression(alpha=a, bias=False, incrementable=inc)
                reg.train(X, Y)
                ctx.step()
                R = ridge(X, Y, a)
                ctx.state('scaled', n, p, d, fam, a)
                ctx.close(reg.predict(X), X.dot(R), 'ridge-scaled', 'n=%d p=%d d=%d scale=%s alpha=%s' % (
                    n, p, d, SCALE[fam], a), rtol=1e-5, atol=1e-6)
    for d, fam in itertools.product((1, 2, 3), (0, 1, 2)):
        X, Y = data(n, p, d, fam)

        def train(reg):
            X0, Y0 = X.copy(), Y.copy()
            reg.train(X, Y)
            ctx.step()
            ctx.check(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'train-mutates', type(reg).__name__)
            return reg
        for bias in (True, False):
            Xa = aug(X, bias)
            tag0 = 'n=%d p=%d d=%d family=%d bias=%s' % (n, p, d, fam, bias)
            for a in (0, 0.3, 5.0):
                if a == 0 and (n < Xa.shape[1] or not cond_ok(Xa)):
                    continue
                R = ridge(Xa, Y, a)
                ctx.state('ridge', n, p, d, fam, bias, a)
                for inc in (False, True):
                    reg = train(IRLRegression(alpha=a, bias=bias, incrementable=inc))
                    predict_check(ctx, reg, R, p, bias, 'ridge alpha=%s %s' % (a, tag0), 'ridge', d)
            # principal component regression
            s = np.linalg.svd(Xa, compute_uv=False)
            if cond_ok(Xa):
                U, s, V = np.linalg.svd(Xa, full_matrices=False)
                cum = np.cumsum(s) / s.sum()
                for var in (None, 0.6, 0.9, 0.99):
                    k = len(s) if var is None else int((cum < var).sum())
                    if k == 0 or (var is not None and np.min(np.abs(cum - var)) < 1e-6):
                        continue
                    R = V[:k].T.dot((U[:, :k].T.dot(Y)) / s[:k, None])
                    ctx.state('pcr', n, p, d, fam, bias, k)
                    predict_check(ctx, train(PCRRegression(variance=var, bias=bias)), R, p, bias,
                                  'pcr variance=%s %s' % (var, tag0), 'pcr', d)
                # optimal regression: least squares inside the retained principal subspace
                l = s ** 2
                suml = np.cumsum(l) / l.sum()
                for var in (None, 0.6, 0.9, 0.99):
                    k = len(s) if var is None else int((suml < var).sum())
                    if k == 0 or (var is not None and np.min(np.abs(suml - var)) < 1e-6):
                        continue
                    R = V[:k].T.dot((U[:, :k].T.dot(Y)) / s[:k, None])
                    w = np.linalg.svd(U[:, :k].T.dot(Y), compute_uv=False)
                    if w[min(len(w), k) - 1] < 0.02 * w[0]:
                        continue    # ill-conditioned for the eigenvalue cut-off of the reconstruction basis
                    ctx.state('opt', n, p, d, fam, bias, k)
                    predict_check(ctx, train(OptimalLinearRegression(variance=var, bias=bias)), R, p, bias,
                                  'optimal variance=%s %s' % (var, tag0), 'optimal', d)
            # Procrustes
            C = Xa.T.dot(Y)
            for whiten in (False, True):
                if whiten:
                    if not cond_ok(Xa):
                        continue
                    # whitening with the covariance X'X / (n - 1) of the retained components
                    U, s, V = np.linalg.svd(Xa, full_matrices=False)
                    P = V.T.dot(V / (s ** 2 / (n - 1))[:, None])
                    C = P.dot(Xa.T.dot(Y))
                sv = np.linalg.svd(C, compute_uv=False)
                if min(C.shape) == 0 or sv[-1] < 1e-3 * sv[0]:
                    continue        # Procrustes solution not unique
                R = np.zeros(C.shape)
                Uc, _, Vc = np.linalg.svd(C, full_matrices=False)
                R = Uc.dot(Vc)
                ctx.state('opp', n, p, d, fam, bias, whiten)
                reg = train(OPPRegression(bias=bias, whiten=whiten))
                predict_check(ctx, reg, R, p, bias, 'procrustes whiten=%s %s' % (whiten, tag0), 'opp', d)
                if not whiten:
                    # optimality of the returned map among all orthogonal ones reached by small rotations
                    B = np.asarray([reg.predict(e) for e in np.eye(p)]) if not bias else None
                    if B is not None and B.shape[0] == B.shape[1]:
                        ctx.close(B.T.dot(B), np.eye(B.shape[1]), 'opp-orthogonal', tag0, rtol=1e-6, atol=1e-7)
                # exact recovery of an orthonormal map
                q = Xa.shape[1]
                if not whiten and d <= q and n >= q and cond_ok(Xa):
                    Q, _ = np.linalg.qr(np.cos(1.0 + 1.3 * np.arange(q * q).reshape(q, q) ** 1.1))
                    reg = OPPRegression(bias=bias)
                    if d == q:
                        reg.train(X, Xa.dot(Q))
                        predict_check(ctx, reg, Q, p, bias, 'exact ' + tag0, 'opp-exact', d)
        # inverse (indirect) regression: Y -> X solved, then pseudo-inverted
        for a, a2 in itertools.product((0, 0.3, 4.0), (0, 0.2, 3.0)):
            if a == 0 and (n < d or not cond_ok(Y)):
                continue
            J = ridge(Y, X, a)                 # d x p
            if a2 == 0 and (d > p or not cond_ok(J)):
                continue
            R = np.linalg.solve(J.dot(J.T) + a2 * np.eye(d), J).T
            ctx.state('inv', n, p, d, fam, a, a2)
            for bias in (True, False):
                reg = train(IIRLRegression(alpha=a, alpha2=a2, bias=bias))
                predict_check(ctx, reg, R, p, False, 'inverse alpha=%s alpha2=%s n=%d p=%d d=%d family=%d' % (
                    a, a2, n, p, d, fam), 'inverse', d)


def compositions(n):
    for mask in range(2 ** (n - 1)):
        out, c = [], 1
        for b in range(n - 1):
            if mask >> b & 1:
                out.append(c)
                c = 1
            else:
                c += 1
        yield out + [c]


def run_incr(case, ctx):
    from menpofit.math import IRLRegression
    n, p = case['n'], case['p']
    for d, fam, a, bias, rev in itertools.product((1, 2), (0, 1), (0, 0.3, 5.0), (True, False), (False, True)):
        X, Y = data(n, p, d, fam)
        if rev:
            X, Y = X[::-1].copy(), Y[::-1].copy()
        for comp in compositions(n):
            if a == 0 and (comp[0] < p + bias or not cond_ok(aug(X[:comp[0]], bias))):
                continue
            reg = IRLRegression(alpha=a, bias=bias, incrementable=True)
            pos = 0
            for b, c in enumerate(comp):
                xb, yb = X[pos:pos + c].copy(), Y[pos:pos + c].copy()
                (reg.train if b == 0 else reg.increment)(xb, yb)
                ctx.step()
                ctx.check(np.array_equal(xb, X[pos:pos + c]) and np.array_equal(yb, Y[pos:pos + c]), 'incr-mutates')
                pos += c
                R = ridge(aug(X[:pos], bias), Y[:pos], a)
                ctx.trace()
                ctx.state(n, p, d, fam, a, bias, rev, comp[:b + 1])
                # observable behaviour after every prefix of the history
                Q = np.vstack([np.eye(p), np.zeros((1, p))])
                if not ctx.close(reg.predict(Q), aug(Q, bias).dot(R), 'incremental', 'batches %s (after %d), p=%d d=%d alpha=%s bias=%s'
                                 % (comp, b + 1, p, d, a, bias), rtol=1e-5, atol=1e-6):
                    break


def run_refuse(ctx):
    from menpofit.math import IRLRegression, IIRLRegression, PCRRegression, OptimalLinearRegression, OPPRegression
    X, Y = data(6, 2, 2, 0)
    for mk in (lambda: IRLRegression(), lambda: IRLRegression(alpha=1.0, bias=False), lambda: IIRLRegression(),
               lambda: IIRLRegression(alpha=1.0, alpha2=1.0), lambda: PCRRegression(), lambda: PCRRegression(variance=0.9),
               lambda: OptimalLinearRegression(), lambda: OPPRegression(), lambda: OPPRegression(whiten=True)):
        reg = mk()
        reg.train(X, Y)
        before = reg.predict(X)
        ctx.step()
        ctx.raises((ValueError, NotImplementedError), lambda: reg.increment(X, Y), 'refuse-increment', type(reg).__name__)
        ctx.close(reg.predict(X), before, 'refuse-changed', type(reg).__name__)
        ctx.state(type(reg).__name__)
        # predictions after retraining only depend on the last training set
        reg.train(X[:5], Y[:5] * 2)
        reg2 = mk()
        reg2.train(X[:5], Y[:5] * 2)
        ctx.close(reg.predict(X), reg2.predict(X), 'retrain', type(reg).__name__)
    r = IRLRegression(alpha=0.5, incrementable=True)
    r.train(X, Y), r.increment(X, Y), r.train(X[:4], Y[:4])
    q = IRLRegression(alpha=0.5, incrementable=True)
    q.train(X[:4], Y[:4])
    ctx.close(r.predict(X), q.predict(X), 'retrain-incremented')
    r.increment(X[4:], Y[4:]), q.increment(X[4:], Y[4:])
    ctx.close(r.predict(X), q.predict(X), 'retrain-incremented')
    q = IRLRegression(alpha=0.5)
    q.train(X, Y)
    ctx.close(r.predict(X), q.predict(X), 'retrain-incremented')


def run(case, ctx):
    dict(batch=run_batch, incr=run_incr, refuse=lambda c, x: run_refuse(x))[case['kind']](case, ctx)
