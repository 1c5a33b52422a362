import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as sla

from core import layout
from checks.c02 import psd_top

from runlmc.approx.iterative import Iterative
from runlmc.linalg.diag import Diag
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz


def spectrum(c, rng):
    n, k = c['n'], c['cond']
    if c['sp'] == 'unif':
        e = 1 + (k - 1) * rng.rand(n)
    elif c['sp'] == 'log':
        e = k ** rng.rand(n)
    elif c['sp'] == 'even':
        e = k ** (np.arange(n) / max(n - 1.0, 1))
    elif c['sp'] == 'two':
        e = np.where(rng.rand(n) < 0.5, 1.0, k)
    else:
        e = np.ones(n) + 0.01 * rng.rand(n)
        e[0] = k
    return e * c['sc']


def part_solve(c, R):
    n = c['n']
    rng = np.random.RandomState(c['rs'])
    if c['wrap'] == 'toep':
        top = psd_top(n, c['rs'], 3, 1.0, 1.0 / c['cond'])
        top[0] += top[0] * 1e-3
        K = la.toeplitz(top) * c['sc']
        obj = Toeplitz(K[0].copy())
    elif c['n'] > 330:
        K = np.diag(spectrum(c, rng))
        obj = Diag(np.diag(K).copy()) if c['wrap'] == 'diag' else None
    else:
        Q = la.qr(rng.randn(n, n))[0]
        K = Q.dot(np.diag(spectrum(c, rng))).dot(Q.T)
        K = 0.5 * (K + K.T)
        obj = None
    e = np.diag(K) if n > 330 else np.linalg.eigvalsh(K)
    cond = e.max() / max(e.min(), 1e-300)
    calls = [0]
    K0 = K.copy()
    if c['wrap'] == 'wrap':
        def mv(x):
            calls[0] += 1
            return K0.dot(x)
        obj = Matrix.wrap((n, n), mv)
    elif c['wrap'] == 'diagsum':
        d = rng.rand(n) * e.min() * 0.5
        obj = SumMatrix([NumpyMatrix(K - np.diag(d)), Diag(d)])
    elif obj is None:
        obj = NumpyMatrix(K)
    if c['y'] == 'sign':
        y = (rng.randint(0, 2, n) * 2 - 1)
    elif c['y'] == 'int':
        y = rng.randint(-9, 10, n)
    elif c['y'] == 'zero':
        y = np.zeros(n)
    elif c['y'] == 'unit':
        y = np.zeros(n)
        y[rng.randint(n)] = c['ys']
    elif c['y'] == 'eig':
        y = np.linalg.eigh(K)[1][:, rng.randint(n)] * c['ys']
    else:
        y = rng.randn(n) * c['ys']
    if y.dtype.kind != 'i':
        y = layout(y, c['lay'])
    elif c['lay'] == 'ro':
        y.setflags(write=False)
    y0 = np.array(y)
    R.nt(n >= 2)
    tol = 1e-4 if c['tol'] is None else c['tol']
    kw = {} if c['tol'] is None else {'tol': tol}
    if not c['minres'] or rng.rand() < 0.5:
        kw['minres'] = c['minres']
    verbose = c['verbose'] or c['wrap'] == 'wrap'
    out = Iterative.solve(obj, y, verbose=verbose, **kw)
    used = calls[0]
    if verbose:
        R.check(isinstance(out, tuple) and len(out) == 3,
                'verbose mode returned %r', type(out))
        x, ctr, err = out
    else:
        x = out
    x = np.asarray(x, dtype=float)
    R.check(x.shape == (n,), 'solution has shape %r', x.shape)
    R.check(np.array_equal(y, y0), 'right-hand side altered')
    if c['wrap'] == 'dense':
        R.check(np.array_equal(K, K0), 'matrix altered')
    ny = la.norm(y0)
    r = la.norm(y0 - K0.dot(x))
    eps = 1e-13 * (ny + e.max() * la.norm(x)) * np.sqrt(n)
    warned = R.warned()
    R.label('warned' if warned else 'quiet',
            'minres' if c['minres'] else 'cg')
    R.check(np.isfinite(r), 'solution is not finite')
    R.check(r <= tol * (1 + 1e-6) + eps or warned,
            'residual %r exceeds the tolerance %r and nothing was reported',
            r, tol)
    if cond <= 12:
        R.label('well-conditioned')
        # the stopping rule of the Krylov methods is relative to the norms of
        # the matrix, the right-hand side and the solution
        lim = 1e-9 * (ny + e.max() * np.sqrt(n)) * la.norm(x) + 1e-8 * ny
        R.check(r <= max(tol, lim) + eps, 'residual %r (tolerance %r, rhs '
                'norm %r) on a system of condition %.3g', r, tol, ny, cond)
        if lim + eps <= tol:
            R.label('must converge')
        want = la.solve(K0, y0)
        R.close(x, want, 'solution', rtol=0,
                atol=(max(r, eps) / e.min()) * 1.01 + 1e-12)
    if 12 < cond <= (3000 if n <= 330 else 1.1e4) and r > tol + eps:
        # the method itself gets there with iterations to spare
        f = sla.minres if c['minres'] else sla.cg
        ref = f(K0, y0.astype(float), tol=min(1e-10, tol),
                maxiter=int(0.8 * n))[0]
        rr = la.norm(y0 - K0.dot(ref))
        R.label('hard')
        R.check(rr > 0.1 * tol, 'residual %r (tolerance %r) on a system of '
                'condition %.3g; the Krylov method reaches %r', r, tol, cond,
                rr)
    if verbose:
        R.close(err, r, 'reported error', rtol=1e-6, atol=eps)
        R.check(ctr == int(ctr) and 0 <= ctr <= n,
                'reported %r iterations for %d unknowns', ctr, n)
        if c['wrap'] == 'wrap':
            # one product per iteration, plus start-up, the final residual
            # and the periodic residual checks
            extra = used - ctr
            R.check(0 <= extra <= 5 + 2 * (ctr // 50) + 0.03 * ctr,
                    '%d products with the matrix for %d reported '
                    'iterations', used, ctr)
            if ny > 0 and r < 0.5 * ny:
                R.check(ctr >= 1, 'no iteration reported')


part_big = part_huge = part_solve
