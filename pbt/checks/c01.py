import pickle

import numpy as np

import mats
from core import arr, layout


def _tol(bound, x):
    return 1e-10 * bound.dot(np.abs(x)) + 1e-300


def _cmp(R, got, dense, bound, x, what):
    x = np.asarray(x, dtype=float)
    exp = dense.dot(x)
    R.close(got, exp, what, rtol=0, atol=_tol(bound, x))


def part_tree(c, R):
    M, dense, bound = mats.build(c['m'], c.get('share', False))
    n, m = dense.shape
    R.nt(mats.count(c['m']) >= 2 or n >= 4)
    R.label('root=' + c['m']['t'], 'square' if n == m else 'rect')
    x = layout(arr(c['x']), c['xl'])
    rng = np.random.RandomState(c['xr'])
    X = rng.randn(m, c['k']) * 3 * c.get('xs', 1.0)
    if c.get('sym'):
        X = rng.randn(m, m)
        X = {'sym': X + X.T, 'eye': np.identity(m), 'zero': 0 * X,
             'same': np.repeat(X[:, :1], m, axis=1),
             'triu': np.triu(X)}[c['sym']]
    X = layout(X, c['Xl'])
    x0, X0 = np.array(x), np.array(X)
    _cmp(R, R.hold(M.matvec(x), 'matvec', x), dense, bound, x0, 'matvec')
    _cmp(R, R.hold(M.matmat(X), 'matmat', X), dense, bound, X0, 'matmat')
    z0 = rng.randn(m)
    _cmp(R, R.hold(M.matvec(z0), 'matvec, other operand'), dense, bound, z0,
         'matvec, other operand')
    R.check(tuple(M.shape) == (n, m), 'shape %r', M.shape)
    R.check(M.is_square() == (n == m), 'is_square')
    R.close(R.hold(M.as_numpy(), 'as_numpy'), dense, 'as_numpy', rtol=0,
            atol=1e-10 * bound + 1e-300)
    op = M.as_linear_operator()
    R.check(tuple(op.shape) == (n, m), 'operator shape %r', op.shape)
    _cmp(R, R.hold(op.matvec(x), 'operator.matvec', x), dense, bound, x0, 'operator.matvec')
    _cmp(R, R.hold(op.matmat(X), 'operator.matmat', X), dense, bound, X0, 'operator.matmat')
    _cmp(R, op.dot(x), dense, bound, x0, 'operator.dot')
    M2 = pickle.loads(pickle.dumps(M))
    R.check(tuple(M2.shape) == (n, m), 'shape after pickle')
    _cmp(R, M2.matvec(x), dense, bound, x0, 'matvec after pickle')
    _cmp(R, M2.as_linear_operator().matmat(X), dense, bound, X0,
         'operator.matmat after pickle')
    # evaluation left nothing behind
    _cmp(R, M.matmat(X), dense, bound, X0, 'matmat, second time')
    _cmp(R, M.matvec(x), dense, bound, x0, 'matvec, second time')
    R.close(M.as_numpy(), dense, 'as_numpy, second time', rtol=0,
            atol=1e-10 * bound + 1e-300)
    R.check(np.array_equal(x, x0) and np.array_equal(X, X0),
            'operand altered')
    # the same arrays with other entries
    for a in (x, X):
        if a.flags.writeable:
            a += 1
            a[:1] *= -2
    _cmp(R, M.matvec(x), dense, bound, x, 'matvec, operand changed in place')
    _cmp(R, M.matmat(X), dense, bound, X, 'matmat, operand changed in place')


part_big = part_mag = part_many = part_tree


def part_bad(c, R):
    t, n, m, d = c['t'], c['n'], c['m'], c['d']
    R.nt(True)
    R.label(t)
    one = mats.NumpyMatrix(np.ones((n, m)))
    f = {
        'toep2d': lambda: mats.Toeplitz(np.ones((n, m))),
        'toep0': lambda: mats.Toeplitz(np.array([])),
        'bttb2d': lambda: mats.BTTB(np.ones((n, m)), [n, m]),
        'bttb0': lambda: mats.BTTB(np.array([]), np.array([0, m])),
        'bttbsizes': lambda: mats.BTTB(np.ones(n * m), [n, m + d]),
        'bttbsizes2d': lambda: mats.BTTB(np.ones(n * m),
                                         np.array([[n, m]])),
        'diag0': lambda: mats.Diag(np.array([])),
        'diag2d': lambda: mats.Diag(np.ones((n, m))),
        'np1d': lambda: mats.NumpyMatrix(np.ones(n)),
        'np3d': lambda: mats.NumpyMatrix(np.ones((n, m, d))),
        'np0': lambda: mats.NumpyMatrix(np.ones((0, m))),
        'np0c': lambda: mats.NumpyMatrix(np.ones((n, 0))),
        'sum0': lambda: mats.SumMatrix([]),
        'summix': lambda: mats.SumMatrix(
            [one] * d + [mats.NumpyMatrix(np.ones((n + d, m)))]),
        'sbuneven': lambda: mats.SymmSquareBlockMatrix(
            [[mats.Identity(n)] * (d + 1) for _ in range(d)]),
        'sb0': lambda: mats.SymmSquareBlockMatrix([]),
        'id0': lambda: mats.Identity(0),
        'bd0': lambda: mats.BlockDiag([]),
        'wrap0': lambda: mats.Matrix.wrap((0, n), lambda x: x),
    }[t]
    R.raises(ValueError, f, t)
