import numpy as np

import mats
from core import arr, layout

from runlmc.linalg.shur import shur
from runlmc.util.numpy_convenience import smallest_eig
from runlmc.util import testing_utils


def psd_top(n, rs, j, s, ridge=0.0):
    """first row of a PSD Toeplitz matrix: a positive combination of
    cosines"""
    rng = np.random.RandomState(rs)
    k = np.arange(n)
    top = np.zeros(n)
    for _ in range(j):
        top += rng.rand() * np.cos(rng.rand() * np.pi * k)
    top[0] += ridge
    if j == 0:
        top[0] += 1
    return s * top


def _expand(node):
    t = node['t']
    node = dict(node)
    if t == 'ptoep':
        return dict(t='toep', v=list(psd_top(node['n'], node['rs'],
                                             node['j'], node['s'])))
    if t == 'pdiag':
        rng = np.random.RandomState(node['rs'])
        v = rng.rand(node['n']) * node['s']
        if node['z']:
            v[rng.rand(node['n']) < 0.5] = 0
        return dict(t='diag', v=list(v))
    if t == 'psb':
        node['t'] = 'sb'
        node['bs'] = [_expand(b) for b in node['bs']]
    for k in ('ks', 'bs'):
        if k in node and t != 'psb':
            node[k] = [_expand(x) for x in node[k]]
    for k in ('A', 'B', 'K'):
        if k in node:
            node[k] = _expand(node[k])
    return node


def part_bound(c, R):
    node = _expand(c['m'])
    M, dense, _ = mats.build(node, c.get('share', False))
    R.nt(dense.shape[0] >= 2)
    R.label('root=' + node['t'])
    top = np.linalg.eigvalsh(dense).max()
    b = float(M.upper_eig_bound())
    sc = np.abs(dense).max()
    R.check(np.isfinite(b) and b >= top - 1e-9 * (sc + abs(top)),
            'upper_eig_bound %r is below the largest eigenvalue %r', b, top)
    b2 = float(M.upper_eig_bound())
    R.check(b == b2, 'bound changed on the second call: %r, %r', b, b2)


def part_toep(c, R):
    v = layout(arr(c['v']), c['lay'])
    f = np.array(v, dtype=float)
    R.nt(len(f) >= 2)
    e = np.linalg.eigvalsh(mats.dense_toep(f))
    sc = np.abs(f).sum()
    b = float(mats.Toeplitz(v).upper_eig_bound())
    R.check(np.isfinite(b) and b >= e.max() - 1e-9 * sc,
            'Toeplitz bound %r is below the largest eigenvalue %r', b,
            e.max())
    R.close(smallest_eig(v), e.min(), 'smallest_eig', rtol=1e-9,
            atol=1e-9 * sc + 1e-300)


def part_schur(c, R):
    top = psd_top(c['n'], c['rs'], c['j'], c['s'], c['e'])
    R.nt(len(top) >= 2)
    T = mats.dense_toep(top)
    t0 = top.copy()
    C = np.asarray(shur(top))
    R.check(np.array_equal(top, t0), 'argument altered')
    R.check(C.shape == T.shape, 'shape %r', C.shape)
    R.close(np.tril(C, -1), np.zeros(T.shape), 'below the diagonal',
            atol=1e-9 * np.sqrt(top[0]))
    R.close(C.T.dot(C), T, 'C^T C', rtol=0, atol=1e-7 * top[0])


def part_random(c, R):
    n = c['n']
    np.random.seed(c['rs'] % (2 ** 32))
    a = np.asarray(getattr(testing_utils, c['f'])(n), dtype=float)
    R.nt(n >= 2)
    R.label(c['f'])
    if c['f'] == 'rand_pd':
        R.check(a.shape == (n, n), 'shape %r', a.shape)
        R.close(a, a.T, 'symmetry')
        R.check((a > 0).all(), 'entries not positive')
        T = a
    else:
        R.check(a.shape == (n,), 'shape %r', a.shape)
        T = mats.dense_toep(a)
    R.check(np.isfinite(a).all(), 'not finite')
    e = np.linalg.eigvalsh(T).min()
    R.check(e >= -1e-9 * (n * np.abs(a).max() + 1e-30),
            'smallest eigenvalue %r', e)
