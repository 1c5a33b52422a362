import numpy as np

import oracle
from core import layout

from runlmc.approx.interpolation import (
    cubic_kernel, interp_cubic, interp_bicubic, multi_interpolant)


def axis(g):
    return g['o'] + g['h'] * np.arange(g['m'])


def place(g, p):
    m = g['m']
    if p['a'] == 'lo':
        f = p['d']
    elif p['a'] == 'hi':
        f = m - 1 - p['d']
    elif p['a'] == 'u':
        f = p['d'] * (m - 1)
    elif p['a'] == 'near':
        f = round(p['d'] * (m - 1)) + p['e']
    elif p['a'] == 'g':
        f = round(p['d'] * (m - 1))
        return float(axis(g)[int(f)])
    else:
        f = p['d'] if p['d'] < 0 else m - 1 + p['d']
    return g['o'] + g['h'] * f


def dense(R, W, shape, what):
    R.check(hasattr(W, 'toarray'), '%s: not a sparse matrix', what)
    R.check(tuple(W.shape) == shape, '%s: shape %r expected %r', what,
            W.shape, shape)
    return W.toarray()


def slack(g):
    # rounding of grid coordinates, in cells (weights have slope <= 2)
    big = max(abs(g['o']), abs(g['o'] + g['h'] * g['m']), g['h'])
    return 1e-9 + 200 * 2.3e-16 * big / g['h'] * g['m']


def part_cubic(c, R):
    g = c['g']
    grid = axis(g)
    rng = np.random.RandomState(c['rs'])
    s = [place(g, p) for p in c['s']]
    more = max(c['n'] - len(s), 0)
    s += list(g['o'] + g['h'] * (g['m'] + 2) * (rng.rand(more) * 1.1 - .1))
    s = np.array(s, dtype=float)
    f = (s - grid[0]) / g['h']
    R.nt(bool(((f > 0) & (f < g['m'] - 1) & (f != np.floor(f))).any()))
    R.label('empty' if not len(s) else 'some',
            'outside' if ((f < 0) | (f > g['m'] - 1)).any() else 'inside')
    ss = layout(s, c['lay'])
    W = dense(R, interp_cubic(grid, ss), (len(s), g['m']), 'interp_cubic')
    exp = oracle.interp([grid], s)
    tol = slack(g) * (1 + np.abs(f).max() * 1e-6 if len(s) else 1)
    R.close(W, exp, 'weights', rtol=0, atol=tol)
    R.close(W.sum(axis=1), np.ones(len(s)), 'sum of weights', atol=1e-9)
    R.check(np.array_equal(np.asarray(ss), s), 'samples altered')
    R.spoil(interp_cubic(grid, ss))
    R.close(interp_cubic(grid, ss).toarray(), W, 'weights asked again',
            rtol=0, atol=0)
    # reproduces quadratics where two grid points lie on either side
    inner = (f >= 1) & (f <= g['m'] - 2)
    u = (grid - grid[0]) / g['h']
    for q in ([1, 0, 0], [0, 1, 0], [2, -3, 1]):
        R.close(W[inner].dot(np.polyval(q, u)), np.polyval(q, f[inner]),
                'quadratic %r' % q, atol=10 * tol * g['m'] ** 2)


def part_bicubic(c, R):
    gs = c['g']
    axes = [axis(g) for g in gs]
    rng = np.random.RandomState(c['rs'])
    s = [[place(g, p) for g, p in zip(gs, pp)] for pp in c['s']]
    for _ in range(c['n'] - len(s)):
        s.append([g['o'] + g['h'] * (g['m'] + 2) * (rng.rand() * 1.1 - .1)
                  for g in gs])
    s = np.array(s, dtype=float).reshape(-1, 2)
    R.nt(len(s) > 0)
    R.label('empty' if not len(s) else 'some')
    m = gs[0]['m'] * gs[1]['m']
    W = dense(R, interp_bicubic(axes[0], axes[1], layout(s, c['lay'])),
              (len(s), m), 'interp_bicubic')
    f = np.array([(s[:, i] - axes[i][0]) / gs[i]['h'] for i in (0, 1)])
    tol = 4 * (slack(gs[0]) + slack(gs[1])) * (
        1 + np.abs(f).max() * 1e-6 if len(s) else 1)
    R.close(W, oracle.interp(axes, s), 'weights', rtol=0, atol=tol)
    R.close(W.sum(axis=1), np.ones(len(s)), 'sum of weights', atol=1e-8)


def part_multi(c, R):
    P = c['P']
    gs = c['g']
    axes = [axis(g) for g in gs]
    rng = np.random.RandomState(c['rs'])
    Xs = []
    base = rng.rand(max(c['lens']), P)
    for n in c['lens']:
        u = rng.rand(n, P) * 1.2 - 0.1
        if c['sh'] == 'ends' and n:
            # all outputs start and end at the same place
            u[0], u[-1] = 0.13, 0.87
        elif c['sh'] == 'same':
            u = base[:n]
        elif c['sh'] == 'sorted':
            u = np.sort(u, axis=0)
        X = np.column_stack([g['o'] + g['h'] * (g['m'] - 1) * u[:, i]
                             for i, g in enumerate(gs)]).reshape(n, P)
        Xs.append(X.ravel() if P == 1 and c['d1'] else X)
    R.nt(len(Xs) >= 2 and sum(c['lens']) > 0)
    R.label('P%d' % P, 'empties' if 0 in c['lens'] else 'full')
    exp = oracle.block_interp(axes, Xs)
    W = dense(R, multi_interpolant(Xs, *axes), exp.shape,
              'multi_interpolant')
    R.close(W, exp, 'multi weights', rtol=0,
            atol=4 * sum(slack(g) for g in gs))
    R.spoil(multi_interpolant(Xs, *axes))
    R.close(multi_interpolant(Xs, *axes).toarray(), W,
            'multi weights asked again', rtol=0, atol=0)


def part_vast(c, R):
    gs = c['g']
    axes = [axis(g) for g in gs]
    rng = np.random.RandomState(c['rs'])
    Xs = [np.column_stack([g['o'] + g['h'] * (g['m'] - 1) * (
        rng.rand(n) * 1.1 - 0.05) for g in gs]).reshape(n, c['P'])
          for n in c['lens']]
    exp = oracle.block_interp(axes, Xs)
    R.nt(exp.shape[1] > 1e4)
    R.label('%de4 columns' % (exp.shape[1] // 10000))
    req = [X.ravel() if c['P'] == 1 and c['d1'] else X for X in Xs]
    W = dense(R, multi_interpolant(req, *axes), exp.shape,
              'multi_interpolant')
    R.close(W, exp, 'multi weights', rtol=0,
            atol=4 * sum(slack(g) for g in gs))


def part_kernel(c, R):
    x = np.array(c['v'], dtype=float)
    if c['nd'] and len(x) % 2 == 0:
        x = x.reshape(2, -1)
    R.nt(True)
    if (np.abs(x) > 2).any():
        R.label('beyond')
        R.raises(ValueError, lambda: cubic_kernel(x), 'beyond support')
        return
    exp = np.array([oracle.keys(t) for t in x.ravel()]).reshape(x.shape)
    x0 = x.copy()
    R.close(cubic_kernel(x), exp, 'cubic_kernel', atol=1e-12)
    R.check(np.array_equal(x, x0), 'argument altered')


def part_bad(c, R):
    t, n = c['t'], c['n']
    R.nt(True)
    R.label(t)
    rng = np.random.RandomState(c['rs'])
    g = c['g']
    grid = axis(g)
    ok = axis(dict(m=6, h=1.0, o=0.0))
    s = grid[0] + (grid[-1] - grid[0]) * rng.rand(n)
    s2 = np.column_stack([s, 5 * rng.rand(n)])
    s2y = s2[:, ::-1].copy()
    bent = grid.copy()
    i = rng.randint(1, len(grid) - 1)
    bent[i] += c['f'] * g['h']
    geo = grid[0] + g['h'] * (1.3 ** np.arange(len(grid)) - 1)
    short = grid[:rng.randint(1, 4)]
    f = {
        'grid2d': lambda: interp_cubic(grid.reshape(-1, 1), s),
        'samples2d': lambda: interp_cubic(grid, s.reshape(-1, 1)),
        'short': lambda: interp_cubic(short, s),
        'noneq': lambda: interp_cubic(bent, s),
        'noneqgeo': lambda: interp_cubic(geo, s),
        'bgridx2d': lambda: interp_bicubic(grid.reshape(-1, 1), ok, s2),
        'bgridy2d': lambda: interp_bicubic(ok, grid.reshape(1, -1), s2y),
        'bshortx': lambda: interp_bicubic(short, ok, s2),
        'bshorty': lambda: interp_bicubic(ok, short, s2y),
        'bs1d': lambda: interp_bicubic(grid, ok, s),
        'bs3c': lambda: interp_bicubic(grid, ok, np.column_stack([s2, s])),
        'bnoneqx': lambda: interp_bicubic(bent, ok, s2),
        'bnoneqy': lambda: interp_bicubic(ok, bent, s2y),
    }[t]
    R.raises(ValueError, f, t)
