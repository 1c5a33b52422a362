import numpy as np

import build

from runlmc.approx.interpolation import autogrid


def verify(R, axes, Xs, lo, hi, m):
    """the grid predicate; lo/hi/m: arrays or None"""
    P = Xs[0].shape[1]
    X = np.vstack(Xs)
    R.check(len(axes) == P, '%d axes for %d dimensions', len(axes), P)
    for p in range(P):
        a = np.asarray(axes[p], dtype=float)
        mn, mx = X[:, p].min(), X[:, p].max()
        blo = mn if lo is None else min(lo[p], mn)
        bhi = mx if hi is None else max(hi[p], mx)
        n = int(m[p]) if m is not None else len(X) // len(Xs)
        R.check(a.ndim == 1 and len(a) == n + 4,
                'axis %d has %r points, expected %d', p, a.shape, n + 4)
        R.check(np.isfinite(a).all(), 'axis %d not finite', p)
        d = np.diff(a)
        h = (a[-1] - a[0]) / (len(a) - 1)
        eps = 1e-12 * max(abs(a[0]), abs(a[-1]))
        R.check((d > 0).all(), 'axis %d not increasing', p)
        R.check(np.abs(d - h).max() <= 1e-9 * h + 100 * eps,
                'axis %d not equispaced', p)
        t = 1e-9 * h + 10 * eps
        R.check(a[0] <= blo + t and a[-1] >= bhi - t,
                'axis %d [%r, %r] does not cover [%r, %r]', p, a[0], a[-1],
                blo, bhi)
        R.check((a <= mn + t).sum() >= 2,
                'axis %d: %d grid points at or below the smallest input %r',
                p, (a <= mn + t).sum(), mn)
        R.check((a >= mx - t).sum() >= 2,
                'axis %d: %d grid points at or above the largest input %r',
                p, (a >= mx - t).sum(), mx)
        # bounds that are not needed do not blow the grid up: the grid
        # stays within three cells of the requested range
        R.check(a[0] >= blo - 3 * h - t and a[-1] <= bhi + 3 * h + t,
                'axis %d [%r, %r] far exceeds [%r, %r]', p, a[0], a[-1],
                blo, bhi)


def _wrap(v, k):
    v = np.array(v)
    if k == 'list':
        return list(v)
    if k == 'int':
        return np.rint(v).astype(int)
    if k == 'float':
        return v.astype(float)
    if k == 'ro':
        v.setflags(write=False)
    return v


def part_direct(c, R):
    if c['k'] != 'int':
        c = dict(c, off=c['off'] * c.get('sc', 1),
                 span=c['span'] * c.get('sc', 1))
    rng = np.random.RandomState(c['rs'])
    P = c['P']
    Xs = []
    for n in c['lens']:
        X = rng.rand(n, P)
        if c['k'] == 'dup':
            X = np.round(X * 3) / 3
        elif c['k'] == 'clust':
            X = 0.4 + 0.05 * X
        X = c['off'] + c['span'] * X
        if c['k'] == 'int':
            X = np.rint(X * 10).astype(int)
        Xs.append(X)
    full = np.vstack(Xs)
    if (full.max(axis=0) == full.min(axis=0)).any():
        Xs[-1] = Xs[-1].copy()
        Xs[-1][-1] = full.max(axis=0) + 1
    lo = hi = m = None
    if 'lo' in c:
        lo = _wrap(c['off'] + c['span'] * np.array(c['lo']), c['lok'])
    if 'hi' in c:
        hi = _wrap(c['off'] + c['span'] * np.array(c['hi']), c['hik'])
    if 'm' in c:
        m = _wrap(c['m'], c['mk'])
    R.nt(lo is not None or hi is not None or m is not None or len(Xs) > 1)
    R.label('P%d' % P, 'lo' if lo is not None else 'nolo',
            'm' if m is not None else 'nom')
    keep = [None if v is None else np.array(v) for v in (lo, hi, m)]
    first = [np.array(a) for a in autogrid(Xs, lo, hi, m)]
    verify(R, first, Xs, *keep)
    second = autogrid(Xs, lo, hi, m)
    R.close_list(second, first, 'second call', rtol=0, atol=0)
    R.spoil(list(second))
    R.close_list(autogrid(Xs, lo, hi, m), first, 'third call', rtol=0,
                 atol=0)


def part_model(c, R):
    spec = c['m']
    M = build.Model(spec)
    R.nt(True)
    g = spec['grid']
    R.label('P%d' % M.P)
    want = {}
    for ad in M.fk.ads:
        want[ad] = True
    R.check(set(tuple(a) for a in M.m.grid_axes) == set(want),
            'grids for %r, expected %r', sorted(M.m.grid_axes),
            sorted(want))
    for ad in want:
        def pick(v):
            if v is None:
                return None
            v = np.atleast_1d(np.array(v, dtype=float))
            return v[list(ad)]
        verify(R, M.m.grid_axes[ad], [X[:, list(ad)] for X in M.Xs],
               pick(M.kw.get('lo')), pick(M.kw.get('hi')), pick(g.get('m')))
