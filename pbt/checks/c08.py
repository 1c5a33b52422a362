import numpy as np

import build


def run(spec, R):
    M = build.Model(spec)
    L = M.fk.lmc()
    axes = M.axes()
    for ad, ax in axes.items():
        for i, p in enumerate(ad):
            m = M.kw.get('m')
            if m is None:
                continue
            m = float(np.atleast_1d(m)[p if np.ndim(m) else 0])
            lo, hi = (np.atleast_1d(M.kw[b])[p if np.ndim(M.kw[b]) else 0]
                      if M.kw.get(b) is not None else None
                      for b in ('lo', 'hi'))
            X = np.concatenate([x[:, p] for x in M.Xs])
            lo = X.min() if lo is None else min(lo, X.min())
            hi = X.max() if hi is None else max(hi, X.max())
            # the bound below is in terms of the spacing: asking for more
            # grid points has to make it smaller
            h = np.diff(np.asarray(ax[i], dtype=float)).max()
            R.check(h <= 1.3 * (hi - lo) / m, 'grid spacing %r along '
                    'dimension %d for %d requested points on [%r, %r]', h, p,
                    m, lo, hi)
    exact = L.exact(M.Xs)
    bound = L.ski_bound(axes)
    ix = np.repeat(np.arange(M.D), [len(X) for X in M.Xs])
    B = bound[np.ix_(ix, ix)]
    top = np.abs(exact).max()
    got = np.asarray(M.m.kernel.K.as_numpy(), dtype=float)
    R.nt(bound.max() < 0.05 * top)
    for e in (0.5, 0.05, 5e-3, 5e-4):
        if bound.max() < e * top:
            R.label('bound<%g' % e)
    R.check(got.shape == exact.shape, 'shape %r', got.shape)
    err = np.abs(got - exact)
    bad = ~(err <= B + 1e-8 * top)
    if bad.any():
        i, j = np.unravel_index(np.argmax(np.where(bad, err - B, -1)),
                                bad.shape)
        R.check(False, 'covariance entry (%d, %d) is %r, exact value %r, '
                'interpolation error bound %.3g', i, j, got[i, j],
                exact[i, j], B[i, j])
    # noise is never approximated: the diagonal of differing noise levels
    R.close(np.asarray(M.m.K(), dtype=float), exact, 'exact covariance',
            rtol=1e-9, atol=1e-9 * top)


def part_one(c, R):
    run(c['m'], R)


part_long = part_one


def part_multi(c, R):
    spec = dict(c['m'])
    P = spec['fk']['P']
    g = dict(spec['grid'])
    if P == 2:
        base = g.get('m', [6] * P)
        r = c['r'] if isinstance(c['r'], list) else [c['r']] * 2
        g['m'] = [min(b * k, 90) for b, k in zip(base, r)]
    spec['grid'] = g
    run(spec, R)
