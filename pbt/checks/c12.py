import numpy as np
import scipy.linalg as la

import build
import oracle


def quad_slack(R, M, K, y):
    """error allowed in y' K^-1 y: the solver's residual, which is tiny
    unless it reported a failure"""
    Kiy = la.solve(K, y)
    # the solver stops on a residual of 1e-10 relative to matrix and
    # solution; quiet means at most 1e-4
    rho = 1e-8 * la.norm(y) + 1e-9 * la.norm(K) * la.norm(Kiy)
    if len(y) >= 100:
        rho += 1e-4
    rho = min(rho, 1.01e-4)
    real = la.norm(y - K.dot(np.asarray(M.m.kernel.alpha(), dtype=float)))
    if R.warned():
        R.label('unconverged')
    else:
        real = min(real, 1.01e-4)
    rho = max(rho, real)
    return la.norm(Kiy) * rho * 1.01


def part_lik(c, R):
    M = build.Model(c['m'])
    L = M.fk.lmc()
    y = M.y()
    R.nt(M.D >= 2)
    R.label('P%d' % M.P, 'norm' if c['m']['norm'] else 'raw')
    K, E = L.ski(M.Xs, M.axes()), L.exact(M.Xs)
    ld = np.linalg.slogdet(E)[1]
    q = y.dot(la.solve(K, y))
    e = np.linalg.eigvalsh(K).min()
    if e < 1e-3 * M.fk.cs:
        R.label('indefinite')
        q = None
    R.close(M.m.log_det_K(), ld, 'log determinant', rtol=1e-8,
            atol=1e-7 * len(y))
    if q is None:
        return
    quad = M.m.normal_quadratic()
    tol = quad_slack(R, M, K, y) + 1e-8 * abs(q)
    R.close(quad, q, 'quadratic form', rtol=1e-8, atol=tol)
    want = -0.5 * (ld + q + len(y) * np.log(2 * np.pi))
    got = M.m.log_likelihood()
    R.close(got, want, 'log likelihood', rtol=1e-8,
            atol=tol + 1e-7 * len(y))
    R.close(M.m.log_likelihood(), got, 'log likelihood asked again',
            rtol=1e-13)
    R.close(M.m.log_likelihood_with_prior(), want,
            'log likelihood with no prior', rtol=1e-8,
            atol=tol + 1e-7 * len(y))


def part_big(c, R):
    M = build.Model(c['m'])
    E = M.fk.lmc().exact(M.Xs)
    w = np.linalg.eigvalsh(E)
    R.nt(M.D >= 2)
    sign, ld = np.linalg.slogdet(E)
    R.label('beyond floats' if abs(ld) > 700 else 'within floats')
    if w.min() < 1e-9 * w.max():
        R.label('singular')
        return
    tol = 1e-14 * len(E) * (w.max() / w).sum()
    got = M.m.log_det_K()
    R.close(got, ld, 'log determinant', rtol=1e-9, atol=tol + 1e-7 * len(E))
    q = M.m.normal_quadratic()
    R.close(M.m.log_likelihood(), -0.5 * (
        got + q + len(E) * np.log(2 * np.pi)), 'log likelihood from its '
        'terms', rtol=1e-9, atol=1e-7 * len(E))


def part_fine(c, R):
    M = build.Model(c['m'])
    L = M.fk.lmc()
    y = M.y()
    R.nt(M.D >= 2)
    E = L.exact(M.Xs)
    K = L.ski(M.Xs, M.axes())
    b = L.ski_bound(M.axes())
    ix = np.repeat(np.arange(M.D), [len(X) for X in M.Xs])
    B = b[np.ix_(ix, ix)]
    n2 = np.sqrt((B * B).sum())
    emin = np.linalg.eigvalsh(E).min()
    if n2 > 0.5 * emin:
        R.label('coarse')
        return
    R.label('fine')
    aE = la.solve(E, y)
    # ||K^-1 y|| <= ||E^-1 y|| / (1 - n2/emin)
    tol = la.norm(aE) ** 2 / (1 - n2 / emin) * n2
    got = M.m.log_likelihood()
    tol += quad_slack(R, M, K, y)
    R.close(got, oracle.loglik(E, y),
            'log likelihood on a fine grid', rtol=1e-7,
            atol=0.5 * tol + 1e-6 * len(y))


part_large = part_lik
