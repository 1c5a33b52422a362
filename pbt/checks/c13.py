import numpy as np
import scipy.linalg as la

import build
import oracle


class Posterior:
    """own dense posterior of a Model in its prediction mode (normalized
    units)"""

    def __init__(self, M, L=None):
        self.M = M
        self.L = L = L or M.fk.lmc()
        self.axes = M.axes()
        self.K = L.ski(M.Xs, self.axes)
        self.E = L.exact(M.Xs)
        self.y = M.y()
        self.emin = np.linalg.eigvalsh(self.K).min()

    def mean(self, T):
        C = self.L.ski_cross(T, self.M.Xs, self.axes)
        return C.dot(la.solve(self.K, self.y))

    def explained(self, T, mode):
        L, M = self.L, self.M
        C = L.cross(T, M.Xs)
        if mode == 'exact':
            return (C.T * la.solve(self.E, C.T)).sum(axis=0)
        if mode == 'on-the-fly':
            return (C.T * la.solve(self.K, C.T)).sum(axis=0)
        ad = L.groups()[0]
        W = oracle.block_interp(self.axes[ad], [X[:, list(ad)]
                                                for X in M.Xs])
        KXU = W.dot(L.grid_cov(ad, self.axes[ad]))
        nu = (KXU * la.solve(self.K, KXU)).sum(axis=0)
        WT = oracle.block_interp(self.axes[ad], [t[:, list(ad)] for t in T])
        return WT.dot(nu)

    def prior(self, T):
        return np.repeat(self.L.prior_var() + self.L.noise,
                         [len(t) for t in T])

    def var(self, T, mode):
        v = self.prior(T) - self.explained(T, mode)
        return np.maximum(v, 0)

    def unnorm(self, T, mean, var):
        ends = np.add.accumulate([len(t) for t in T])[:-1]
        st = self.M.norm_stats()
        mean = [m * s + mu for m, (mu, s) in zip(np.split(mean, ends), st)]
        var = [v * s * s for v, (mu, s) in zip(np.split(var, ends), st)]
        return mean, var

    def tol(self, R):
        t = R.solve_tol(len(self.y), self.emin, cs=self.M.fk.cs)
        # quiet solves may leave a residual of 1e-4
        alpha = np.asarray(self.M.m.kernel.alpha(), dtype=float)
        real = min(la.norm(self.y - self.K.dot(alpha)), 1.01e-4)
        return t + 3 * real / self.emin


def request(M, t):
    T = M.test_points(t)
    req = [X.copy() for X in T]
    if t.get('x1d') and M.P == 1:
        req = [X.ravel() for X in req]
    return T, req


def compare(R, got, want, what, tol, floor):
    R.check(isinstance(got, (list, tuple)) and len(got) == len(want),
            '%s: one array per output expected', what)
    for d, (g, w) in enumerate(zip(got, want)):
        R.close(g, w, '%s of output %d' % (what, d), rtol=tol,
                atol=tol * floor[d])


def part_pred(c, R):
    M = build.Model(c['m'])
    P = Posterior(M)
    mode = c['m']['mode']
    T, req = request(M, c['t'])
    n = sum(len(t) for t in T)
    R.nt(n > 0)
    R.label(mode, 'P%d' % M.P, 'groups%d' % len(P.axes))
    if P.emin < 5e-3 * M.fk.cs:
        R.label('nearly singular')
        return
    mu, var = R.hold(M.m.predict(req), 'prediction')
    tol = P.tol(R)
    wm, wv = P.unnorm(T, P.mean(T), P.var(T, mode))
    pv = P.L.prior_var() + P.L.noise
    st = M.norm_stats()
    # magnitudes entering the sums
    amp = np.abs(la.solve(P.K, P.y)).max()
    fm = [(1 + pv.max() * (1 + amp)) * s + abs(mu_) for mu_, s in st]
    fv = [(p + pv.max()) * s * s for p, (mu_, s) in zip(pv, st)]
    compare(R, mu, wm, 'mean', tol, fm)
    compare(R, var, wv, 'variance (%s)' % mode, tol, fv)
    # what was handed out is the caller's to overwrite
    R.spoil(M.m.predict(req))
    mu, var = M.m.predict(req)
    compare(R, mu, wm, 'mean asked again', tol, fm)
    compare(R, var, wv, 'variance (%s) asked again' % mode, tol, fv)


part_many = part_pred


def part_fine(c, R):
    M = build.Model(c['m'])
    P = Posterior(M)
    L = P.L
    mode = c['m']['mode']
    T, req = request(M, c['t'])
    n = sum(len(t) for t in T)
    b = L.ski_bound(P.axes)
    ix = np.repeat(np.arange(M.D), [len(X) for X in M.Xs])
    ti = np.repeat(np.arange(M.D), [len(X) for X in T])
    B = b[np.ix_(ix, ix)]
    if not n:
        return
    C = L.cross(T, M.Xs)
    aE = la.solve(P.E, P.y)
    aK = la.solve(P.K, P.y)
    if np.sqrt((B * B).sum()) > 0.2 * np.linalg.eigvalsh(P.E).min():
        R.label('coarse')
        return
    R.nt(True)
    R.label('fine', mode)
    SE, SK = la.solve(P.E, C.T).T, la.solve(P.K, C.T).T
    # |k~ K^-1 y - k E^-1 y| <= |k~ - k| |K^-1 y| + |E^-1 k|' B |K^-1 y|
    tm = b[np.ix_(ti, ix)].dot(np.abs(aK)) + np.abs(SE).dot(B).dot(
        np.abs(aK))
    wm, wv = C.dot(aE), np.maximum(P.prior(T) - (C * SE).sum(axis=1), 0)
    if mode == 'exact':
        tv = np.zeros(n)
    elif mode == 'on-the-fly':
        tv = (np.abs(SE).dot(B) * np.abs(SK)).sum(axis=1)
    else:
        ad = L.groups()[0]
        U = oracle.grid_points(P.axes[ad])
        CU = L.cross([U] * M.D, M.Xs)
        ui = np.repeat(np.arange(M.D), len(U))
        SU = la.solve(P.E, CU.T).T
        CK = CU + 0
        SUK = la.solve(P.K, CK.T).T
        f = (CU * SU).sum(axis=1)
        db = b[np.ix_(ui, ix)]
        # nu(u) = k~' K^-1 k~ with |k~ - k| <= db
        ki = np.abs(la.inv(P.K))
        bu = (np.abs(SU).dot(B) * np.abs(SUK)).sum(axis=1) + 2 * (
            db * np.abs(SUK)).sum(axis=1) + (db.dot(ki) * db).sum(axis=1)
        WT = oracle.block_interp(P.axes[ad], [t[:, list(ad)] for t in T])
        tv = np.abs(WT).dot(bu) + np.abs(WT.dot(f) - (C * SE).sum(axis=1))
    mu, var = R.hold(M.m.predict(req), 'prediction')
    tol = max(P.tol(R), 1e-5)
    st = M.norm_stats()
    ends = np.add.accumulate([len(t) for t in T])[:-1]
    wm, wv = P.unnorm(T, wm, wv)
    pv = (L.prior_var() + L.noise).max()
    for d, (a, e, t, (m0, s)) in enumerate(zip(
            mu, wm, np.split(tm, ends), st)):
        R.check(np.shape(a) == e.shape, 'mean of output %d has shape %r', d,
                np.shape(a))
        bad = np.abs(a - e) > t * s + tol * (
            s * max(pv, 1) * (1 + np.abs(aE).max()) + abs(m0))
        R.check(not bad.any(), 'mean of output %d: %r, exact posterior mean '
                '%r (allowed error %r)', d, a, e, t * s)
    for d, (a, e, t, (m0, s)) in enumerate(zip(
            var, wv, np.split(tv, ends), st)):
        R.check(np.shape(a) == e.shape, 'variance of output %d has shape %r',
                d, np.shape(a))
        bad = np.abs(a - e) > (t + tol * 2 * pv) * s * s
        R.check(not bad.any(), 'variance of output %d: %r, exact posterior '
                'variance %r (allowed error %r)', d, a, e, t * s * s)


def part_split(c, R):
    M = build.Model(c['m'])
    groups = M.fk.lmc().groups()
    _, req = request(M, c['t'])
    R.label('groups%d' % len(groups))
    R.nt(len(groups) > 1)
    if len(groups) > 1:
        R.raises(ValueError, lambda: M.m.predict(req),
                 'precompute mode with split kernels')
        R.raises(ValueError, lambda: M.m.predict_quantiles(req),
                 'precompute mode with split kernels (quantiles)')


part_large = part_pred
