import numpy as np
import scipy.linalg as la
from scipy.special import ndtri

import build
import oracle

from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.models.interpolated_llgp import InterpolatedLLGP


def make(c):
    data = c['data']
    Xs = build.make_x(data, c['D'], 1)
    Ys = build.make_y(dict(data, yk='smooth'), Xs)
    ks = [build.scale_kern(k, data['span']) for k in c['ks']]
    reals = [build.real_kern(k, name='k%d' % i) for i, k in enumerate(ks)]
    m = GPyLMC([X.ravel() if f else X.copy() for X, f in
                zip(Xs, c['x1d'])], [Y.copy() for Y in Ys], reals,
               list(c['ranks']))
    return m, Xs, Ys, ks


def prods(m, Q):
    k = m.gpy_model.kern
    return [k] if Q == 1 else list(k.parts)


def read(m, ks, from_spec=False):
    """oracle twin from the hyperparameters GPy holds now"""
    As, kap, now = [], [], []
    for p, k in zip(prods(m, len(ks)), ks):
        base, B = p.parts[0], p.B
        v = float(base.variance[0])
        As.append(np.sqrt(v) * np.array(B.W).T)
        kap.append(v * np.array(B.kappa).ravel())
        l = float(base.lengthscale[0])
        n = dict(k)
        n['g'] = 1 / l if k['t'] == 'mat' else 1 / l ** 2
        if k['t'] == 'per':
            n['T'] = float(base.period[0])
        now.append(k if from_spec else n)
    noise = [float(l.variance[0]) for l in
             m.gpy_model.likelihood.likelihoods_list]
    return oracle.LMC(now, [(0,)] * len(ks), As, kap, np.array(noise))


def assign(m, ks, seed, D):
    rng = np.random.RandomState(seed)
    for p in prods(m, len(ks)):
        p.B.W[:] = rng.randn(*np.shape(p.B.W))
        p.B.kappa[:] = 0.1 + rng.rand(D)
        l = p.parts[0].lengthscale
        l[:] = np.array(l) * np.exp(0.3 * rng.randn())
    for l in m.gpy_model.likelihood.likelihoods_list:
        l.variance[:] = 0.05 + rng.rand()


def points(c, Xs):
    rng = np.random.RandomState(c['t']['rs'])
    d = c['data']
    out = []
    for n in c['t']['lens']:
        X = d['off'] + d['span'] * (rng.rand(n, 1) * 1.2 - 0.1)
        for i in range(n):
            if rng.rand() < .3:
                j = rng.randint(c['D'])
                X[i] = Xs[j][rng.randint(len(Xs[j]))]
        out.append(X)
    return out


def posterior(L, Xs, y, T):
    K = L.exact(Xs)
    C = L.cross(T, Xs)
    mean = C.dot(la.solve(K, y))
    S = la.solve(K, C.T)
    pv = np.repeat(L.prior_var() + L.noise, [len(t) for t in T])
    return K, mean, pv - (C.T * S).sum(axis=0), np.abs(S).sum(axis=0)


def check(c, R, m, L, Xs, Ys, when):
    T = points(c, Xs)
    y = np.hstack(Ys)
    n = sum(map(len, T))
    K = L.exact(Xs)
    emin = np.linalg.eigvalsh(K).min()
    top = np.abs(K).max()
    if emin < 1e-3 or not np.isfinite(K).all() or top > 1e6:
        R.label('nearly singular')
        return
    # GPy adds 1e-8 to the diagonal
    tol = 1e-6 * max(1.0, 0.01 / emin) * max(1.0, top)
    a = la.solve(K, y)
    want = oracle.loglik(K, y)
    R.close(m.log_likelihood(), want, 'log likelihood ' + when, rtol=1e-6,
            atol=1e-6 * (1 + len(y) / emin + a.dot(a)))
    if not n:
        return
    R.nt(c['D'] >= 2 or len(c['ks']) >= 2)
    K, mean, var, amp = posterior(L, Xs, y, T)
    mu, v = m.predict([t.ravel() if f else t.copy() for t, f in
                       zip(T, c['x1d'])])
    ends = np.add.accumulate([len(t) for t in T])[:-1]
    scale = 1 + np.abs(a).sum() * top
    wm, wv = np.split(mean, ends), np.split(var, ends)
    R.close_list(mu, wm, 'mean ' + when, rtol=1e-6, atol=tol * scale)
    R.close_list(v, wv, 'variance ' + when, rtol=1e-6, atol=tol * (1 + top))
    q = c['q']
    T2 = [t.copy() for t in T]
    Q = (m.predict_quantiles(T2) if q is None else
         m.predict_quantiles(T2, quantiles=tuple(q)))
    q = (2.5, 97.5) if q is None else q
    z = ndtri(np.array(q, dtype=float) / 100)
    R.close_list(Q, [a[:, None] + np.sqrt(np.maximum(b, 0))[:, None] * z
                     for a, b in zip(wm, wv)], 'quantiles ' + when,
                 rtol=1e-5, atol=10 * tol * (scale + top / np.sqrt(
                     max(var.min(), 1e-6))))


def part_exact(c, R):
    np.random.seed(c['rs'] % 2 ** 31)
    m, Xs, Ys, ks = make(c)
    R.label('D%d' % c['D'], 'Q%d' % len(ks), *[k['t'] for k in ks])
    for q, (p, r) in enumerate(zip(prods(m, len(ks)), c['ranks'])):
        R.check(np.shape(p.B.W) == (c['D'], r), 'coregionalization of '
                'kernel %d has shape %r, rank %d asked', q, np.shape(p.B.W),
                r)
    # at construction the kernels are the ones given
    check(c, R, m, read(m, ks, True), Xs, Ys, 'at construction')
    for op, v in c['steps']:
        R.label(op)
        if op == 'assign':
            assign(m, ks, v, c['D'])
        else:
            before = m.log_likelihood()
            m.optimize(optimizer='lbfgsb', max_iters=v)
            R.check(m.log_likelihood() >= before - 1e-6 * (1 + abs(before)),
                    'optimization lowered the likelihood')
        check(c, R, m, read(m, ks), Xs, Ys, 'after ' + op)


def part_agree(c, R):
    """the matrix-free model with the hyperparameters of the GPy model"""
    np.random.seed(c['rs'] % 2 ** 31)
    m, Xs, Ys, ks = make(c)
    assign(m, ks, c['rs'], c['D'])
    L = read(m, ks)
    fk = FunctionalKernel(
        D=c['D'], lmc_kernels=[build.real_kern(k) for k in L.kernels],
        lmc_ranks=[len(A) for A in L.As])
    fk.coreg_vecs = [A.copy() for A in L.As]
    fk.coreg_diags = [k.copy() for k in L.kappas]
    fk.noise = L.noise.copy()
    M = InterpolatedLLGP([X.copy() for X in Xs], [Y.copy() for Y in Ys],
                         functional_kernel=fk, normalize=False, m=60,
                         prediction='exact', trace_iterations=1, max_procs=1)
    d = c['data']
    T = [np.clip(t, d['off'], d['off'] + d['span'])
         for t in points(c, Xs)]
    n = sum(map(len, T))
    y = np.hstack(Ys)
    axes = {ad: [np.array(a) for a in v] for ad, v in M.grid_axes.items()}
    K, S = L.exact(Xs), L.ski(Xs, axes)
    emin = min(np.linalg.eigvalsh(K).min(), np.linalg.eigvalsh(S).min())
    if emin < 5e-3 or not n:
        R.label('skipped')
        return
    R.nt(c['D'] >= 2 or len(ks) >= 2)
    mu, v = R.hold(m.predict([t.copy() for t in T]), 'prediction')
    mu2, v2 = M.predict([t.copy() for t in T])
    top = np.abs(K).max()
    tol = max(R.solve_tol(len(y), emin), 1e-6) * max(1, top)
    R.close_list(v2, v, 'variance in exact mode against GPy', rtol=1e-6,
                 atol=tol * (1 + top))
    # the mean differs by the interpolation error, bounded analytically
    b = L.ski_bound(axes)
    ix = np.repeat(np.arange(c['D']), [len(X) for X in Xs])
    ti = np.repeat(np.arange(c['D']), [len(X) for X in T])
    C = L.cross(T, Xs)
    aS = np.abs(la.solve(S, y))
    slack = b[np.ix_(ti, ix)].dot(aS) + np.abs(la.solve(K, C.T).T).dot(
        b[np.ix_(ix, ix)]).dot(aS)
    diff = np.abs(np.concatenate(mu) - np.concatenate(mu2))
    lim = slack + tol * (1 + aS.sum() * top)
    R.check((diff <= lim).all(), 'mean against GPy differs by %r, allowed '
            '%r', diff, lim)
    R.label('tight' if slack.max() < 0.05 else 'loose')
    R.close(M.K(), K, 'covariance against GPy', rtol=1e-7, atol=1e-9 * top)
