import numpy as np
import scipy.sparse as sp

import build
import oracle

from runlmc.lmc.grid_kernel import GridKernel, gen_grid_kernel


def prepare(c):
    """functional kernel, data and own grids"""
    F = build.FK(c['fk'], 1.0)
    F.fk.set_input_dim(F.P)
    rng = np.random.RandomState(c['rs'])
    full = [np.linspace(-0.3 - 0.1 * p, 1.4, m)
            for p, m in enumerate(c['m'])]
    Xs = []
    for n in c['lens']:
        X = rng.rand(n, F.P)
        if c['xk'] == 'gridpt':
            for i in range(n):
                for p in range(F.P):
                    X[i, p] = full[p][rng.randint(1, len(full[p]) - 1)]
        elif c['xk'] == 'dup':
            X = np.round(X * 3) / 3
        Xs.append(X)
    axes, dists, interps = {}, {}, {}
    for ad in F.lmc().groups():
        axes[ad] = [full[p] for p in ad]
        shape = [len(a) for a in axes[ad]]
        dists[ad] = oracle.grid_dist(axes[ad])[0].reshape(shape)
        W = sp.csr_matrix(oracle.block_interp(
            axes[ad], [X[:, list(ad)] for X in Xs]))
        interps[ad] = (W, W.T.tocsr())
    return F, Xs, axes, dists, interps


def part_rep(c, R):
    F, Xs, axes, dists, interps = prepare(c)
    L = F.lmc()
    R.nt(len(F.reals) >= 2 or F.D >= 2)
    R.label('P%d' % F.P, 'groups%d' % len(axes),
            'l%d s%d i%d' % (min(F.nl, 1), min(F.ns, 1), min(F.ni, 1)))
    rng = np.random.RandomState(c['vrs'])
    n = sum(c['lens'])
    total = 0
    sc = 0
    v = rng.randn(n)
    for ad in L.groups():
        W = interps[ad][0].toarray()
        want = W.dot(L.grid_cov(ad, axes[ad])).dot(W.T)
        s = np.abs(W).dot(np.abs(L.grid_cov(ad, axes[ad]))).dot(
            np.abs(W).T).max()
        sc += s
        total = total + want
        for kt in ('sum', 'bt', 'slfm'):
            G = GridKernel(F.fk, dists[ad], interps[ad][0], interps[ad][1],
                           kt, ad)
            R.check(tuple(G.shape) == (n, n), 'shape %r', G.shape)
            R.close(G.matvec(v.copy()), want.dot(v),
                    '%s product, active dims %r' % (kt, ad), rtol=1e-9,
                    atol=1e-10 * s * np.sqrt(n))
    K, kerns = gen_grid_kernel(F.fk, dists, interps, list(c['lens']))
    full = total + L.noise_diag(Xs)
    R.close(K.as_numpy(), full, 'covariance', rtol=1e-9, atol=1e-10 * sc)
    R.close(K.matvec(v), full.dot(v), 'covariance product', rtol=1e-9,
            atol=1e-10 * sc * np.sqrt(n))


def part_model(c, R):
    M = build.Model(c['m'])
    L = M.fk.lmc()
    axes = M.axes()
    R.nt(len(M.fk.reals) >= 2 or M.D >= 2)
    R.label('P%d' % M.P, 'groups%d' % len(axes))
    want = L.ski(M.Xs, axes)
    sc = np.abs(want).max()
    K = M.m.kernel.K
    R.close(K.as_numpy(), want, 'model covariance', rtol=1e-8,
            atol=1e-8 * sc)
    v = np.random.RandomState(c['vrs']).randn(len(want))
    R.close(K.matvec(v), want.dot(v), 'model covariance product', rtol=1e-8,
            atol=1e-8 * sc * len(v))


part_large = part_model


part_wide = part_rep
