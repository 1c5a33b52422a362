import numpy as np
import scipy.linalg as la

import build
import oracle

from runlmc.lmc.likelihood import ExactLMCLikelihood


def check_grads(R, got, want, what, rtol, scale_of):
    """got: likelihood object; want: oracle dict"""
    for name, fn in (('vecs', got.coreg_vec_gradients),
                     ('diags', got.coreg_diags_gradients),
                     ('kerns', got.kernel_gradients)):
        g = fn()
        R.check(len(g) == len(want[name]), '%s: %s for %d kernels, expected '
                '%d', what, name, len(g), len(want[name]))
        for q, (a, e) in enumerate(zip(g, want[name])):
            R.close(np.asarray(a, dtype=float), np.asarray(e, dtype=float),
                    '%s: gradient of %s of kernel %d' % (what, name, q),
                    rtol=rtol, atol=scale_of(name, q))
    R.close(got.noise_gradient(), want['noise'], what + ': noise gradient',
            rtol=rtol, atol=scale_of('noise', None))


def part_lik(c, R):
    F = build.FK(c['fk'], c['data']['span'])
    F.fk.set_input_dim(F.P)
    Xs = build.make_x(c['data'], F.D, F.P) if sum(
        c['data']['lens']) > 1 else [np.full((1, F.P), 0.3)]
    Ys = [np.array(y) for y in build.make_y(
        dict(c['data'], lens=[len(X) for X in Xs]), Xs)]
    R.nt(F.D >= 2)
    R.label('P%d' % F.P, 'D%d' % F.D)
    L = F.lmc()
    y = np.hstack(Ys)
    E = ExactLMCLikelihood(F.fk, Xs, [Y.copy() for Y in Ys])
    K = L.exact(Xs)
    top = np.abs(K).max()
    R.close(E.K, K, 'covariance', rtol=1e-9, atol=1e-9 * top)
    al = np.asarray(E.alpha(), dtype=float)
    R.check(al.shape == y.shape, 'alpha has shape %r', al.shape)
    res = np.abs(K.dot(al) - y).max()
    R.check(res <= 1e-7 * (np.abs(y).max() + top * np.abs(al).sum()),
            'K alpha differs from y by %r', res)
    # a direct solve: the residual is at the level of rounding
    lim = 1e-13 * len(y) * (la.norm(K) * la.norm(al) + la.norm(y)) * 10
    R.check(la.norm(K.dot(al) - y) <= lim, 'K alpha differs from y by %r in '
            'norm, rounding explains %r', la.norm(K.dot(al) - y), lim)
    # gradients: sum over entries of G * dK; tolerance relative to the sum
    # of magnitudes
    Ki = np.linalg.inv(K)
    a = Ki.dot(y)
    G = 0.5 * (np.outer(a, a) - Ki)
    want = L.grads_from(Xs, G)
    amp = np.abs(G).sum() * (1 + max(np.abs(A).max() for A in L.As)) ** 2
    kmax = {q: max([1.0] + [np.abs(g).max() for g in oracle.kgrad(
        k, oracle.pdist(np.vstack(Xs)[:, list(ad)],
                        np.vstack(Xs)[:, list(ad)]))]) *
            (1 if k['t'] != 'scaled' else max(1, k['s'])) *
            max(1, np.abs(B).max())
            for q, (k, ad, B) in enumerate(zip(L.kernels, L.ads, L.Bs()))}
    cond = np.linalg.cond(K)
    eps = 1e-13 * max(cond, 100)
    check_grads(R, E, want, 'exact likelihood', 1e-7,
                lambda n, q: eps * amp * kmax.get(q, 1.0))
    if c.get('low', 1.0) < 1 or F.cs != 1:
        R.label('low noise')
        return
    # the oracle derivative itself against differences of the likelihood
    rng = np.random.RandomState(c['rs'])
    t = 1e-5
    dirs = dict(vecs=[rng.randn(*A.shape) for A in L.As],
                diags=[rng.randn(L.D) * 0.1 * k for k in L.kappas],
                noise=rng.randn(L.D) * 0.3 * L.noise)

    def at(s):
        M = oracle.LMC(L.kernels, L.ads,
                       [A + s * d for A, d in zip(L.As, dirs['vecs'])],
                       [k + s * d for k, d in zip(L.kappas, dirs['diags'])],
                       L.noise + s * dirs['noise'])
        return oracle.loglik(M.exact(Xs), y)
    num = (at(t) - at(-t)) / (2 * t)
    g = E.coreg_vec_gradients(), E.coreg_diags_gradients(), \
        E.noise_gradient()
    ana = sum((np.asarray(a) * d).sum() for a, d in zip(g[0], dirs['vecs']))
    ana += sum((np.asarray(a) * d).sum() for a, d in zip(g[1],
                                                         dirs['diags']))
    ana += (np.asarray(g[2]) * dirs['noise']).sum()
    R.close(ana, num, 'derivative along a random direction', rtol=1e-3,
            atol=1e-5 * (abs(at(0)) + 1) + 1e-6 * amp)


def part_cross(c, R):
    F = build.FK(c['fk'], 1.0)
    F.fk.set_input_dim(F.P)
    rng = np.random.RandomState(c['rs'])
    A = [rng.rand(n, F.P) for n in c['a']]
    B = [rng.rand(n, F.P) for n in c['b']]
    how = c.get('how', 'free')
    if how == 'perm':
        B = [a[rng.permutation(len(a))] for a in A]
    elif how == 'same':
        B = list(A)
    elif how == 'swap':
        B = [a.copy() for a in A[::-1]]
    elif how == 'flip':
        B = [1 - a for a in A]
    elif c['shared']:
        B = [np.vstack([b, a[:2]]) for a, b in zip(A, B)]
    L = F.lmc()
    R.nt(F.D >= 2)
    R.label('empty' if 0 in c['a'] or 0 in c['b'] else 'nonempty',
            'P%d' % F.P)
    if not sum(map(len, A)) or not sum(map(len, B)):
        R.label('no points')
    want = L.cross(A, B)
    keep = [x.copy() for x in A], [x.copy() for x in B]
    got = ExactLMCLikelihood.kernel_from_indices(A, B, F.fk)
    sc = sum(np.abs(b).max() * (k.get('s', 1)) for b, k in
             zip(L.Bs(), L.kernels)) + 1e-300
    R.close(got, want, 'cross covariance', rtol=1e-9, atol=1e-10 * sc)
    got2 = ExactLMCLikelihood.kernel_from_indices(B, A, F.fk)
    R.close(got2, want.T, 'transposed cross covariance', rtol=1e-9,
            atol=1e-10 * sc)
    for a, b in zip(A + B, keep[0] + keep[1]):
        R.check(np.array_equal(a, b), 'inputs altered')


part_large = part_lik
