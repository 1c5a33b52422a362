import numpy as np
import scipy.linalg as la

import build
import oracle
from checks.c07 import prepare
from checks.c09 import check_grads

from runlmc.linalg.diag import Diag
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.lmc.grid_kernel import gen_grid_kernel
from runlmc.lmc.likelihood import ApproxLMCLikelihood
from runlmc.lmc.stochastic_deriv import (StochasticDeriv,
                                         StochasticDerivService)
from runlmc.util.inline_pool import InlinePool


class ExactProbes:
    """derivative service whose probes make the trace estimate exact:
    sum r r^T = k I"""

    def __init__(self, K, kind, rng):
        n = len(K)
        self.K = K
        if kind == 'had' and n & (n - 1) == 0:
            H = la.hadamard(n).astype(float)
            self.rs = H * np.sign(rng.randn(n))
            self.k = n
        elif kind == 'orth':
            Q = la.qr(rng.randn(n, n))[0]
            self.rs = Q * np.sqrt(3.0)
            self.k = 3
        else:
            self.rs = np.eye(n)[rng.permutation(n)] * 2.0
            self.k = 4

    def generate(self, K, y):
        inv = la.solve(self.K, self.rs.T).T
        return StochasticDeriv(la.solve(self.K, y), self.rs, list(inv),
                               self.k)


def stored(fk, F):
    """gradients stored with the named parameters of the functional kernel"""
    nc = F.nl + F.ns
    out = dict(
        vecs=[np.array(getattr(fk, 'a%d' % q).gradient) for q in range(nc)],
        diags=[np.array(getattr(fk, 'kappa%d' % q).gradient)
               for q in range(F.nl)],
        noise=np.array(fk._noise.gradient))
    out['kerns'] = []
    for k, spec in zip(F.reals, F.kspecs):
        out['kerns'].append(np.array(k.gradient).reshape(-1) if
                            oracle.kparams(spec) else np.zeros(0))
    return out


def part_exact(c, R):
    F, Xs, axes, dists, interps = prepare(c)
    L = F.lmc()
    n = sum(c['lens'])
    R.nt(n >= 2)
    R.label(c['probe'], 'P%d' % F.P, 'groups%d' % len(axes))
    rng = np.random.RandomState(c['yrs'])
    Ys = [rng.randn(k) for k in c['lens']]
    y = np.hstack(Ys)
    K = L.ski(Xs, axes)
    e = np.linalg.eigvalsh(K)
    if e.min() < 1e-3:
        R.label('indefinite')     # a coarse grid: not a covariance
        K_ok = False
        return
    gk, _ = gen_grid_kernel(F.fk, dists, interps, list(c['lens']))
    A = ApproxLMCLikelihood(F.fk, gk, dists, interps,
                            [Y.copy() for Y in Ys],
                            ExactProbes(K, c['probe'], rng))
    want = L.grads(Xs, y, axes)
    Ki = la.inv(K)
    a = Ki.dot(y)
    G = 0.5 * (np.abs(np.outer(a, a)) + np.abs(Ki))
    mag = {(k, q): 0.0 for k in ('vecs', 'diags', 'kerns') for q in
           range(len(L.kernels))}
    mag[('noise', None)] = 0.0
    for kind, q, _, dK in L.dKs(Xs, axes):
        mag[(kind, q)] = max(mag[(kind, q)],
                             (G * np.abs(dK)).sum() +
                             G.sum() * np.abs(dK).max() * 0.1)
    cond = e.max() / e.min()

    def tol(name, q):
        return 1e-12 * max(cond, 1e3) * mag[(name, q)] + 1e-10
    check_grads(R, A, want, 'model likelihood', 1e-7, tol)
    R.close(A.alpha(), a, 'alpha', rtol=1e-7,
            atol=1e-10 * cond * np.abs(a).max())
    # handing the gradients to the kernel stores each with its parameter
    F.fk.update_gradient(A)
    st = stored(F.fk, F)
    nc = F.nl + F.ns
    for q in range(nc):
        R.close(st['vecs'][q], want['vecs'][q], 'stored with a%d' % q,
                rtol=1e-7, atol=tol('vecs', q))
    for q in range(F.nl):
        R.close(st['diags'][q], want['diags'][q], 'stored with kappa%d' % q,
                rtol=1e-7, atol=tol('diags', q))
    for q, g in enumerate(want['kerns']):
        R.close(st['kerns'][q], np.array(g).reshape(-1),
                'stored with kernel %d' % q, rtol=1e-7, atol=tol('kerns', q))
    R.close(st['noise'], want['noise'], 'stored with the noise', rtol=1e-7,
            atol=tol('noise', None))
    R.check(F.fk.gradient.shape == F.fk.param_array.shape,
            'gradient has %r entries', F.fk.gradient.shape)


def part_service(c, R):
    """with a diagonal covariance and diagonal derivative every sign vector
    gives the exact trace"""
    n = c['n']
    rng = np.random.RandomState(c['rs'])
    d = 0.5 + rng.rand(n)
    y = rng.randn(n)
    np.random.seed(c['rs'])
    S = StochasticDerivService(None, InlinePool(None), c['k'], 1e-4)
    R.nt(n >= 2)
    D = S.generate(Diag(d.copy()), y.copy())
    R.close(D.alpha, y / d, 'alpha', rtol=1e-6, atol=1e-7)
    t = rng.randn(n)
    got = D.d_logdet_K(Diag(t))
    R.close(got, (t / d).sum(), 'trace with %d probes' % c['k'], rtol=1e-6,
            atol=1e-6 * np.abs(t / d).sum())
    a = y / d
    R.close(D.d_normal_quadratic(Diag(t)), (a * a * t).sum(),
            'quadratic form', rtol=1e-6, atol=1e-6 * (a * a *
                                                      np.abs(t)).sum())
    R.close(D.derivative(Diag(t)), 0.5 * ((a * a * t).sum() -
                                          (t / d).sum()),
            'derivative', rtol=1e-6,
            atol=1e-6 * (np.abs(t / d).sum() + (a * a * np.abs(t)).sum()))
    # every trace estimate uses probes of its own, and every product with
    # the derivative counts: a non-diagonal derivative with zero diagonal
    # averages to zero over many probes - not the same number every time
    R.label('k=1' if c['k'] == 1 else 'k>1')


def part_model(c, R):
    M = build.Model(c['m'])
    if R.warned():
        R.label('unconverged')
        return
    L = M.fk.lmc()
    axes = M.axes()
    y = M.y()
    R.nt(True)
    K = L.ski(M.Xs, axes)
    e = np.linalg.eigvalsh(K)
    if e.min() < 5e-3:
        R.label('nearly singular')
        return
    R.label('P%d' % M.P)
    Ki = la.inv(K)
    a = Ki.dot(y)
    want = L.grads(M.Xs, y, axes)
    st = stored(M.fk.fk, M.fk)
    k = c['m']['probes']
    nc = M.fk.nl + M.fk.ns
    slack = 1e-6 * (e.max() / e.min())
    for kind, q, i, dK in L.dKs(M.Xs, axes):
        if kind == 'vecs' and q >= nc or kind == 'diags' and q >= M.fk.nl:
            continue
        S = Ki.dot(dK)
        tr = np.trace(S)
        S = 0.5 * (S + S.T)
        var = 2 * ((S * S).sum() - (np.diag(S) ** 2).sum())
        sd = 0.5 * np.sqrt(max(var, 0) / k)
        qd = a.dot(dK).dot(a)
        if kind == 'noise':
            got, w = st['noise'][i], want['noise'][i]
        else:
            got, w = st[kind][q][i], np.asarray(want[kind][q])[i]
        tol = 14 * sd + slack * 1e-3 * (
            abs(qd) + abs(tr) + np.sqrt((S * S).sum())) + 1e-9
        R.check(abs(got - w) <= tol,
                'gradient of %s %r %r: %r, exact %r; more than 14 standard '
                'errors (%.3g) away with %d probes', kind, q, i, got, w, sd,
                k)


def structured(kind, s, n, rng):
    """symmetric, zero diagonal: the trace is zero, and only probes with
    uncorrelated entries average to that"""
    S = np.zeros((n, n))
    i = np.arange(n)
    if kind == 'shift':
        s = 1 + s % (n - 1)
        S[i[:-s], i[s:]] = 1.0
    elif kind == 'ones':
        S[:] = 1.0
    elif kind == 'flip':
        S[i, n - 1 - i] = 1.0
    elif kind == 'block':
        b = 1 + s % n
        S[:b, b:] = 1.0
    elif kind == 'pair':
        a, b = rng.permutation(n)[:2]
        S[a, b] = 1.0
    else:
        S = rng.randn(n, n)
    S = np.triu(S, 1)
    return S + S.T


def part_unbias(c, R):
    n, k = c['n'], c['k']
    rng = np.random.RandomState(c['rs'])
    np.random.seed(c['rs'])
    service = StochasticDerivService(None, InlinePool(None), k, 1e-4)
    R.nt(n >= 2)
    y = rng.randn(n)
    Ds = [service.generate(Diag(np.ones(n)), y) for _ in range(4)]
    for kind, s in c['dk']:
        S = structured(kind, s, n, rng)
        R.label(kind)
        d = rng.rand(n)
        T = NumpyMatrix(S + np.diag(d))
        got = np.mean([D.d_logdet_K(T) for D in Ds])
        sd = np.sqrt(2 * (S * S).sum() / (4 * k))
        R.check(abs(got - d.sum()) <= 10 * sd + 1e-5 * (1 + np.abs(S).sum()),
                'trace estimate of a %r derivative averages to %r over %d '
                'probes, exact %r, standard error %.3g', kind, got, 4 * k,
                d.sum(), sd)


part_large = part_model
