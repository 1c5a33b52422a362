import numpy as np
from scipy.special import ndtri

import build
from checks.c13 import request
from checks.c14 import usable, floors

from runlmc.models.multigp import MultiGP
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.kern.rbf import RBF


def spell(q, how):
    if how == 'list':
        return list(q)
    if how == 'array':
        return np.array(q, dtype=float)
    return tuple(q)


def ask(m, X, c):
    if c['q'] is None:
        return m.predict_quantiles(X), (2.5, 97.5)
    return m.predict_quantiles(X, quantiles=spell(c['q'], c['how'])), c['q']


def verify(R, Q, q, mu, var, tol, fm, fv):
    R.check(len(Q) == len(mu), '%d quantile arrays for %d outputs', len(Q),
            len(mu))
    z = ndtri(np.array(q, dtype=float) / 100.)
    for d in range(len(mu)):
        m, v = np.asarray(mu[d], float), np.asarray(var[d], float)
        sd = np.sqrt(v)
        want = m[:, None] + sd[:, None] * z[None, :]
        got = np.asarray(Q[d])
        R.check(got.shape == want.shape, 'quantiles of output %d: shape %r '
                'for %d points and %d percentages', d, got.shape, len(m),
                len(q))
        # a standard deviation sqrt(v) known to accuracy e in v
        e = tol * (v + fv[d])
        dsd = np.where(sd > 0, e / np.maximum(sd, np.sqrt(e)), np.sqrt(e))
        lim = tol * (np.abs(m) + fm[d])[:, None] + np.outer(dsd, np.abs(z))
        lim = lim + 1e-9 * np.abs(want) + 1e-12
        bad = ~(np.abs(got - want) <= lim)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            R.check(False, 'output %d point %d: %r%% quantile %r, expected '
                    '%r from mean %r variance %r', d, i, q[j], got[i, j],
                    want[i, j], m[i], v[i])
        # order
        o = np.argsort(np.array(q, dtype=float), kind='stable')
        R.check((np.diff(got[:, o], axis=1) >= -1e-9 * np.abs(
            got[:, o][:, 1:])).all(), 'quantiles of output %d do not '
            'increase with the percentage: %r', d, got)


def part_model(c, R):
    M = build.Model(c['m'])
    T, req = request(M, c['t'])
    R.label(c['m']['mode'], 'norm%d' % c['m']['norm'])
    n = sum(map(len, T))
    R.nt(n > 0 and (c['q'] is None or len(c['q']) > 1))
    e = usable(R, M)
    if e is None:
        return
    mu, var = M.m.predict([x.copy() for x in req])
    Q, q = ask(M.m, req, c)
    tol = R.solve_tol(sum(map(len, M.Xs)), e)
    verify(R, Q, q, mu, var, tol, *floors(M))


class Stub(MultiGP):
    """any predictive distribution, through the public base class"""

    def __init__(self, Xs, Ys, normalize, dist):
        super().__init__(Xs, Ys, normalize=normalize, name='stub')
        self.dist = dist

    def parameters_changed(self):
        pass

    def log_likelihood(self):
        return 0.0

    def _raw_predict(self, Xs):
        return ([m.copy() for m in self.dist[0]],
                [v.copy() for v in self.dist[1]])


def part_stub(c, R):
    rng = np.random.RandomState(c['rs'])
    D = len(c['lens'])
    Xs = [np.arange(5.) for _ in range(D)]
    Ys = [rng.randn(5) * 10 ** rng.uniform(-2, 3) + 50 * rng.randn()
          for _ in range(D)]
    mean = [rng.randn(n) * c['ms'] for n in c['lens']]
    var = [np.abs(rng.randn(n)) * c['vs'] * (rng.rand(n) > .2)
           for n in c['lens']]
    m = Stub(Xs, Ys, c['norm'], (mean, var))
    T = [rng.rand(n) for n in c['lens']]
    R.nt(sum(c['lens']) > 0 and len(c['q']) > 1)
    R.label('norm%d' % c['norm'])
    mu, v = m.predict(T)
    st = [(Y.mean(), Y.std()) if c['norm'] else (0., 1.) for Y in Ys]
    for d in range(D):
        R.close(mu[d], mean[d] * st[d][1] + st[d][0], 'mean', rtol=1e-9,
                atol=1e-9 * (st[d][1] + abs(st[d][0])))
        R.close(v[d], var[d] * st[d][1] ** 2, 'variance', rtol=1e-9)
    R.hold((mu, v), 'mean and variance')
    Q, q = ask(m, T, c)
    R.hold(Q, 'quantiles')
    lims = [abs(a) + b * c['ms'] for a, b in st]
    verify(R, Q, q, mu, v, 1e-12, lims, [0.0] * D)
    R.spoil(m.predict_quantiles(T, quantiles=q), m.predict(T))
    # asked for other percentages of the same distribution
    q2 = tuple(100. - x for x in q)[::-1] + (50.,)
    verify(R, m.predict_quantiles(T, quantiles=q2), q2, mu, v, 1e-12, lims,
           [0.0] * D)


def part_gpy(c, R):
    rng = np.random.RandomState(c['rs'])
    D = c['D']
    Xs = [np.sort(rng.rand(c['n'] + i)) for i in range(D)]
    Ys = [rng.randn(len(X)) + 3 * i for i, X in enumerate(Xs)]
    m = GPyLMC(Xs, Ys, [RBF(inv_lengthscale=1 + rng.rand())], [c['rank']])
    T = [rng.rand(n) for n in c['lens']]
    n = sum(map(len, T))
    R.nt(n > 0 and len(c['q']) > 1)
    if not n:
        R.label('no points')
        return
    mu, v = m.predict(T)
    Q, q = ask(m, T, c)
    mu, v = [np.asarray(a) for a in mu], [np.asarray(a) for a in v]
    verify(R, Q, q, mu, v, 1e-9, [1.0] * D, [1.0] * D)
