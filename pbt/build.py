"""Worker side: build real runlmc objects and their oracle twins from
specs."""
import numpy as np

import oracle
from core import HarnessError

from runlmc.kern.rbf import RBF
from runlmc.kern.matern32 import Matern32
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.kern.identity import Identity
from runlmc.kern.scaled import Scaled
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP


def scale_kern(k, span):
    """spec in unit-span units -> concrete parameters"""
    t = k['t']
    if t == 'rbf':
        out = dict(t=t, g=k['g'] / span ** 2)
    elif t == 'mat':
        out = dict(t=t, g=k['g'] / span)
    elif t == 'per':
        out = dict(t=t, g=k['g'], T=k['T'] * span)
    elif t == 'id':
        out = dict(t=t)
    elif t == 'scaled':
        out = dict(t=t, k=scale_kern(k['k'], span), s=k['s'])
    else:
        raise HarnessError(t)
    return out


def real_kern(k, ad=None, name=None):
    t = k['t']
    kw = {}
    if name is not None:
        kw['name'] = name
    if t == 'rbf':
        return RBF(inv_lengthscale=k['g'], active_dims=ad, **kw)
    if t == 'mat':
        return Matern32(inv_lengthscale=k['g'], active_dims=ad, **kw)
    if t == 'per':
        return StdPeriodic(inv_lengthscale=k['g'], period=k['T'],
                           active_dims=ad, **kw)
    if t == 'id':
        return Identity(active_dims=ad, **kw)
    if t == 'scaled':
        out = Scaled(real_kern(k['k'], ad, name))
        out.scale[:] = k['s']
        return out
    raise HarnessError(t)


def read_kern(rk):
    """concrete parameters of a real kernel, through its public attributes"""
    if isinstance(rk, RBF):
        return dict(t='rbf', g=float(rk.inv_lengthscale[0]))
    if isinstance(rk, Matern32):
        return dict(t='mat', g=float(rk.inv_lengthscale[0]))
    if isinstance(rk, StdPeriodic):
        return dict(t='per', g=float(rk.inv_lengthscale[0]),
                    T=float(rk.period[0]))
    if isinstance(rk, Identity):
        return dict(t='id')
    if isinstance(rk, Scaled):
        return dict(t='scaled', k=read_kern(rk.k), s=float(rk.scale[0]))
    raise HarnessError(repr(rk))


class FK:
    """real functional kernel + everything the oracle needs"""

    def __init__(self, spec, span=1.0, assign=True, perm=None):
        """perm: relabelled outputs; new output j is old output perm[j]"""
        self.spec = spec
        D, P = spec['D'], spec['P']
        self.D, self.P = D, P
        # overall magnitude of the covariance
        self.cs = cs = spec.get('cs', 1.0)
        indep = spec['indep']
        if cs != 1.0:
            indep = [dict(t='scaled', k=k, s=cs, **(
                {'ad': k['ad']} if 'ad' in k else {})) for k in indep]
        specs = spec['lmc'] + spec['slfm'] + indep
        self.kspecs = [scale_kern(k, span) for k in specs]
        self.raw_ads = [k.get('ad') for k in specs]
        self.ads = [tuple(range(P)) if a is None else tuple(sorted(a))
                    for a in self.raw_ads]
        self.reals = [real_kern(k, ad) for k, ad in
                      zip(self.kspecs, self.raw_ads)]
        nl, ns = len(spec['lmc']), len(spec['slfm'])
        ni = len(spec['indep'])
        idx0 = spec['idx']
        if perm is not None and ni:
            idx0 = [list(perm).index(i) for i in (
                idx0 if idx0 is not None else range(ni))]
        self.nl, self.ns, self.ni = nl, ns, ni
        kw = {}
        if nl or spec.get('pass_empty', True):
            kw.update(lmc_kernels=self.reals[:nl],
                      lmc_ranks=list(spec['ranks']))
        if ns:
            kw['slfm_kernels'] = self.reals[nl:nl + ns]
        if ni:
            kw['indep_gp'] = self.reals[nl + ns:]
            if idx0 is not None:
                kw['indep_gp_index'] = list(idx0)
        self.idx = list(idx0) if idx0 is not None else list(range(ni))
        self.fk = FunctionalKernel(D=D, **kw)
        rng = np.random.RandomState(spec['crs'])
        self.As, self.kappas = [], []
        for r in list(spec['ranks']) + [1] * ns:
            self.As.append(self._vals(rng, (r, D), spec['ck'])
                           * np.sqrt(cs))
        for _ in range(nl):
            k = (0.05 + rng.rand(D) * 1.5) * cs
            if spec['ck'] == 'const':
                k[:] = k[0]
            self.kappas.append(k)
        for _ in range(ns):
            self.kappas.append(np.zeros(D))
        for i in self.idx:
            self.As.append(np.zeros((1, D)))
            e = np.zeros(D)
            e[i] = 1
            self.kappas.append(e)
        self.noise = np.array(spec['noise'], dtype=float) * cs
        if perm is not None:
            nc = nl + ns
            p = list(perm)
            self.As[:nc] = [a[:, p] for a in self.As[:nc]]
            self.kappas[:nc] = [k[p] for k in self.kappas[:nc]]
            self.noise = self.noise[p]
        if assign:
            self.assign()

    @staticmethod
    def _vals(rng, shape, kind):
        v = rng.randn(*shape)
        if kind == 'sparse':
            v[rng.rand(*shape) < 0.5] = 0
        elif kind == 'int':
            v = np.rint(v * 1.3)
        elif kind == 'const':
            v = np.full(shape, np.rint(1.3 * v.flat[0]) or 1.0)
        elif kind == 'pos':
            v = np.abs(v)
        return v

    def assign(self):
        # SLFM diagonals and independent vectors are not parameters: only
        # the leading (assignable) entries are set
        nc = self.nl + self.ns
        self.fk.coreg_vecs = [a.copy() for a in self.As[:nc]]
        self.fk.coreg_diags = [k.copy() for k in self.kappas[:self.nl]]
        self.fk.noise = self.noise.copy()

    def lmc(self):
        """oracle twin from the intended values"""
        return oracle.LMC(self.kspecs, self.ads, self.As, self.kappas,
                          self.noise)

    def lmc_now(self):
        """oracle twin from the values the real object holds now"""
        return oracle.LMC([read_kern(k) for k in self.reals], self.ads,
                          self.fk.coreg_vecs, self.fk.coreg_diags,
                          self.fk.noise)


def make_x(data, D, P):
    rng = np.random.RandomState(data['xrs'])
    lens = data['lens']
    xk = data['xk']
    Xs = []
    shared = rng.rand(max(lens), P)
    for n in lens:
        if xk == 'grid' and P == 1:
            X = ((np.arange(n) + rng.rand() * 0.4) / max(n, 1)).reshape(-1, 1)
        elif xk == 'int':
            X = np.array([rng.permutation(3 * max(lens) - 1)[:n] + 1
                          for _ in range(P)]).T
        elif xk == 'sorted':
            X = np.sort(rng.rand(n, P), axis=0)
        elif xk == 'shared':
            X = shared[:n].copy()
        elif xk == 'dup':
            # repeated measurements, within and across outputs
            X = shared[rng.randint(0, 1 + 2 * len(shared) // 3, n)]
        elif xk == 'ends':
            # the same first and last input everywhere
            X = rng.rand(n, P)
            X[0], X[-1] = 0.0, 1.0
        elif xk == 'desc':
            X = np.sort(rng.rand(n, P), axis=0)[::-1].copy()
        elif xk == 'clust':
            X = 0.5 + 0.1 * rng.randn(n, P)
            X[0] = rng.rand(P)
            X = np.clip(X, 0, 1) + 1e-4 * rng.rand(n, P)
        else:
            X = rng.rand(n, P)
        Xs.append(X)
    if xk == 'int':
        Xs[0][0] = 0
        Xs[-1][-1] = 3 * max(lens)
        return Xs
    # make sure the overall range is not degenerate
    Xs[0][0] = 0.0
    Xs[-1][-1] = 1.0
    if sum(lens) == 1:
        raise HarnessError('need two points')
    return [data['off'] + data['span'] * X for X in Xs]


def make_y(data, Xs):
    rng = np.random.RandomState(data['yrs'])
    Ys = []
    for i, X in enumerate(Xs):
        u = (X - data['off']) / data['span']
        n = len(X)
        e = rng.randn(n)
        if data['yk'] == 'smooth':
            y = np.sin(4 * u.sum(axis=1) + i) + 0.2 * e + 0.3 * i
        elif data['yk'] == 'int':
            y = np.rint(6 * e).astype(int) + i
            if n and np.ptp(y) == 0:
                y[0] += 2
        elif data['yk'] == 'std':
            # nearly, not exactly, of mean zero and variance one
            y = e - e.mean()
            s = y.std()
            y = (y / s if s > 0 else y) * (1 + 3e-3 * rng.randn()) \
                + 3e-3 * rng.randn()
        elif data['yk'] == 'big':
            y = 100.0 * (i + 1) + 20 * e
        else:
            y = e
        Ys.append(y)
    return Ys


class Model:
    """real InterpolatedLLGP + oracle twin"""

    def __init__(self, spec, Xs=None, Ys=None, perm=None, shift=0.0, **over):
        self.spec = spec
        data = spec['data']
        self.fk = FK(spec['fk'], data['span'], perm=perm)
        D, P = self.fk.D, self.fk.P
        self.Xs = make_x(data, D, P)
        self.Ys = make_y(data, self.Xs)
        if Xs is not None:
            self.Xs = [np.array(X) for X in Xs]
        if Ys is not None:
            self.Ys = [np.array(Y) for Y in Ys]
        g = spec['grid']
        kw = dict(normalize=spec['norm'], prediction=spec['mode'],
                  trace_iterations=spec.get('probes', 1), max_procs=1)
        if 'tol' in spec:
            kw['tolerance'] = spec['tol']
        if 'm' in g:
            kw['m'] = np.array(g['m']) if isinstance(g['m'], list) else g['m']
        for b in ('lo', 'hi'):
            if b in g:
                kw[b] = shift + data['off'] + data['span'] * np.array(g[b])
                if not isinstance(g[b], list):
                    kw[b] = float(kw[b])
        kw.update(over)
        self.kw = kw
        self.m = InterpolatedLLGP(
            [self.shape_x(X) for X in self.Xs], [Y.copy() for Y in self.Ys],
            functional_kernel=self.fk.fk, **kw)
        self.D, self.P = D, P

    def shape_x(self, X):
        X = X.copy()
        return X.ravel() if self.spec['data'].get('x1d') else X

    # ---- oracle
    def norm_stats(self):
        if not self.spec['norm'] and not self.kw.get('normalize'):
            return [(0.0, 1.0)] * self.D
        return [(Y.mean(), Y.std()) for Y in self.Ys]

    def y(self):
        return np.hstack([(Y - mu) / sd for Y, (mu, sd) in
                          zip(self.Ys, self.norm_stats())])

    def axes(self):
        return {tuple(ad): [np.array(a) for a in v]
                for ad, v in self.m.grid_axes.items()}

    def test_points(self, t):
        """list of (n, P) arrays of the given kind: inside the data range,
        at training points, at grid points, about or far outside"""
        rng = np.random.RandomState(t['rs'])
        data = self.spec['data']
        out = []
        for d, n in enumerate(t['lens']):
            X = data['off'] + data['span'] * (rng.rand(n, self.P))
            for i in range(n):
                k = t['k']
                if k == 'mixed':
                    k = ['in', 'train', 'gridpt', 'out'][rng.randint(4)]
                if k in ('out', 'far'):
                    w = 0.6 if k == 'out' else 8.0
                    for p in range(self.P):
                        u = rng.rand() * (1 + 2 * w) - w
                        X[i, p] = data['off'] + data['span'] * u
                elif k == 'train':
                    j = rng.randint(self.D)
                    X[i] = self.Xs[j][rng.randint(len(self.Xs[j]))]
                elif k == 'gridpt':
                    for p in range(self.P):
                        for ad, ax in self.axes().items():
                            if p in ad:
                                a = ax[ad.index(p)]
                                X[i, p] = a[rng.randint(1, len(a) - 1)]
                                break
            if t.get('order'):
                # by the first coordinate, rising or falling
                X = X[np.argsort(X[:, 0])]
                X = X[::-1].copy() if t['order'] == 'down' else X
            out.append(X)
        return out
