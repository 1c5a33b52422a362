"""Independent dense restatement of the mathematics. Imports nothing from
runlmc. Written for clarity, not speed."""
import itertools

import numpy as np
import scipy.linalg as la


# ---------------------------------------------------------------- kernels
# a kernel is a plain dict: {"t": "rbf"|"mat"|"per"|"id"|"scaled", ...}
def kval(k, r):
    r = np.asarray(r, dtype=float)
    t = k['t']
    if t == 'rbf':
        return np.exp(-0.5 * k['g'] * r * r)
    if t == 'mat':
        s = np.sqrt(3.0) * k['g'] * r
        return (1.0 + s) * np.exp(-s)
    if t == 'per':
        return np.exp(-0.5 * k['g'] * np.sin(np.pi * r / k['T']) ** 2)
    if t == 'id':
        return np.where(r == 0, 1.0, 0.0)
    if t == 'scaled':
        return k['s'] * kval(k['k'], r)
    raise KeyError(t)


def kparams(k):
    """hyperparameters in the documented order: [(path, value)]"""
    t = k['t']
    if t in ('rbf', 'mat'):
        return [(('g',), k['g'])]
    if t == 'per':
        return [(('g',), k['g']), (('T',), k['T'])]
    if t == 'id':
        return []
    if t == 'scaled':
        return [(('k',) + p, v) for p, v in kparams(k['k'])] + [
            (('s',), k['s'])]
    raise KeyError(t)


def kset(k, path, v):
    k = dict(k)
    if len(path) == 1:
        k[path[0]] = v
    else:
        k[path[0]] = kset(k[path[0]], path[1:], v)
    return k


def kgrad(k, r):
    """closed-form partial derivatives, same order as kparams"""
    r = np.asarray(r, dtype=float)
    t = k['t']
    if t == 'rbf':
        return [-0.5 * r * r * np.exp(-0.5 * k['g'] * r * r)]
    if t == 'mat':
        # d/dg (1+s)e^-s = -s e^-s ds/dg
        c = np.sqrt(3.0) * r
        s = c * k['g']
        return [-s * c * np.exp(-s)]
    if t == 'per':
        a = np.pi * r / k['T']
        e = np.exp(-0.5 * k['g'] * np.sin(a) ** 2)
        dg = -0.5 * np.sin(a) ** 2 * e
        dT = e * k['g'] * np.sin(a) * np.cos(a) * a / k['T']
        return [dg, dT]
    if t == 'id':
        return []
    if t == 'scaled':
        return [k['s'] * g for g in kgrad(k['k'], r)] + [kval(k['k'], r)]
    raise KeyError(t)


def pdist(X, Z):
    X, Z = np.atleast_2d(X), np.atleast_2d(Z)
    d = X[:, None, :] - Z[None, :, :]
    return np.sqrt((d * d).sum(axis=-1))


# ----------------------------------------------------------- interpolation
def keys(x):
    x = abs(x)
    if x <= 1:
        return 1.5 * x ** 3 - 2.5 * x ** 2 + 1
    if x <= 2:
        return -0.5 * x ** 3 + 2.5 * x ** 2 - 4 * x + 2
    return 0.0


def keys_row(grid, s):
    """weights of one sample on an equispaced grid; off-grid neighbours are
    folded onto the nearest edge point"""
    m = len(grid)
    h = (grid[-1] - grid[0]) / (m - 1)
    f = (s - grid[0]) / h
    j = int(np.floor(f))
    w = np.zeros(m)
    for i in range(j - 1, j + 3):
        w[min(max(i, 0), m - 1)] += keys(f - i)
    return w


def interp(axes, X):
    X = np.asarray(X, dtype=float)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    rows = []
    for x in X:
        w = np.ones(1)
        for ax, c in zip(axes, x):
            w = np.kron(w, keys_row(ax, c))
        rows.append(w)
    m = int(np.prod([len(a) for a in axes]))
    return np.array(rows).reshape(len(X), m)


def block_interp(axes, Xs):
    Ws = [interp(axes, X) for X in Xs]
    m = int(np.prod([len(a) for a in axes]))
    n = sum(len(X) for X in Xs)
    out = np.zeros((n, m * len(Xs)))
    r = 0
    for i, W in enumerate(Ws):
        out[r:r + len(W), i * m:(i + 1) * m] = W
        r += len(W)
    return out


def grid_points(axes):
    return np.array(list(itertools.product(*axes)), dtype=float).reshape(
        -1, len(axes))


# ----------------------------------------------------------------- LMC
class LMC:
    """kernels: list of kernel dicts; ads: active dims (tuples) per kernel;
    As: list of (rank x D); kappas: list of (D,); noise: (D,)"""

    def __init__(self, kernels, ads, As, kappas, noise):
        self.kernels = list(kernels)
        self.ads = [tuple(a) for a in ads]
        self.As = [np.array(a, dtype=float) for a in As]
        self.kappas = [np.array(k, dtype=float) for k in kappas]
        self.noise = np.array(noise, dtype=float)
        self.D = len(self.noise)

    def Bs(self):
        return [a.T.dot(a) + np.diag(k) for a, k in zip(self.As, self.kappas)]

    def cross(self, Xs, Zs):
        """exact covariance between two multi-output sets, no noise"""
        ri = np.repeat(np.arange(self.D), [len(X) for X in Xs])
        ci = np.repeat(np.arange(self.D), [len(Z) for Z in Zs])
        X, Z = np.vstack(Xs), np.vstack(Zs)
        out = np.zeros((len(X), len(Z)))
        for k, ad, B in zip(self.kernels, self.ads, self.Bs()):
            ad = list(ad)
            out += B[np.ix_(ri, ci)] * kval(k, pdist(X[:, ad], Z[:, ad]))
        return out

    def noise_diag(self, Xs):
        return np.diag(np.repeat(self.noise, [len(X) for X in Xs]))

    def exact(self, Xs):
        return self.cross(Xs, Xs) + self.noise_diag(Xs)

    def prior_var(self):
        return sum(np.diag(B) * float(kval(k, np.zeros(1))[0])
                   for k, B in zip(self.kernels, self.Bs()))

    def groups(self):
        out = []
        for ad in self.ads:
            if ad not in out:
                out.append(ad)
        return out

    def grid_cov(self, ad, axes):
        U = grid_points(axes)
        # exact zeros on the diagonal matter for the identity kernel
        d = grid_dist(axes)
        tot = 0
        for k, a, B in zip(self.kernels, self.ads, self.Bs()):
            if a == ad:
                tot = tot + np.kron(B, kval(k, d))
        return tot

    def ski_cross(self, Xs, Zs, axes_by_ad):
        out = 0
        for ad in self.groups():
            axes = axes_by_ad[ad]
            WX = block_interp(axes, [X[:, list(ad)] for X in Xs])
            WZ = block_interp(axes, [Z[:, list(ad)] for Z in Zs])
            out = out + WX.dot(self.grid_cov(ad, axes)).dot(WZ.T)
        return out

    def ski(self, Xs, axes_by_ad):
        return self.ski_cross(Xs, Xs, axes_by_ad) + self.noise_diag(Xs)


    # ---------------------------------------------- likelihood gradients
    def _per_kernel(self, Xs, axes_by_ad):
        """for every kernel: function mapping f(dist)->(n x n) matrix, exact
        or interpolated"""
        X = np.vstack(Xs)
        out = []
        for ad in self.ads:
            Z = X[:, list(ad)]
            if axes_by_ad is None:
                d = pdist(Z, Z)
                out.append((d, None))
            else:
                axes = axes_by_ad[ad]
                out.append((grid_dist(axes), interp(axes, Z)))
        return out

    def grads(self, Xs, y, axes_by_ad=None):
        """derivatives of the log marginal likelihood under the exact
        (axes_by_ad None) or interpolated covariance"""
        K = self.exact(Xs) if axes_by_ad is None else self.ski(Xs, axes_by_ad)
        Ki = la.inv(K)
        a = Ki.dot(y)
        return self.grads_from(Xs, 0.5 * (np.outer(a, a) - Ki), axes_by_ad)

    def grads_from(self, Xs, G, axes_by_ad=None):
        """sum(G * dK/dt) for every parameter t (G symmetric n x n)"""
        lens = [len(X) for X in Xs]
        E = np.repeat(np.eye(self.D), lens, axis=0)      # n x D indicator
        vecs, diags, kerns = [], [], []
        for k, A, B, (d, W) in zip(self.kernels, self.As, self.Bs(),
                                   self._per_kernel(Xs, axes_by_ad)):
            def mat(M):
                return M if W is None else W.dot(M).dot(W.T)
            S = E.T.dot(G * mat(kval(k, d))).dot(E)
            vecs.append(A.dot(S + S.T))
            diags.append(np.diag(S).copy())
            kerns.append([float((B * E.T.dot(G * mat(g)).dot(E)).sum())
                          for g in kgrad(k, d)])
        noise = E.T.dot(np.diag(G))
        return dict(vecs=vecs, diags=diags, kerns=kerns, noise=noise)

    def dKs(self, Xs, axes_by_ad=None):
        """all derivative matrices: list of (kind, q, index, dK)"""
        lens = [len(X) for X in Xs]
        E = np.repeat(np.eye(self.D), lens, axis=0)
        out = []
        for q, (k, A, B, (d, W)) in enumerate(zip(
                self.kernels, self.As, self.Bs(),
                self._per_kernel(Xs, axes_by_ad))):
            def mat(M):
                return M if W is None else W.dot(M).dot(W.T)
            Kq = mat(kval(k, d))
            for i in range(len(A)):
                for j in range(self.D):
                    dB = np.zeros((self.D, self.D))
                    dB[j] += A[i]
                    dB[:, j] += A[i]
                    out.append(('vecs', q, (i, j), E.dot(dB).dot(E.T) * Kq))
            for j in range(self.D):
                dB = np.zeros((self.D, self.D))
                dB[j, j] = 1
                out.append(('diags', q, j, E.dot(dB).dot(E.T) * Kq))
            for j, g in enumerate(kgrad(k, d)):
                out.append(('kerns', q, j, E.dot(B).dot(E.T) * mat(g)))
        for j in range(self.D):
            out.append(('noise', None, j, np.diag(E[:, j])))
        return out

    # ------------------------------------------- interpolation error bound
    def ski_bound(self, axes_by_ad):
        """D x D matrix: bound on the entries of |interpolated - exact|
        covariance for points with two grid points on either side"""
        tot = np.zeros((self.D, self.D))
        for k, ad, B in zip(self.kernels, self.ads, self.Bs()):
            hs = [(a[-1] - a[0]) / (len(a) - 1) for a in axes_by_ad[ad]]
            e, f = 0.0, 1.0
            # every coordinate is interpolated twice (rows and columns),
            # each with Lebesgue constant 1.25
            for h in hs + hs:
                e += f * KEYS_C * h ** 3 * third(k)
                f *= 1.25
            tot += np.abs(B) * e
        return tot


def _keys_const():
    best = 0
    for t in np.linspace(0, 1, 401):
        s = sum(abs(keys(t - i)) * abs(t - i) ** 3 for i in (-1, 0, 1, 2))
        best = max(best, s / 6)
    return best * 1.01


KEYS_C = _keys_const()


def third(k):
    """bound on the third derivative along any coordinate (Lipschitz
    constant of the second derivative)"""
    t = k['t']
    if t == 'rbf':
        return 1.3802 * k['g'] ** 1.5
    if t == 'mat':
        return 2.05 * (np.sqrt(3.0) * k['g']) ** 3
    if t == 'per':
        # k = exp(-g/4) exp(g/4 cos(w r)), w = 2 pi / T
        w, b = 2 * np.pi / k['T'], k['g'] / 4
        u = np.linspace(0, 2 * np.pi, 2001)
        c, s = np.cos(u), np.sin(u)
        # third derivative of exp(b cos u)
        f3 = np.exp(b * (c - 1)) * (b * s + 3 * b * b * s * c -
                                    b ** 3 * s ** 3)
        return np.abs(f3).max() * 1.01 * w ** 3
    if t == 'scaled':
        return k['s'] * third(k['k'])
    raise KeyError(t)


def grid_dist(axes):
    """pairwise distances of the grid computed from index differences (so
    that equal index differences give equal distances)"""
    idx = np.array(list(itertools.product(*[range(len(a)) for a in axes])))
    idx = idx.reshape(-1, len(axes))
    h = np.array([(a[-1] - a[0]) / (len(a) - 1) for a in axes])
    d = np.abs(idx[:, None, :] - idx[None, :, :]) * h
    return np.sqrt((d * d).sum(axis=-1))


def loglik(K, y):
    c = la.cho_factor(K, lower=True)
    a = la.cho_solve(c, y)
    ld = 2 * np.log(np.diag(c[0])).sum()
    return -0.5 * (ld + y.dot(a) + len(y) * np.log(2 * np.pi))


def dloglik(K, y, dK):
    Ki = la.inv(K)
    a = Ki.dot(y)
    return 0.5 * (a.dot(dK).dot(a) - (Ki * dK.T).sum())
