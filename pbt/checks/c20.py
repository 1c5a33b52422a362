import numpy as np
from paramz.optimization import Optimizer
from paramz.transformations import (Exponent, Logexp, NegativeLogexp, Square,
                                    Logistic)

import build
from checks import c19

from runlmc.parameterization.model import Model
from runlmc.parameterization.param import Param
from runlmc.parameterization.parameterized import Parameterized
from runlmc.parameterization.priors import Prior


class NegExp(Prior):
    domain = 'negative'

    def __init__(self, b):
        self.b = b

    def lnpdf(self, x):
        return np.log(self.b) + self.b * x

    def lnpdf_grad(self, x):
        return np.full(np.shape(x), self.b)


class Toy(Model):
    """smooth log likelihood with a known gradient"""

    def __init__(self, c):
        super().__init__('toy')
        self.ps = [Param('t%d' % i, np.ones(s)) for i, s in
                   enumerate(c['top'])]
        self.group = Parameterized('group')
        self.gs = [Param('g%d' % i, np.ones(s)) for i, s in
                   enumerate(c['nest'])]
        if self.ps:
            self.link_parameter(self.ps[0])
        if self.gs:
            for g in self.gs:
                self.group.link_parameter(g)
            self.link_parameter(self.group)
        for p in self.ps[1:]:
            self.link_parameter(p)
        self.leaves = self.ps[:1] + self.gs + self.ps[1:]
        n = sum(p.size for p in self.leaves)
        rng = np.random.RandomState(c['rs'])
        A = rng.randn(n, n)
        self.H = A.dot(A.T) / n + 0.2 * np.eye(n)
        self.c = rng.randn(n)
        self.w = rng.randn(n)

    def theta(self):
        return np.concatenate([np.array(p.values).ravel()
                               for p in self.leaves])

    def lik(self, t):
        d = t - self.c
        return -0.5 * d.dot(self.H).dot(d) + (self.w * np.sin(t)).sum()

    def dlik(self, t):
        return -self.H.dot(t - self.c) + self.w * np.cos(t)

    def log_likelihood(self):
        return self.lik(self.theta())

    def parameters_changed(self):
        g = self.dlik(self.theta())
        i = 0
        for p in self.leaves:
            p.gradient = g[i:i + p.size].reshape(p.shape)
            i += p.size


LIM = 36.0


class Book:
    """own account of values, constraints, fixings and priors, entry by
    entry"""

    def __init__(self, theta):
        n = len(theta)
        self.v = np.array(theta, dtype=float)
        self.con = [None] * n
        self.fixed = [False] * n
        self.prior = [None] * n
        self.last = None

    def free(self):
        return [i for i in range(len(self.v)) if not self.fixed[i]]

    def x(self):
        out = []
        for i in self.free():
            v, k = self.v[i], self.con[i]
            if k is None:
                x = v
            elif k == 'logexp':
                x = v if v > LIM else np.log(np.expm1(v))
            elif k == 'exp':
                x = np.log(v)
            elif k == 'neg':
                x = -v if -v > LIM else np.log(np.expm1(-v))
            elif k == 'square':
                x = np.sqrt(v)
            else:
                x = np.log((v - k[1]) / (k[2] - v))
            out.append(x)
        return np.array(out)

    def put(self, x):
        for i, a in zip(self.free(), x):
            k = self.con[i]
            if k is None:
                v = a
            elif k == 'logexp':
                v = np.logaddexp(0, a)
            elif k == 'exp':
                v = np.exp(a)
            elif k == 'neg':
                v = -np.logaddexp(0, a)
            elif k == 'square':
                v = a * a
            else:
                v = k[1] + (k[2] - k[1]) / (1 + np.exp(-a))
            self.v[i] = v

    def slope(self):
        """d value / d x for free entries"""
        out = []
        for i in self.free():
            v, k = self.v[i], self.con[i]
            if k is None:
                s = 1.0
            elif k == 'logexp':
                s = -np.expm1(-v)
            elif k == 'exp':
                s = v
            elif k == 'neg':
                s = np.expm1(v)
            elif k == 'square':
                s = 2 * np.sqrt(v)
            else:
                s = (v - k[1]) * (k[2] - v) / (k[2] - k[1])
            out.append(s)
        return np.array(out)

    def log_prior(self):
        """sum, derivative per entry; None when some transformation has no
        Jacobian in the parameter library"""
        tot, g = 0.0, np.zeros(len(self.v))
        for i, p in enumerate(self.prior):
            if p is None:
                continue
            v, k = self.v[i], self.con[i]
            if isinstance(p, tuple):
                return None, None
            dist, dl = c19.oracle(p)
            tot += dist.logpdf(v)
            g[i] += dl(v)
            if k == 'logexp':
                tot += np.log(-np.expm1(-v))
                g[i] += 1 / np.expm1(v)
            elif k == 'exp':
                tot += np.log(v)
                g[i] += 1 / v
            elif k is not None:
                return None, None
        return tot, g


class Probe(Optimizer):
    """an optimizer that records what it is given"""

    def __init__(self, xs):
        super().__init__()
        self.xs = xs
        self.seen = []

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.x0 = np.array(x_init)
        for dx in self.xs:
            x = self.x0 + dx
            both = f_fp(x.copy()) if f_fp is not None else None
            self.seen.append((x, f(x.copy()), np.array(fp(x.copy())),
                              None if both is None else
                              (both[0], np.array(both[1]))))
        self.x_opt = self.x0 + self.xs[-1]


def entries(leaves, which, m=None):
    """(parameter or single entry, flat positions)"""
    k, e = which
    if m is not None and k == 8:
        # everything at once
        return m, list(range(sum(p.size for p in leaves)))
    if m is not None and k == 9 and getattr(m, 'gs', None):
        off = m.ps[0].size if m.ps else 0
        return m.group, list(range(off, off + sum(p.size for p in m.gs)))
    k = k % len(leaves)
    off = sum(p.size for p in leaves[:k])
    p = leaves[k]
    if e is None:
        return p, list(range(off, off + p.size))
    if isinstance(e, list):
        # some leading entries (rows)
        a, b = sorted(i % len(p) for i in e)
        row = p.size // len(p)
        return p[a:b + 1], list(range(off + a * row, off + (b + 1) * row))
    e = e % p.size
    ix = np.unravel_index(e, p.shape)
    return p[tuple(slice(int(i), int(i) + 1) for i in ix)], [off + e]


def constrain(p, ids, B, kind):
    if kind == 'logexp':
        p.constrain_positive(warning=False)
        B.v[ids] = np.abs(B.v[ids])
    elif kind == 'exp':
        p.constrain(Exponent(), warning=False)
        B.v[ids] = np.abs(B.v[ids])
    elif kind == 'square':
        p.constrain(Square(), warning=False)
        B.v[ids] = np.abs(B.v[ids])
    elif kind == 'neg':
        p.constrain_negative(warning=False)
        B.v[ids] = -np.abs(B.v[ids])
    elif kind == 'bound':
        lo, hi = -2.5, 3.5
        p.constrain_bounded(lo, hi, warning=False)
        for i in ids:
            if not lo <= B.v[i] <= hi:
                B.v[i] = (lo + hi) / 2
        kind = ('bound', lo, hi)
    for i in ids:
        B.con[i] = kind


def values(rng, B, ids):
    out = []
    for i in ids:
        k = B.con[i]
        v = rng.randn() * 2
        if k in ('logexp', 'exp', 'square'):
            v = 0.05 + abs(v)
        elif k == 'neg':
            v = -0.05 - abs(v)
        elif k is not None:
            v = k[1] + (k[2] - k[1]) * (0.05 + 0.9 * rng.rand())
        out.append(v)
    return out


def apply(m, leaves, B, op, which, arg, R):
    if which[0] in (8, 9) and op not in ('fix', 'unfix', 'con', 'uncon'):
        # priors are for leaves: the same one for each
        n = len(leaves)
        done = False
        for j in range(n if which[0] == 8 else min(2, n)):
            if apply(m, leaves, B, op, [10 * n + (
                    j if which[0] == 8 else j + n - min(2, n)), None], arg, R):
                done = True
                if op == 'prior':
                    op = 'again'
            elif op in ('set', 'arr', 'check', 'opt'):
                return None
        return done
    p, ids = entries(leaves, which, m if isinstance(m, Toy) else None)
    fixed = any(B.fixed[i] for i in ids)
    obj = None
    if op == 'again':
        # one prior object at several places
        if not B.last:
            return False
        op = 'prior'
        arg, obj = B.last
    if op == 'prior' or op == 'negprior':
        if fixed:
            return False
        if op == 'negprior':
            p.set_prior(NegExp(arg))
            for i in ids:
                B.prior[i] = ('neg', arg)
                B.con[i] = 'neg'
                B.v[i] = -abs(B.v[i])
            return True
        if arg['t'] == 'gauss':
            # a prior on the reals is for unconstrained parameters
            if any(B.con[i] is not None for i in ids):
                return False
            obj = obj or c19.make(arg)
            p.set_prior(obj)
        else:
            obj = obj or c19.make(arg)
            p.set_prior(obj)
            for i in ids:
                B.con[i] = 'logexp'
                B.v[i] = abs(B.v[i])
        B.last = arg, obj
        for i in ids:
            B.prior[i] = arg
        return True
    if op == 'unprior':
        p.unset_prior()
        for i in ids:
            B.prior[i] = None
        return True
    if op == 'con':
        # transformations without Jacobian are for parameters with no prior
        if fixed or any(B.prior[i] for i in ids):
            return False
        constrain(p, ids, B, arg)
        return True
    if op == 'uncon':
        if fixed or any(B.prior[i] for i in ids):
            return False
        p.unconstrain()
        for i in ids:
            B.con[i] = None
        return True
    if op == 'fix':
        if fixed or all(B.fixed[i] or i in ids for i in range(len(B.v))):
            return False
        p.fix()
        for i in ids:
            B.fixed[i] = True
        return True
    if op == 'unfix':
        if not fixed:
            return False
        p.unfix()
        for i in ids:
            B.fixed[i] = False
        return True
    return None


def put_values(p, ids, B, rng):
    v = values(rng, B, ids)
    p[:] = np.reshape(v, p.shape)
    B.v[ids] = v


def part_toy(c, R):
    m = Toy(c)
    leaves = m.leaves
    B = Book(np.ones(sum(p.size for p in leaves)))
    rng = np.random.RandomState(c['rs'])
    for op, which, arg in c['ops'] + [['check', [0, None], 7],
                                      ['opt', [0, None], 8]]:
        done = apply(m, leaves, B, op, which, arg, R)
        if done is not None:
            if done:
                R.label(op)
            continue
        if op == 'set':
            p, ids = entries(leaves, which)
            whole, wids = entries(leaves, [which[0], None])
            r = np.random.RandomState(arg)
            if len(ids) == 1 and len(wids) > 1:
                v = values(r, B, ids)
                ix = np.unravel_index(ids[0] - wids[0], whole.shape)
                whole[tuple(int(i) for i in ix)] = v[0]
                B.v[ids] = v
            else:
                put_values(whole, wids, B, r)
        elif op == 'arr':
            x = np.array(m.optimizer_array)
            x = x + 0.3 * np.random.RandomState(arg).randn(x.size)
            m.optimizer_array = x
            B.put(x)
        elif op == 'check':
            verify(m, B, R)
        elif op == 'opt':
            run_probe(m, B, R, arg)
    R.label(*['con=%s' % (k if isinstance(k, str) else
                          k[0] if k else 'none') for k in B.con])


def verify(m, B, R):
    t = m.theta()
    R.close(t, B.v, 'parameter values', rtol=1e-9, atol=1e-12)
    for i, k in enumerate(B.con):
        if k in ('logexp', 'exp', 'square'):
            R.check(t[i] >= 0, 'positive parameter is %r', t[i])
        elif k == 'neg':
            R.check(t[i] <= 0, 'negative parameter is %r', t[i])
    lp, g = B.log_prior()
    R.close(m.log_likelihood(), m.lik(B.v), 'toy likelihood', rtol=1e-8,
            atol=1e-8)
    if lp is None or not np.isfinite(lp):
        R.label('no Jacobian')
        return
    R.nt(any(B.prior))
    sc = 1 + abs(lp) + abs(m.lik(B.v))
    R.close(m.log_prior(), lp, 'log prior', rtol=1e-8, atol=1e-9 * sc)
    R.close(m.log_likelihood_with_prior(), m.lik(B.v) + lp,
            'log likelihood with prior', rtol=1e-8, atol=1e-9 * sc)
    R.close(m.objective_function(), -m.lik(B.v) - lp, 'objective',
            rtol=1e-8, atol=1e-9 * sc)
    want = -(m.dlik(B.v) + g)
    got = np.array(m.objective_function_gradients())
    R.close(got, want, 'gradient of the objective with respect to the '
            'parameters', rtol=1e-7, atol=1e-8 * (1 + np.abs(want).max()))


def run_probe(m, B, R, seed):
    n = len(B.free())
    if n == 0:
        return
    rng = np.random.RandomState(seed)
    dxs = [np.zeros(n), 0.3 * rng.randn(n), 0.3 * rng.randn(n)]
    pr = Probe(dxs)
    x0 = B.x()
    held = m.theta()
    fixed0 = [(i, held[i]) for i in range(len(B.v)) if B.fixed[i]]
    m.optimize(optimizer=pr, max_iters=5)
    R.check(pr.x0.shape == x0.shape, 'the optimizer sees %d unknowns, there '
            'are %d free parameters', pr.x0.size, n)
    R.close(pr.x0, x0, 'start handed to the optimizer', rtol=1e-7, atol=1e-8)
    for x, f, fp, both in pr.seen:
        B.put(x)
        lp, g = B.log_prior()
        if lp is None:
            continue
        R.nt(any(B.prior))
        want = -m.lik(B.v) - lp
        if not np.isfinite(want):
            continue
        sc = 1 + abs(lp) + abs(m.lik(B.v))
        R.close(f, want, 'objective handed to the optimizer', rtol=1e-8,
                atol=1e-9 * sc)
        wg = (-(m.dlik(B.v) + g))[B.free()] * B.slope()
        ga = 1e-8 * (1 + np.abs(wg).max())
        R.close(fp, wg, 'gradient handed to the optimizer', rtol=1e-7,
                atol=ga)
        if both is not None:
            R.close(both[0], want, 'objective (with gradient)', rtol=1e-8,
                    atol=1e-9 * sc)
            R.close(both[1], wg, 'gradient (with objective)', rtol=1e-7,
                    atol=ga)
    B.put(pr.x0 + dxs[-1])
    R.close(m.theta(), B.v, 'parameters after optimization', rtol=1e-9,
            atol=1e-12)
    for i, v in fixed0:
        R.check(m.theta()[i] == v, 'a fixed parameter moved from %r to %r',
                v, m.theta()[i])


def part_llgp(c, R):
    # no zero entries: they are outside the support of a positive prior
    M = build.Model(dict(c['m'], fk=dict(c['m']['fk'], ck='norm')))
    m = M.m
    leaves = list(m.flattened_parameters)
    B = Book(np.concatenate([np.array(p.values).ravel() for p in leaves]))
    i = 0
    for p in leaves:
        con = None if p.name.startswith('a') and p.ndim == 2 else 'logexp'
        for _ in range(p.size):
            B.con[i] = con
            i += 1
    R.close(m.param_array, B.v, 'parameter array', rtol=1e-12)
    for op, which, arg in c['ops'] + [['check', [0, None], None]]:
        which = [which[0], None]
        if op == 'check':
            check_llgp(m, B, R)
            continue
        if apply(m, leaves, B, op, which, arg, R):
            R.label(op)
    n = len(B.free())
    pr = Probe([np.zeros(n), 0.05 * np.ones(n)])
    # the stochastic gradient used is the one the model holds afterwards
    m.optimize(optimizer=pr, max_iters=5)
    x, f, fp, both = pr.seen[-1]
    R.close(m.optimizer_array, x, 'parameters after optimization', rtol=1e-7,
            atol=1e-9)
    B.put(x)
    lp, g = B.log_prior()
    R.close(f, -m.log_likelihood() - lp, 'objective handed to the '
            'optimizer', rtol=1e-7, atol=1e-6 * (1 + abs(lp)))


def check_llgp(m, B, R):
    lp, g = B.log_prior()
    if lp is None:
        return
    R.nt(any(B.prior))
    R.close(m.param_array, B.v, 'parameter array', rtol=1e-9)
    ll = m.log_likelihood()
    R.close(m.objective_function(), -ll - lp, 'objective', rtol=1e-8,
            atol=1e-8 * (1 + abs(lp) + abs(ll)))
    dl = np.array(m.gradient)
    want = -(dl + g)
    R.close(m.objective_function_gradients(), want, 'gradient of the '
            'objective', rtol=1e-7, atol=1e-8 * (1 + np.abs(want).max()))
