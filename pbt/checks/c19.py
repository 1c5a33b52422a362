import numpy as np
import scipy.stats as ss
from scipy.special import gammaln

from core import layout

from runlmc.parameterization.priors import (
    Gaussian, Gamma, InverseGamma, HalfLaplace)


def make(p):
    t, a, b = p['t'], p.get('a'), p['b']
    if t == 'gauss':
        return Gaussian(a, b)
    if t == 'gamma':
        return Gamma(a, b)
    if t == 'ev':
        return Gamma.from_EV(a, b)
    if t == 'igamma':
        return InverseGamma(a, b)
    return HalfLaplace(b)


def oracle(p):
    """(distribution, derivative of the log density)"""
    t, b = p['t'], float(p['b'])
    a = float(p['a']) if 'a' in p else None
    if t == 'gauss':
        return ss.norm(loc=a, scale=np.sqrt(b)), lambda x: (a - x) / b
    if t == 'ev':
        a, b = a * a / b, a / b
        t = 'gamma'
    if t == 'gamma':
        return ss.gamma(a, scale=1 / b), lambda x: (a - 1) / x - b
    if t == 'igamma':
        return (ss.invgamma(a, scale=b),
                lambda x: -(a + 1) / x + b / x ** 2)
    return ss.expon(scale=b), lambda x: -1 / b + 0 * x


def part_eval(c, R):
    p = c['p']
    rng = np.random.RandomState(c['rs'])
    x = np.array(c['s'] * np.exp(rng.randn(*c['shape'])))
    if p['t'] == 'gauss':
        x = np.array(p['a'] + c['s'] * rng.randn(*c['shape']))
    if c['kind'] == 'int':
        x = np.rint(x)
        if p['t'] != 'gauss':
            x = np.maximum(x, 1)
    x0 = np.array(x, dtype=float)
    if x.ndim == 0:
        x = float(x)
        if c['kind'] == 'int':
            x = int(x)
    else:
        x = layout(x, c['kind'] if c['kind'] != 'float' else 'c')
    R.nt(np.size(x) >= 2)
    R.label(p['t'], 'scalar' if np.ndim(x) == 0 else 'array')
    pr = make(p)
    dist, dlog = oracle(p)
    want = dist.logpdf(x0)
    f = x0.reshape(-1)
    # magnitudes of the terms entering the sum
    mags = 1 + np.abs(np.log(np.abs(f) + 1e-300)).max() * (
        1 + abs(p.get('a', 1)) ** 2 / min(1, float(p['b'])))
    mags += abs(want).max()
    if p['t'] in ('gamma', 'ev', 'igamma'):
        a, b = float(p['a']), float(p['b'])
        if p['t'] == 'ev':
            a, b = a * a / b, a / b
        mags += abs(gammaln(a)) + a * abs(np.log(b)) + (
            b * f.max() if p['t'] != 'igamma' else b / f.min())
    R.close(R.hold(pr.lnpdf(x), 'log density'), want, 'log density',
            rtol=1e-9, atol=1e-11 * mags)
    wg = np.asarray(dlog(x0), dtype=float)
    g = R.hold(pr.lnpdf_grad(x), 'gradient')
    sc = np.abs(wg).max() + 1 / np.abs(f).min() if p['t'] != 'gauss' else \
        np.abs(wg).max()
    R.close(g, wg, 'gradient', rtol=1e-9, atol=1e-12 * sc)
    if x0.ndim and x0.size:
        els = np.array([float(pr.lnpdf(float(v))) for v in f])
        R.close(np.asarray(pr.lnpdf(x)).reshape(-1), els,
                'elementwise log density', rtol=1e-12)
        els = np.array([float(pr.lnpdf_grad(float(v))) for v in f])
        R.close(np.asarray(pr.lnpdf_grad(x)).reshape(-1), els,
                'elementwise gradient', rtol=1e-12)
        R.check(np.array_equal(np.asarray(x, dtype=float), x0),
                'points altered')
    # the gradient is the derivative of the log density of the object itself
    h = 1e-5 * np.abs(x0)
    if p['t'] == 'gauss':
        h = np.maximum(h, 1e-8)
    num = (np.asarray(pr.lnpdf(x0 + h)) - np.asarray(pr.lnpdf(x0 - h))) / (
        2 * h)
    onum = (dist.logpdf(x0 + h) - dist.logpdf(x0 - h)) / (2 * h)
    R.close(num, onum, 'difference quotient of the log density', rtol=1e-6,
            atol=float(np.max(1e-10 * mags / h)))
    if isinstance(x, np.ndarray) and x.flags.writeable:
        # the same array with other entries
        x += 1
        x1 = np.array(x, dtype=float)
        wl, wd = dist.logpdf(x1), np.asarray(dlog(x1), dtype=float)
        R.close(pr.lnpdf(x), wl, 'log density, points changed in place',
                rtol=1e-9, atol=1e-10 * (mags + (abs(wl).max() if wl.size
                                                 else 0)))
        R.close(pr.lnpdf_grad(x), wd, 'gradient, points changed in place',
                rtol=1e-9, atol=1e-12 * (sc + (abs(wd).max() if wd.size
                                               else 0)))
    R.check(pr.domain == ('real' if p['t'] == 'gauss' else 'positive'),
            'domain %r', pr.domain)
    if p['t'] == 'ev':
        # moments of the object's own density, through its parameters
        R.close([pr.a / pr.b, pr.a / pr.b ** 2], [p['a'], p['b']],
                'mean and variance', rtol=1e-9)


def part_bad(c, R):
    R.nt(True)
    R.raises(ValueError, lambda: Gaussian(c['mu'], c['var']),
             'Gaussian prior with variance %r' % c['var'])
    Gaussian(c['mu'], abs(c['var']) + 1e-6)
