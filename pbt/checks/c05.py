import numpy as np

import build
import oracle
from core import layout


def make(spec, how='init', ad=None):
    """a real kernel with the given parameters, reached in different ways"""
    if how == 'init':
        return build.real_kern(spec, ad)
    other = _other(spec)
    k = build.real_kern(other, ad)
    set_params(k, spec, how)
    return k


def _other(spec):
    o = dict(spec)
    for n in ('g', 'T', 's'):
        if n in o:
            o[n] = o[n] * 1.7 + 0.3
    if 'k' in o:
        o['k'] = _other(o['k'])
    return o


def set_params(k, spec, how):
    if how == 'param_array':
        vals = [v for _, v in oracle.kparams(spec)]
        if vals:
            k.param_array[:] = vals
        return
    if 'g' in spec:
        k.inv_lengthscale[:] = spec['g']
    if 'T' in spec:
        k.period = spec['T']
    if spec['t'] == 'scaled':
        set_params(k.k, spec['k'], how)
        k.scale[:] = spec['s']


def period(spec):
    while spec['t'] == 'scaled':
        spec = spec['k']
    return spec.get('T', 1.0)


def make_dists(d, spec):
    rng = np.random.RandomState(d['rs'])
    r = rng.rand(*d['shape']) * d['s']
    z = d['z']
    if z == 'all':
        r = np.zeros(d['shape'])
    elif z == 'some' and r.size:
        r[rng.rand(*d['shape']) < 0.4] = 0
    elif z == 'mult':
        r = rng.randint(0, 5, d['shape']) * 0.5 * period(spec)
    elif z == 'int':
        r = np.rint(r * 5 / d['s'])
    elif z == 'dup' and r.size:
        r = np.round(r / d['s'], 1) * d['s']
    r = np.asarray(r, dtype=float).reshape(d['shape'])
    return layout(r, d['lay'])


def slack(spec, r):
    """rounding of the argument of the periodic kernel"""
    s = 1.0
    while spec['t'] == 'scaled':
        s *= spec['s']
        spec = spec['k']
    if spec['t'] == 'per' and np.size(r):
        return s * 1e-13 * (1 + spec['g']) * (
            1 + np.pi * np.max(r) / spec['T'])
    return s * 1e-13


def part_eval(c, R):
    spec = c['k']
    k = make(spec, c['how'])
    r = make_dists(c['d'], spec)
    R.nt(bool((np.asarray(r) > 0).any()))
    R.label(spec['t'], 'ndim%d' % r.ndim)
    r0 = np.array(r)
    v = R.hold(k.from_dist(r), 'kernel values')
    R.close(v, oracle.kval(spec, r0), 'from_dist', rtol=1e-10,
            atol=slack(spec, r0) * 10)
    R.check(np.array_equal(r, r0), 'distances altered')
    top = 1.0
    s = spec
    while s['t'] == 'scaled':
        top *= s['s']
        s = s['k']
    k.from_dist(np.asarray(r0, dtype=float) + 1.5)
    z = np.asarray(k.from_dist(np.zeros(2)), dtype=float)
    R.close(z, np.full(2, top), 'value at distance zero', rtol=1e-12)
    R.check((np.abs(np.asarray(v, dtype=float)) <= top * (1 + 1e-12)).all(),
            'value exceeds that at zero')
    R.close(k.from_dist(r), np.asarray(v, dtype=float), 'second evaluation',
            rtol=0, atol=0)
    if not np.may_share_memory(v, r):
        R.spoil(k.from_dist(r))
        R.close(k.from_dist(r), np.asarray(v, dtype=float),
                'third evaluation', rtol=0, atol=0)
    if r.flags.writeable and r.size:
        # the same array with other entries
        r += 1
        R.close(k.from_dist(r), oracle.kval(spec, np.array(r)), 'from_dist, '
                'distances changed in place', rtol=1e-10,
                atol=slack(spec, r) * 10)


def part_gram(c, R):
    rng = np.random.RandomState(c['rs'])
    x = rng.randn(c['n']) * c['s']
    if c['dup'] and len(x) > 2:
        x[1] = x[0]
    d = np.abs(x[:, None] - x[None, :])
    G = np.asarray(make(c['k']).from_dist(d), dtype=float)
    R.nt(c['n'] > 1)
    R.label(c['k']['t'])
    top = abs(G).max()
    R.close(G, G.T, 'symmetry', rtol=0, atol=0)
    e = np.linalg.eigvalsh(G).min()
    tol = 1e-10 * c['n'] * top + c['n'] * slack(c['k'], d)
    R.check(e >= -tol, 'Gram matrix has eigenvalue %r', e)


def part_gpy(c, R):
    rng = np.random.RandomState(c['rs'])
    X = rng.randn(c['n'], 1) * c['s']
    Z = rng.randn(c['n2'], 1) * c['s']
    k = make(c['k'], c['how'], [0] if c['ad'] else None)
    g = k.to_gpy()
    R.nt(True)
    R.label(c['k']['t'])
    want = oracle.kval(c['k'], oracle.pdist(X, Z))
    sl = 1e-7 + 1e3 * slack(c['k'], oracle.pdist(X, Z))
    # GPy squares differences of squares: absolute error in r^2
    e2 = 1e-13 * c['s'] ** 2 * 10
    if 'g' in c['k']:
        sl += e2 * max(c['k']['g'], 3 * c['k']['g'] ** 2)
    R.close(g.K(X, Z), want, 'GPy covariance', atol=sl)
    R.close(np.diag(g.K(X)), np.ones(len(X)), 'GPy variance', atol=sl)
