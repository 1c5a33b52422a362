import numpy as np

from core import layout

from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero


def part_ok(c, R):
    rng = np.random.RandomState(c['rs'])
    D = len(c['lens'])
    Xs = [layout(3 * rng.randn(n), l) for n, l in zip(c['lens'],
                                                      c['lay'])]
    off = rng.randn(D)
    R.nt(D >= 2)
    R.label(c['t'], 'empty' if 0 in c['lens'] else 'nonempty')
    keep = [X.copy() for X in Xs]
    if c['t'] == 'zero':
        f = Zero(1, D)
        want, dwant = [np.zeros(n) for n in c['lens']], []
    else:
        if c['c0'] and c['how'] == 'init':
            f = Constant(1, D, off.copy())
        else:
            f = Constant(1, D)
            R.close_list(f.f(Xs), [np.zeros(n) for n in c['lens']],
                         'default offsets')
            if c['how'] == 'one':
                for i in range(D):
                    f.c[i] = off[i]
            else:
                f.c[:] = off
        want = [np.full(n, o) for n, o in zip(c['lens'], off)]
        dwant = [[np.full(n, float(i == j)) for j, n in enumerate(c['lens'])]
                 for i in range(D)]
    R.close_list(R.hold(f.f(Xs), 'mean'), want, 'mean', rtol=1e-13, atol=0)
    dg = list(R.hold(f.mean_gradient(Xs), 'mean gradients'))
    R.check(len(dg) == len(dwant), '%d gradients for %d parameters', len(dg),
            len(dwant))
    for i, (a, b) in enumerate(zip(dg, dwant)):
        R.close_list(a, b, 'gradient of parameter %d' % i, rtol=0, atol=0)
    g = rng.randn(len(dwant))
    g0 = g.copy()
    f.update_gradient(g)
    if len(dwant):
        R.close(f.gradient, g0, 'stored gradient', rtol=0, atol=0)
        R.close(f.c.gradient, g0, 'gradient stored with the offsets',
                rtol=0, atol=0)
        R.close(f.c.values, off, 'offsets after storing a gradient', rtol=0,
                atol=0)
    R.close_list(f.f(Xs), want, 'mean afterwards', rtol=1e-13, atol=0)
    # the answers belong to whoever asked
    R.spoil(f.f(Xs), f.mean_gradient(Xs))
    R.close_list(f.f(Xs), want, 'mean after an earlier answer was '
                 'overwritten', rtol=1e-13, atol=0)
    for i, (a, b) in enumerate(zip(f.mean_gradient(Xs), dwant)):
        R.close_list(a, b, 'gradient of parameter %d after an earlier answer '
                     'was overwritten' % i, rtol=0, atol=0)
    R.close_list(Xs, keep, 'inputs', rtol=0, atol=0)


def part_bad(c, R):
    R.nt(True)
    rng = np.random.RandomState(c['rs'])
    D, k = c['D'], c['k']
    R.label(k)
    if k in ('c0', 'c0nd'):
        if k == 'c0':
            c0 = rng.randn(max(D + (c['d'] if c['i'] % 2 else -c['d']), 0))
            if c0.size == D:
                return
        else:
            c0 = rng.randn(D, 1) if c['i'] % 2 else rng.randn(1, D)
        R.raises(ValueError, lambda: Constant(1, D, c0),
                 'offsets of shape %r for %d outputs' % (c0.shape, D))
        return
    Xs = [rng.randn(1 + i) for i in range(D)]
    if k == 'count':
        Xs = Xs + Xs[:c['d']] if c['i'] % 2 else Xs[:max(0, D - c['d'])]
        if len(Xs) == D:
            return
    else:
        Xs[c['i'] % D] = (np.array(0.5) if k == 'ndim0' else
                          rng.randn(c['d'], 1))
    for f in (Zero(1, D), Constant(1, D)):
        R.raises(ValueError, lambda: f.f(Xs), 'mean of malformed inputs')
