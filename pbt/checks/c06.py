import numpy as np

import oracle
from checks.c05 import make, make_dists, slack

from runlmc.lmc.functional_kernel import FunctionalKernel


def part_grad(c, R):
    spec = c['k']
    k = make(spec, c['how'])
    r = make_dists(c['d'], spec)
    r0 = np.array(r)
    names = oracle.kparams(spec)
    R.nt(bool(names) and bool((r0 > 0).any()))
    R.label(spec['t'])
    g = list(R.hold(k.kernel_gradient(r), 'kernel gradients'))
    R.check(np.array_equal(r, r0), 'distances altered')
    R.check(k.param_array.size == len(names),
            'the kernel exposes %d parameters, its value depends on %d',
            k.param_array.size, len(names))
    R.close(k.param_array, np.array([v for _, v in names]).reshape(-1),
            'exposed parameters', rtol=1e-12)
    R.check(len(g) == len(names), '%d gradients for %d parameters', len(g),
            len(names))
    want = oracle.kgrad(spec, r0)
    for j, ((path, v), w) in enumerate(zip(names, want)):
        amp = np.abs(w).max() if w.size else 0
        sl = slack(spec, r0) * 100 * (1 + _amp(spec, r0))
        R.close(g[j], w, 'gradient of %s' % (path,), rtol=1e-9,
                atol=sl + 1e-13 * amp)
    R.spoil(list(k.kernel_gradient(r)))
    _expect(R, k, spec, r, 'asked again')
    # each exposed entry, perturbed in place, moves the value along its own
    # gradient
    if not r0.size:
        return
    for j, (path, v) in enumerate(names):
        h = 1e-4 * v
        orig = float(k.param_array[j])
        vals = []
        for s in (-2, -1, 1, 2):
            k.param_array[j] = orig + s * h
            vals.append(np.array(k.from_dist(r0), dtype=float))
        k.param_array[j] = orig
        num = (vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h)
        # truncation error of the oracle formula itself, measured exactly
        ov = [oracle.kval(oracle.kset(spec, path, v + s * h), r0)
              for s in (-2, -1, 1, 2)]
        onum = (ov[0] - 8 * ov[1] + 8 * ov[2] - ov[3]) / (12 * h)
        R.close(num, onum, 'change of the value with exposed entry %d' % j,
                rtol=1e-6, atol=(slack(spec, r0) * 100 + 1e-12 * _top(spec))
                / h)
    # other parameters, the very same distance array: value, then gradient,
    # then gradient again
    for how, f in (('value', 0.7), ('gradient', 1.6)):
        if how == 'value':
            k.from_dist(r)
        spec1 = spec
        for j, (path, v) in enumerate(names):
            spec1 = oracle.kset(spec1, path, v * f)
            k.param_array[j] = v * f
        _expect(R, k, spec1, r, 'after a %s, parameters changed' % how)
        R.close(k.from_dist(r), oracle.kval(spec1, r0),
                'value after the gradient', rtol=1e-9,
                atol=slack(spec1, r0) * 100 + 1e-13 * _top(spec1))
    for j, (path, v) in enumerate(names):
        k.param_array[j] = v
    if r.flags.writeable:
        # the same array with other distances
        r += 1
        _expect(R, k, spec, r, 'distances changed in place')


def _expect(R, k, spec, r, what):
    r1 = np.array(r)
    want = oracle.kgrad(spec, r1)
    got = list(k.kernel_gradient(r))
    R.check(len(got) == len(want), '%s: %d gradients', what, len(got))
    for j, (g1, w) in enumerate(zip(got, want)):
        sl = slack(spec, r1) * 100 * (1 + _amp(spec, r1))
        R.close(g1, w, 'gradient %d, %s' % (j, what),
                rtol=1e-9, atol=sl + 1e-13 * (np.abs(w).max() if w.size else 0))


def _top(spec):
    t = 1.0
    while spec['t'] == 'scaled':
        t *= spec['s']
        spec = spec['k']
    return t


def _amp(spec, r):
    while spec['t'] == 'scaled':
        spec = spec['k']
    if spec['t'] == 'per' and r.size:
        return (1 + spec['g']) * np.pi * r.max() / spec['T'] ** 2 + \
            1 / spec['T']
    return 0.0


def part_store(c, R):
    rng = np.random.RandomState(c['rs'])
    ks = [make(s) for s in c['ks']]
    R.nt(any(oracle.kparams(s) for s in c['ks']))
    R.label(c['how'])
    if c['how'] == 'fk':
        fk = FunctionalKernel(D=2, lmc_kernels=ks, lmc_ranks=[1] * len(ks))
        n = sum(len(oracle.kparams(s)) for s in c['ks'])
        R.check(fk.param_array.size == n + 5 * 0 + len(ks) * 4 + 2,
                'the functional kernel exposes %d parameters, expected %d',
                fk.param_array.size, n + len(ks) * 4 + 2)
    for _ in range(1 + c['rs'] % 3):
        # again and again: the last is what counts, a zero included
        vals = []
        for s, k in zip(c['ks'], ks):
            v = rng.randn(len(oracle.kparams(s)))
            v[rng.rand(v.size) < 0.2] = 0
            vals.append(v)
            k.update_gradient(v)
    for i, (k, v) in enumerate(zip(ks, vals)):
        if not v.size:
            continue
        R.close(k.gradient, v, 'stored gradient of kernel %d' % i, rtol=0,
                atol=0)
        spec = c['ks'][i]
        kk = k
        # by name
        j = 0
        chain = []
        while spec['t'] == 'scaled':
            chain.append(kk)
            kk, spec = kk.k, spec['k']
        for a in (('inv_lengthscale',) if spec['t'] in ('rbf', 'mat') else
                  ('inv_lengthscale', 'period') if spec['t'] == 'per'
                  else ()):
            R.close(np.asarray(getattr(kk, a).gradient).reshape(-1),
                    v[j:j + 1], 'gradient stored with ' + a, rtol=0, atol=0)
            j += 1
        for kk in reversed(chain):
            R.close(np.asarray(kk.scale.gradient).reshape(-1), v[j:j + 1],
                    'gradient stored with scale', rtol=0, atol=0)
            j += 1
