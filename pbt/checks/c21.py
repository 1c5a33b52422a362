import numpy as np

import build
from checks import c20

from runlmc.models.optimization import AdaDelta

DEFAULT = dict(step_rate=1, decay=0.9, momentum=0.5, offset=1e-4, max_it=100,
               min_grad_ratio=0.1, permitted_drops=5)


def dyadic(x):
    """no rounding in products and quotients of these"""
    return np.frexp(x)[0] == 0.5


def simulate(x, grad, o):
    """own AdaDelta: points where the gradient is taken, last iterate,
    iterations"""
    o = dict(DEFAULT, **o)
    x = np.array(x, dtype=float)
    gms, sms, step = 0.0, 0.0, 0.0
    pts, top, drops, n = [], 0.0, 0, 0
    close = False
    while True:
        s1 = step * o['momentum']
        x = x - s1
        pts.append(x.copy())
        g = np.array(grad(x, n), dtype=float)
        gms = o['decay'] * gms + (1 - o['decay']) * g * g
        s2 = (np.sqrt(sms + o['offset']) / np.sqrt(gms + o['offset']) * g
              * o['step_rate'])
        x = x - s2
        step = s1 + s2
        sms = o['decay'] * sms + (1 - o['decay']) * step * step
        n += 1
        norm = np.abs(g).max()
        top = max(top, norm)
        lim = o['min_grad_ratio'] * top
        exact = norm == lim and dyadic(norm) and dyadic(
            top) and dyadic(o['min_grad_ratio'])
        if abs(norm - lim) <= 1e-9 * lim and lim > 0 and not exact:
            close = True
        if norm < lim:
            drops += 1
        if n >= o['max_it'] or o['permitted_drops'] - drops <= 0:
            return pts, x, n, close


def gradient(c, run):
    rng = np.random.RandomState(c['rs'] + run)
    n = c['n']
    dirs = rng.randn(len(c['norms']), n)
    dirs /= np.abs(dirs).max(axis=1)[:, None]
    A = rng.randn(n, n)
    A = A.dot(A.T) / n + 0.1 * np.eye(n)
    b = rng.randn(n)

    def grad(x, k):
        if c['kind'] == 'quad':
            return A.dot(x - b)
        if c['kind'] == 'osc':
            return np.sin(3 * x + b) + 0.2 * x
        i = (k + run) % len(c['norms'])
        return dirs[i] * c['norms'][i]
    return grad


def part_rule(c, R):
    calls, cbs = [], []
    opt = AdaDelta(callback=lambda: cbs.append(len(calls)), **c['o'])
    rng = np.random.RandomState(c['rs'])
    R.label(c['kind'])
    for run in range(c['runs']):
        x0 = rng.randn(c['n'])
        grad = gradient(c, run)
        pts, last, n, close = simulate(x0, grad, c['o'])
        if not np.isfinite(last).all() or np.abs(last).max() > 1e6:
            R.label('diverged')
            return
        R.nt(n >= 2)
        del calls[:], cbs[:]
        if n > 14 and c['kind'] != 'script':
            # long runs would amplify rounding: hand out the gradients of
            # the simulated run
            table = [grad(p, i) for i, p in enumerate(pts)]

            def grad(x, k, table=table):
                return table[min(k, len(table) - 1)]

        def fp(x):
            g = grad(x, len(calls))
            calls.append(np.array(x))
            if len(calls) > 130:
                R.check(False, 'more than 130 iterations, expected %d', n)
            return g
        give = x0.copy()
        opt.run(give, fp=fp, f=None, f_fp=None)
        if close:
            # equality of norm and threshold up to rounding
            R.label('threshold tie')
            return
        what = 'run %d of the optimizer: ' % run
        R.check(len(calls) == n, '%s%d gradient evaluations, expected %d',
                what, len(calls), n)
        R.check(cbs == list(range(1, n + 1)), '%scallback after evaluations '
                '%r, expected once after each of %d', what, cbs, n)
        tol = 1e-9 * (1 + max(np.abs(p).max() for p in pts))
        if c['kind'] != 'script':
            tol *= 100
        for i in range(n):
            R.close(calls[i], pts[i], '%spoint %d evaluated' % (what, i),
                    rtol=1e-8, atol=tol)
        R.close(opt.x_opt, last, what + 'reported optimum', rtol=1e-8,
                atol=tol)


def part_toy(c, R):
    m = c20.Toy(c)
    B = c20.Book(np.ones(sum(p.size for p in m.leaves)))
    i = 0
    rng = np.random.RandomState(c['rs'])
    for p, con, fx in zip(m.leaves, c['cons'], c['fixed']):
        ids = list(range(i, i + p.size))
        i += p.size
        if con:
            c20.constrain(p, ids, B, con)
        c20.put_values(p, ids, B, rng)
        if fx == 1:
            p.fix()
            for k in ids:
                B.fixed[k] = True
        elif fx == 2 and p.size > 1:
            p.reshape(p.shape)[tuple(slice(0, 1) for _ in p.shape)].fix()
            B.fixed[ids[0]] = True
    if not B.free():
        R.label('all fixed')
        return
    R.label('cb=' + c['cb'], *['con=%s' % k for k in c['cons']])
    count = []

    def cb():
        count.append(1)
        if c['cb'] == 'array':
            m.optimizer_array
        elif c['cb'] == 'lik':
            m.objective_function()
        elif c['cb'] == 'param':
            [np.array(p.values) for p in m.leaves]
    kw = dict(c['o'])
    kw.setdefault('max_it', 12)
    opt = AdaDelta(callback=cb, **kw)
    for run in range(c['runs']):
        x0 = B.x()
        if c['start']:
            x0 = x0 + 0.1
        start = x0.copy()

        def grad(x, k):
            B.put(x)
            return (-m.dlik(B.v))[B.free()] * B.slope()
        keep = B.v.copy()
        pts, last, n, close = simulate(x0, grad, kw)
        if not np.isfinite(last).all() or np.abs(last).max() > 30:
            R.label('diverged')
            return
        B.v[:] = keep
        R.nt(n >= 2)
        held = m.theta()
        del count[:]
        if c['start']:
            m.optimize(optimizer=opt, start=start, max_iters=5)
        else:
            m.optimize(optimizer=opt, max_iters=5)
        if close:
            return
        R.check(len(count) == n, 'callback called %d times in %d iterations',
                len(count), n)
        tol = 1e-6 * (1 + np.abs(last).max())
        R.close(opt.x_opt, last, 'reported optimum', rtol=1e-6, atol=tol)
        R.close(m.optimizer_array, last, 'free parameters in the model',
                rtol=1e-6, atol=tol)
        B.put(last)
        now = m.theta()
        R.close(now, B.v, 'parameters after optimization', rtol=1e-5,
                atol=tol)
        for i in range(len(now)):
            if B.fixed[i]:
                R.check(now[i] == held[i], 'fixed parameter moved from %r '
                        'to %r', held[i], now[i])
            k = B.con[i]
            ok = (now[i] > 0 if k in ('logexp', 'exp') else
                  now[i] < 0 if k == 'neg' else
                  k[1] <= now[i] <= k[2] if k else True)
            R.check(ok, 'parameter %r outside its domain %r', now[i], k)
        # continue the next run from what the model holds
        B.v[:] = now


def part_llgp(c, R):
    M = build.Model(c['m'])
    m = M.m
    leaves = [p for p in m.flattened_parameters]
    for i, p in enumerate(leaves[:-1]):
        if c['fix'] >> i & 1:
            p.fix()
    held = [np.array(p.values) for p in leaves]
    its, grads = [], []

    def cb():
        its.append(np.array(m.param_array))
    opt = AdaDelta(step_rate=c['rate'], max_it=c['it'], callback=cb,
                   permitted_drops=1000)
    m.optimize(optimizer=opt)
    R.nt(c['it'] >= 2)
    R.check(len(its) == c['it'], '%d callbacks in %d iterations', len(its),
            c['it'])
    R.close(m.optimizer_array, opt.x_opt, 'free parameters in the model',
            rtol=1e-6, atol=1e-9)
    for i, p in enumerate(leaves):
        v = np.array(p.values)
        if i < len(leaves) - 1 and c['fix'] >> i & 1:
            R.check((v == held[i]).all(), 'fixed parameter %s moved', p.name)
            R.label('fixed')
        if not np.isfinite(v).all():
            R.label('diverged')
            continue
        if not (p.name.startswith('a') and p.ndim == 2):
            R.check((v > 0).all(), 'parameter %s left its domain: %r',
                    p.name, v)
