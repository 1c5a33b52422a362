import numpy as np

import build
from checks.c13 import request


def usable(R, *Ms):
    """smallest eigenvalue of the covariance, or None if the grid is too
    coarse to give a covariance"""
    e = min(np.linalg.eigvalsh(M.fk.lmc().ski(M.Xs, M.axes())).min()
            for M in Ms)
    if e < 5e-3:
        R.label('nearly singular')
        return None
    return e


def floors(M):
    L = M.fk.lmc()
    pv = (L.prior_var() + L.noise).max()
    st = M.norm_stats()
    ym = max(np.abs(M.y()).max(), 1)
    return ([max(pv, 1) * ym / L.noise.min() * s + abs(m) for m, s in st],
            [2 * pv * s * s for m, s in st])


def same(R, a, b, what, tol, fl):
    R.check(len(a) == len(b), '%s: %d arrays, expected %d', what, len(a),
            len(b))
    for d, (x, y) in enumerate(zip(a, b)):
        R.close(x, y, '%s, output %d' % (what, d), rtol=tol, atol=tol * fl[d])


def part_shape(c, R):
    M = build.Model(c['m'])
    mode = c['m']['mode']
    T, req = request(M, c['t'])
    R.label(mode, 'P%d' % M.P, 'drop=' + c['drop'])
    if c['drop'] != 'none':
        keep = set()
        if c['drop'] == 'one':
            keep = set(range(M.D)) - {c['rs'] % M.D}
        elif c['drop'] == 'butone':
            keep = {c['rs'] % M.D}
        for d in range(M.D):
            if d not in keep:
                T[d] = T[d][:0]
                req[d] = req[d][:0]
    n = sum(len(t) for t in T)
    R.nt(M.D >= 2 or n >= 2)
    e = usable(R, M)
    mu, var = R.hold(M.m.predict(req), 'prediction')
    for what, v in (('means', mu), ('variances', var)):
        R.check(len(v) == M.D, '%d arrays of %s for %d outputs', len(v),
                what, M.D)
        for d in range(M.D):
            a = np.asarray(v[d], dtype=float)
            R.check(a.shape == (len(T[d]),), '%s of output %d: shape %r for '
                    '%d points', what, d, a.shape, len(T[d]))
            R.check(np.isfinite(a).all(), '%s of output %d not finite: %r',
                    what, d, a)
            if what == 'variances':
                R.check((a >= 0).all(), 'negative variance %r', a)
    if e is None or not n:
        return
    tol = R.solve_tol(sum(map(len, M.Xs)), e)
    fm, fv = floors(M)
    rng = np.random.RandomState(c['rs'])
    # the other spelling of the inputs
    other = [t.copy() for t in T]
    if M.P == 1 and req[0].ndim == 2:
        other = [t.ravel() for t in other]
    mu2, var2 = M.m.predict(other)
    same(R, mu2, mu, 'mean with inputs spelt differently', tol, fm)
    same(R, var2, var, 'variance with inputs spelt differently', tol, fv)
    # permuted, with repeats
    perms = [rng.randint(0, len(t), len(t) + 1) if len(t) else
             np.zeros(0, dtype=int) for t in T]
    mu3, var3 = M.m.predict([t[p] for t, p in zip(T, perms)])
    same(R, mu3, [np.asarray(m)[p] for m, p in zip(mu, perms)],
         'mean of reordered points', tol, fm)
    same(R, var3, [np.asarray(m)[p] for m, p in zip(var, perms)],
         'variance of reordered points', tol, fv)
    # the points in between the other way round
    if any(len(t) > 3 for t in T):
        ps = [np.arange(len(t)) for t in T]
        for p in ps:
            p[1:-1] = p[1:-1][::-1]
        M.m.predict([t.copy() for t in T])
        mu5, var5 = M.m.predict([t[p] for t, p in zip(T, ps)])
        same(R, mu5, [np.asarray(m)[p] for m, p in zip(mu, ps)],
             'mean, middle points reversed', tol, fm)
        same(R, var5, [np.asarray(m)[p] for m, p in zip(var, ps)],
             'variance, middle points reversed', tol, fv)
    # one point alone
    d = rng.choice([i for i in range(M.D) if len(T[i])])
    i = rng.randint(len(T[d]))
    single = [t[:0] for t in T]
    single[d] = T[d][i:i + 1]
    mu4, var4 = M.m.predict(single)
    same(R, [mu4[d]], [np.asarray(mu[d])[i:i + 1]], 'mean of a point alone',
         tol, fm[d:])
    same(R, [var4[d]], [np.asarray(var[d])[i:i + 1]],
         'variance of a point alone', tol, fv[d:])


part_many = part_shape


def part_relabel(c, R):
    p = c['perm']
    A = build.Model(c['m'])
    B = build.Model(c['m'], Xs=[A.Xs[i] for i in p],
                    Ys=[A.Ys[i] for i in p], perm=p)
    R.nt(p != sorted(p))
    R.label(c['m']['mode'])
    e = usable(R, A)
    if e is None:
        return
    T, req = request(A, c['t'])
    ma, va = R.hold(A.m.predict(req), 'prediction')
    mb, vb = B.m.predict([req[i] for i in p])
    tol = R.solve_tol(sum(map(len, A.Xs)), e)
    fm, fv = floors(A)
    same(R, mb, [ma[i] for i in p], 'mean after relabelling outputs', tol,
         [fm[i] for i in p])
    same(R, vb, [va[i] for i in p], 'variance after relabelling outputs',
         tol, [fv[i] for i in p])


def part_reorder(c, R):
    A = build.Model(c['m'])
    rng = np.random.RandomState(c['rs'])
    ps = [rng.permutation(len(X)) for X in A.Xs]
    B = build.Model(c['m'], Xs=[X[q] for X, q in zip(A.Xs, ps)],
                    Ys=[Y[q] for Y, q in zip(A.Ys, ps)])
    R.nt(any(list(q) != sorted(q) for q in ps))
    R.label(c['m']['mode'])
    e = usable(R, A)
    if e is None:
        return
    T, req = request(A, c['t'])
    ma, va = R.hold(A.m.predict(req), 'prediction')
    mb, vb = B.m.predict(req)
    tol = R.solve_tol(sum(map(len, A.Xs)), e)
    fm, fv = floors(A)
    same(R, mb, ma, 'mean after reordering observations', tol, fm)
    same(R, vb, va, 'variance after reordering observations', tol, fv)


def part_shift(c, R):
    A = build.Model(c['m'])
    span = c['m']['data']['span']
    d = np.array(c['d'][:A.P]) * span
    B = build.Model(c['m'], Xs=[X + d for X in A.Xs], shift=d)
    R.nt(bool((d != 0).any()))
    R.label(c['m']['mode'])
    e = usable(R, A)
    if e is None:
        return
    T, req = request(A, c['t'])
    ma, va = R.hold(A.m.predict(req), 'prediction')
    mb, vb = B.m.predict([t + d for t in T])
    tol = max(R.solve_tol(sum(map(len, A.Xs)), e), 1e-5)
    fm, fv = floors(A)
    same(R, mb, ma, 'mean after shifting inputs', tol, fm)
    same(R, vb, va, 'variance after shifting inputs', tol, fv)
