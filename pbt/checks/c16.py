import numpy as np

import build
from checks.c13 import request
from checks.c14 import usable, floors, same

from runlmc.util.normalizer import Norm

QS = (2.5, 50, 90)


def unit(R, M):
    for d, Y in enumerate(M.m.Ys):
        Y = np.asarray(Y, dtype=float)
        R.close(Y.mean(), 0.0, 'mean of normalized output %d' % d,
                atol=1e-8)
        R.close(Y.std(), 1.0, 'std of normalized output %d' % d, rtol=1e-9)


def qclose(R, got, want, var, what, tol, fm, fv):
    """quantiles carry the error of a square root of the variance"""
    R.check(len(got) == len(want), '%s: %d arrays', what, len(got))
    for d, (g, w, v) in enumerate(zip(got, want, var)):
        v = np.asarray(v, float)
        sd = np.sqrt(v)
        e = tol * (v + fv[d])
        dsd = e / np.maximum(sd, np.sqrt(e) + 1e-300)
        R.close(g, w, '%s, output %d' % (what, d), rtol=tol,
                atol=tol * fm[d] + 3 * (dsd.max() if dsd.size else 0))


def part_affine(c, R):
    A = build.Model(c['m'])
    a, b = np.array(c['a']), np.array(c['b'])
    # offsets relative to the spread of each output
    b = b * np.array([Y.std() for Y in A.Ys]) * a
    B = build.Model(c['m'], Ys=[s * Y + o for Y, s, o in zip(A.Ys, a, b)])
    R.nt(bool((a != 1).any() or (b != 0).any()))
    R.label(c['m']['mode'], 'D%d' % A.D)
    unit(R, A)
    unit(R, B)
    e = usable(R, A)
    if e is None:
        return
    T, req = request(A, c['t'])
    ma, va = R.hold(A.m.predict(req), 'prediction')
    mb, vb = B.m.predict(req)
    qa, qb = (m.predict_quantiles(req, quantiles=QS) for m in (A.m, B.m))
    n = sum(map(len, A.Xs))
    tol = max(R.solve_tol(n, e), 1e-5)
    fm, fv = floors(A)
    fm = [f * s + abs(o) for f, s, o in zip(fm, a, b)]
    fv = [f * s * s for f, s in zip(fv, a)]
    same(R, mb, [m * s + o for m, s, o in zip(ma, a, b)],
         'mean after affine change of the observations', tol, fm)
    wv = [v * s * s for v, s in zip(va, a)]
    same(R, vb, wv, 'variance after affine change of the observations', tol,
         fv)
    qclose(R, qb, [q * s + o for q, s, o in zip(qa, a, b)], wv,
           'quantiles after affine change of the observations', tol, fm, fv)
    la, lb = A.m.log_likelihood(), B.m.log_likelihood()
    R.close(lb, la, 'log likelihood after affine change of the observations',
            rtol=tol, atol=tol * (n + n / min(A.fk.noise.min(), 1)))


def part_manual(c, R):
    """normalize=True is normalizing by hand and undoing it"""
    A = build.Model(c['m'])
    unit(R, A)
    e = usable(R, A)
    R.label(c['m']['mode'])
    st = [(Y.mean(), Y.std()) for Y in A.Ys]
    B = build.Model(c['m'], Ys=[(Y - m) / s for Y, (m, s) in
                                zip(A.Ys, st)], normalize=False)
    for d, (x, y) in enumerate(zip(A.m.Ys, B.m.Ys)):
        R.close(x, y, 'normalized output %d' % d, rtol=1e-9, atol=1e-9)
    if e is None:
        return
    T, req = request(A, c['t'])
    n = sum(map(len, A.Xs))
    R.nt(sum(map(len, T)) > 0)
    ma, va = R.hold(A.m.predict(req), 'prediction')
    mb, vb = B.m.predict(req)
    qa, qb = (m.predict_quantiles(req, quantiles=QS) for m in (A.m, B.m))
    tol = R.solve_tol(n, e)
    fm, fv = floors(A)
    same(R, ma, [m * s + mu for m, (mu, s) in zip(mb, st)],
         'mean in original units', tol, fm)
    wv = [v * s * s for v, (mu, s) in zip(vb, st)]
    same(R, va, wv, 'variance in original units', tol, fv)
    qclose(R, qa, [q * s + mu for q, (mu, s) in zip(qb, st)], wv,
           'quantiles in original units', tol, fm, fv)
    R.close(A.m.log_likelihood(), B.m.log_likelihood(),
            'log likelihood of the normalized outputs', rtol=tol,
            atol=tol * (n + n / min(A.fk.noise.min(), 1)))


def part_norm(c, R):
    rng = np.random.RandomState(c['rs'])
    n = c['n']
    if c['k'] == 'int':
        Y = rng.randint(-5, 6, n).astype(float)
    elif c['k'] == 'sparse':
        Y = rng.randn(n) * (rng.rand(n) < .3)
    elif c['k'] == 'two':
        Y = np.where(rng.rand(n) < .5, 1.0, -1.0)
    else:
        Y = rng.randn(n)
    if np.ptp(Y) == 0:
        Y[0] += 1
    if c['k'] == 'std':
        # nearly, not exactly, normalized
        Y = (Y - Y.mean()) / Y.std()
        Y = Y * (1 + 3e-3 * rng.randn()) + 3e-3 * rng.randn()
    else:
        Y = Y * c['s'] + c['o'] * c['s']
    keep = Y.copy()
    N = Norm()
    R.nt(True)
    R.label(c['k'])
    R.check(not N.scaled(), 'a new normalizer claims to be scaled')
    R.raises(AttributeError, lambda: N.normalize(Y), 'normalizing before '
             'the scale is known')
    N.scale_by(Y)
    R.check(N.scaled(), 'normalizer not scaled after scale_by')
    Z = N.normalize(Y)
    mu, sd = Y.mean(), Y.std()
    amp = abs(mu) / sd
    R.close(np.mean(Z), 0.0, 'mean after normalizing', atol=1e-11 * (1 + amp))
    R.close(np.std(Z), 1.0, 'std after normalizing', rtol=1e-9 * (1 + amp))
    R.close(N.inverse_mean(Z), Y, 'round trip of the training outputs',
            rtol=1e-10, scale=abs(mu) + sd)
    X = rng.randn(*c['sh']) * c['vs']
    R.close(N.inverse_mean(X), X * sd + mu, 'inverse mean', rtol=1e-10,
            scale=abs(mu) + sd)
    back = N.normalize(N.inverse_mean(X))
    R.close(back, X, 'round trip of normalized values',
            rtol=1e-9, atol=1e-12 * (1 + amp) * 10)
    raw = X * sd + mu
    R.close(N.inverse_mean(N.normalize(raw)), raw, 'round trip of values',
            rtol=1e-10, scale=abs(mu) + sd)
    V = np.abs(X)
    R.close(N.inverse_variance(V), V * sd ** 2, 'inverse variance',
            rtol=1e-9, atol=0)
    R.check((Y == keep).all(), 'normalizer changed its input')
    # scaling again replaces the old scale
    Y2 = 3 * Y[::-1] + sd
    N.scale_by(Y2)
    R.close(N.normalize(Y2), (Y2 - Y2.mean()) / Y2.std(), 'scaled again',
            rtol=1e-9, atol=1e-9 * (1 + amp))
