import logging
import multiprocessing
import time

import numpy as np

import build
from schedpool import SchedPool

from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.lmc.metrics import Metrics
from runlmc.lmc.stochastic_deriv import StochasticDerivService
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta
from runlmc.util.inline_pool import InlinePool

GC_EACH = True


def task(i, v, wait):
    if wait:
        time.sleep(wait)
    return i, v.sum(), v * i


def part_tasks(c, R):
    rng = np.random.RandomState(c['rs'])
    ls = [(i, rng.randn(3), 0.004 * rng.rand() if c['slow'] and c['n'] < 40
           else 0) for i in rng.permutation(c['n'])]
    R.nt(len(ls) >= 2)
    R.label('procs%d' % c['procs'])
    pool = multiprocessing.Pool(c['procs']) if c['procs'] else None
    ip = InlinePool(pool)
    try:
        for seq in (ls, [], tuple(ls[:3])):
            got = ip.starmap(task, seq)
            want = [task(i, v, 0) for i, v, _ in seq]
            R.check(len(got) == len(want), '%d results for %d tasks',
                    len(got), len(want))
            for k, (g, w) in enumerate(zip(got, want)):
                R.check(g[0] == w[0] and np.array_equal(g[2], w[2]) and
                        g[1] == w[1], 'result %d is %r, expected %r', k, g,
                        w)
    finally:
        del ip
        if pool is not None:
            pool.terminate()
            pool.join()


def part_sched(c, R):
    rng = np.random.RandomState(c['rs'])
    ls = [(int(i), rng.randn(2), 0) for i in rng.permutation(c['n'])]
    R.nt(len(ls) >= 2)
    R.label('procs%d' % c['procs'])
    ip = InlinePool(SchedPool(c['rs'], c['procs']))
    for seq in (ls, [], tuple(ls[:3]), ls[::-1]):
        got = list(ip.starmap(task, iter(seq) if c['lazy'] else seq))
        want = [task(*x) for x in seq]
        R.check(len(got) == len(want), '%d results for %d tasks',
                len(got), len(want))
        R.check([g[0] for g in got] == [w[0] for w in want],
                'results of tasks %r for tasks %r', [g[0] for g in got],
                [w[0] for w in want])
        for g, w in zip(got, want):
            R.check(np.array_equal(g[2], w[2]) and g[1] == w[1],
                    'result %r, expected %r', g, w)
    # the same for the solves behind a model's gradient
    n = c['K']
    A = rng.randn(n, n)
    K = NumpyMatrix(A.dot(A.T) / n + (0.1 + rng.rand()) * np.eye(n))
    y = rng.randn(n)
    out = []
    for pool in (None, SchedPool(c['rs'] + 1, c['procs'])):
        np.random.seed(c['rs'] % 1000)
        m = Metrics() if c['lazy'] else None
        d = StochasticDerivService(m, InlinePool(pool), c['it'],
                                   1e-4).generate(K, y)
        dK = NumpyMatrix(np.diag(np.arange(n) + 1.))
        out.append((d.alpha, d.derivative(dK), d.d_logdet_K(dK),
                    m.iterations + m.solv_error if m else 0))
    for nm, a, b in zip(('solution', 'derivative', 'derivative of the log '
                         'determinant', 'metrics'), *out):
        R.close(b, a, nm + ' with a pool against none', rtol=1e-9,
                atol=1e-9)


def flat_grad(lik):
    return np.concatenate(
        [np.ravel(a) for a in lik.coreg_vec_gradients()] +
        [np.ravel(a) for a in lik.coreg_diags_gradients()] +
        [np.array(a, dtype=float).ravel() for a in lik.kernel_gradients()] +
        [np.ravel(lik.noise_gradient())])


def part_procs(c, R):
    n = sum(c['m']['data']['lens'])
    R.label('n>=300' if n >= 300 else 'n<300', c['m']['mode'],
            'procs=%s' % c['procs'])
    R.nt(n >= 300)
    outs = []
    for procs in (1, c['procs']):
        np.random.seed(c['seed'] % 2 ** 31)
        M = build.Model(c['m'], max_procs=procs)
        T = M.test_points(dict(lens=c['t'], rs=c['seed'], k='in'))
        R.tap.records = []
        mu, var = M.m.predict(T)
        res = [np.array(M.m.kernel.alpha()), np.array(M.m.gradient),
               np.concatenate(mu), np.concatenate(var),
               M.m.log_likelihood()]
        # nothing the processes were started with is used later
        M.fk.fk.noise = 1.3 * M.fk.noise[::-1] + 0.1
        mu, var = M.m.predict([t[::-1] for t in T])
        outs.append(res + [
            np.array(M.m.kernel.alpha()), np.array(M.m.gradient),
            np.concatenate(mu), np.concatenate(var), M.m.log_likelihood()])
        pool = getattr(M.m._pool, '_pool', None) if hasattr(
            M.m, '_pool') else None
        del M
        if pool is not None:
            R.label('processes used')
            pool.terminate()
            pool.join()
    names = ['solution of the solve', 'gradient', 'mean', 'variance',
             'log likelihood']
    names += [x + ' after a change' for x in names]
    for nm, a, b in zip(names, *outs):
        R.close(b, a, '%s with max_procs=%s against one process'
                % (nm, c['procs']), rtol=1e-7,
                atol=1e-7 * (1 + (np.abs(a).max() if np.size(a) else 0)))


class Strict(logging.Handler):
    """renders every record; what goes wrong in that is the caller's"""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.seen = 0

    def emit(self, record):
        record.getMessage()
        self.seen += record.levelno == logging.DEBUG


def part_logging(c, R):
    outs = []
    lg = logging.getLogger('runlmc')
    for on in (False, True):
        h = Strict()
        old = lg.level
        if on:
            lg.setLevel(logging.DEBUG)
            lg.addHandler(h)
        try:
            np.random.seed(c['seed'] % 2 ** 31)
            M = build.Model(c['m'], metrics=c['metrics'])
            res = [np.array(M.m.gradient)]
            T = M.test_points(dict(lens=[2] * M.D, rs=c['seed'], k='in'))
            for op, arg in c['steps']:
                R.label(op)
                if op == 'opt':
                    M.m.optimize(optimizer=AdaDelta(max_it=arg,
                                                    step_rate=.2))
                elif op == 'noise':
                    M.fk.fk.noise = 0.1 + np.random.RandomState(
                        arg).rand(M.D)
                elif op == 'kern':
                    M.fk.fk.coreg_vecs = [
                        arg * np.array(a)
                        for a in M.fk.fk.coreg_vecs[:M.fk.nl + M.fk.ns]]
                elif op == 'predict':
                    mu, var = M.m.predict(T)
                    res += [np.concatenate(mu), np.concatenate(var)]
                res += [np.array(M.m.param_array), np.array(M.m.gradient)]
            res.append(M.m.log_likelihood())
            if M.m.metrics is not None:
                res.append(sum(lists(M.m.metrics), []))
        finally:
            lg.setLevel(old)
            lg.removeHandler(h)
        outs.append(res)
    R.nt(h.seen > 0)
    for k, (a, b) in enumerate(zip(*outs)):
        if not np.isfinite(a).all():
            R.label('diverged')
            return
        R.close(b, a, 'result %d with debug output against without' % k,
                rtol=1e-9, atol=1e-9 * (1 + np.abs(a).max()))


class Counting(InterpolatedLLGP):
    """the model, counting its evaluations"""

    def parameters_changed(self):
        super().parameters_changed()
        if not hasattr(self, 'evals'):
            self.evals = []
        self.evals.append((flat_grad(self.kernel), self.log_likelihood(),
                           np.array(self.param_array)))


def part_metrics(c, R):
    models = []
    for metrics in (False, True):
        np.random.seed(c['seed'] % 2 ** 31)
        M = build.Model.__new__(build.Model)
        keep = build.InterpolatedLLGP
        build.InterpolatedLLGP = Counting
        try:
            M.__init__(c['m'], metrics=metrics)
        finally:
            build.InterpolatedLLGP = keep
        models.append(M)
    A, B = models
    R.check(A.m.metrics is None, 'metrics recorded without being asked for')
    R.nt(any(s[0] == 'opt' for s in c['steps']))
    start = 0
    check_record(R, B, start, 'after construction')
    equal(R, A, B, 'after construction')
    for op, arg in c['steps']:
        R.label(op)
        for M in (A, B):
            np.random.seed(c['seed'] % 2 ** 31 + 1)
            if op == 'opt':
                if M is B:
                    start = len(M.m.evals)
                    old = M.m.metrics
                    held = [list(x) for x in lists(old)]
                M.m.optimize(optimizer=AdaDelta(max_it=arg, step_rate=.2))
                if M is B:
                    R.check(M.m.metrics is not old, 'optimization did not '
                            'start a fresh record')
                    R.check(held == [list(x) for x in lists(old)],
                            'the record of the previous run was changed')
            elif op == 'noise':
                r = np.random.RandomState(arg)
                M.fk.fk.noise = 0.1 + r.rand(M.D)
            elif op == 'kern':
                k = M.fk.reals[0]
                while hasattr(k, 'k'):
                    k = k.k
                if hasattr(k, 'inv_lengthscale'):
                    k.inv_lengthscale[:] = float(k.inv_lengthscale[0]) * arg
            elif op == 'predict':
                r = np.random.RandomState(arg)
                T = M.test_points(dict(lens=list(r.randint(0, 3, M.D)),
                                       rs=arg, k='in'))
                M.pred = M.m.predict(T)
        if op == 'predict':
            for a, b, nm in zip(A.pred, B.pred, ('mean', 'variance')):
                for d in range(A.D):
                    R.close(b[d], a[d], '%s with metrics' % nm, rtol=1e-9,
                            atol=1e-9 * (1 + abs(np.hstack(A.Ys)).max()))
        if not np.isfinite(A.m.param_array).all():
            R.label('diverged')
            return
        equal(R, A, B, 'after ' + op)
        check_record(R, B, start, 'after ' + op)


def equal(R, A, B, when):
    R.close(B.m.param_array, A.m.param_array, 'parameters with metrics '
            + when, rtol=1e-9, atol=1e-12)
    g = np.array(A.m.gradient)
    R.close(B.m.gradient, g, 'gradient with metrics ' + when, rtol=1e-8,
            atol=1e-8 * (1 + np.abs(g).max()))


def lists(m):
    return (m.iterations, m.grad_norms, m.grad_error, m.solv_error,
            m.log_likely)


def check_record(R, B, start, when):
    m = B.m.metrics
    ev = B.m.evals[start:]
    for nm, x in zip(('iterations', 'grad_norms', 'grad_error', 'solv_error',
                      'log_likely'), lists(m)):
        R.check(len(x) == len(ev), '%s has %d entries for %d evaluations %s',
                nm, len(x), len(ev), when)
    n = sum(map(len, B.Ys))
    for k, (g, ll, par) in enumerate(ev):
        if not np.isfinite(g).all() or not np.isfinite(ll):
            return
        R.close(m.grad_norms[k], np.abs(g).max(), 'gradient norm %d %s'
                % (k, when), rtol=1e-8)
        R.close(m.log_likely[k], ll, 'log likelihood %d %s' % (k, when),
                rtol=1e-10, atol=1e-9)
        R.check(0 <= m.iterations[k] <= 4 * n + 10, 'iterations %r',
                m.iterations[k])
        R.check(m.solv_error[k] >= 0, 'residual %r', m.solv_error[k])
    # the last one against own exact gradients
    if not ev or not np.allclose(ev[-1][2], B.m.param_array):
        return
    g = ev[-1][0]
    L = B.fk.lmc_now()
    K = L.exact(B.Xs)
    if np.linalg.eigvalsh(K).min() < 1e-3:
        return
    w = L.grads(B.Xs, B.y())
    e = np.concatenate([np.ravel(a) for a in w['vecs']] +
                       [np.ravel(a) for a in w['diags']] +
                       [np.array(a, dtype=float).ravel()
                        for a in w['kerns']] + [np.ravel(w['noise'])])
    if np.abs(e).max() < 1e-6:
        return
    want = np.abs(g - e).max() / np.abs(e).max()
    R.close(m.grad_error[-1], want, 'relative gradient error ' + when,
            rtol=1e-4, atol=1e-6)


class Record:
    """a pool that keeps what went through it"""

    def starmap(self, f, ls):
        self.last = [f(*x) for x in ls]
        self.args = list(ls)
        return list(self.last)


def part_service(c, R):
    rng = np.random.RandomState(c['rs'])
    n = c['n']
    A = rng.randn(n, n)
    K = A.dot(A.T) / n + (0.1 + rng.rand()) * np.eye(n)
    m = Metrics()
    pool = Record()
    S = StochasticDerivService(m, pool, c['it'], c['tol'])
    ref = StochasticDerivService(None, InlinePool(None), c['it'], c['tol'])
    R.nt(True)
    for run in range(c['runs']):
        y = rng.randn(n)
        np.random.seed(c['rs'] % 1000 + run)
        d = S.generate(NumpyMatrix(K), y)
        R.check(len(m.iterations) == run + 1 and len(m.solv_error) == run + 1,
                'entries after %d evaluations: %d, %d', run + 1,
                len(m.iterations), len(m.solv_error))
        R.check(len(pool.last) == c['it'] + 1, '%d solves for %d probes',
                len(pool.last), c['it'])
        its = [x[1] for x in pool.last]
        errs = [np.linalg.norm(a[1] - K.dot(x[0]))
                for a, x in zip(pool.args, pool.last)]
        R.close(m.iterations[-1], np.mean(its), 'mean iteration count',
                rtol=1e-9)
        R.close(m.solv_error[-1], np.mean(errs), 'mean residual', rtol=1e-2,
                atol=1e-11 * n)
        R.check(all(0 < i <= 4 * n for i in its), 'iteration counts %r', its)
        np.random.seed(c['rs'] % 1000 + run)
        d2 = ref.generate(NumpyMatrix(K), y)
        R.close(d.alpha, d2.alpha, 'solution with metrics', rtol=1e-9,
                atol=1e-9)
        dK = NumpyMatrix(np.diag(rng.rand(n)))
        R.close(d.derivative(dK), d2.derivative(dK), 'derivative with '
                'metrics', rtol=1e-8, atol=1e-9)
