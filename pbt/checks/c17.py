import copy
import pickle

import numpy as np
import scipy.linalg as la

import build
import oracle
from checks.c13 import Posterior, compare
from checks.c15 import verify

from runlmc.kern.stationary_kern import StationaryKern
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import (Gaussian, Gamma, InverseGamma,
                                            HalfLaplace)

MODES = ['on-the-fly', 'exact', 'precompute']
KPAR = ('inv_lengthscale', 'period', 'scale')


def kern_params(rk):
    out = [getattr(rk, a) for a in KPAR if hasattr(rk, a)]
    if hasattr(rk, 'k'):
        out += kern_params(rk.k)
    return out


class Sub:
    """a model under test with the bookkeeping of its history"""

    def __init__(self, spec, i):
        if (spec['mode'] == 'precompute' and
                len(build.FK(spec['fk']).lmc().groups()) > 1):
            spec = dict(spec, mode='on-the-fly')
        self.spec = spec
        self.M = build.Model(spec)
        self.recs = []
        self.queries = 0
        self.changes = 0
        self.i = i
        self.mode = spec['mode']
        self.priored = set()

    def params(self):
        """(name, parameter) for every free parameter array"""
        fk = self.M.fk
        out = [('a%d' % q, fk.fk._coreg_vecs[q])
               for q in range(fk.nl + fk.ns)]
        out += [('kappa%d' % q, fk.fk._coreg_diags[q])
                for q in range(fk.nl)]
        out += [('noise', fk.fk._noise)]
        for q, k in enumerate(fk.reals):
            for j, p in enumerate(kern_params(k)):
                out.append(('k%d.%d' % (q, j), p))
        return out

    def clone(self, how, i):
        """a copy of the model; everything is reached from the copy"""
        S = copy.copy(self)
        S.i = i
        S.recs = list(self.recs)
        S.priored = set(self.priored)
        S.cached = None
        S.M = copy.copy(self.M)
        m = self.M.m
        S.M.m = (m.copy() if how == 0 else copy.deepcopy(m) if how == 1
                 else pickle.loads(pickle.dumps(m)))
        S.M.fk = copy.copy(self.M.fk)
        S.M.fk.fk = [p for p in S.M.m.parameters
                     if isinstance(p, FunctionalKernel)][0]
        S.M.fk.reals = [p for p in S.M.fk.fk.parameters
                        if isinstance(p, StationaryKern)]
        return S

    def usable_modes(self):
        one = len(self.M.axes()) == 1
        return [m for m in MODES if one or m != 'precompute']


def new_values(rng, fk, what):
    if what == 'noise':
        return 0.1 + 0.9 * rng.rand(fk.D)
    if what == 'diag':
        return 0.05 + 1.5 * rng.rand(fk.D)
    return None


def change(S, op, k, v, R):
    M, m, fk = S.M, S.M.m, S.M.fk
    rng = np.random.RandomState(v if isinstance(v, int) else 1)
    pars = S.params()
    name, p = pars[k % len(pars)]
    nc = fk.nl + fk.ns
    if op == 'vec' and nc:
        fk.fk.coreg_vecs = [a if q != k % nc else rng.randn(*a.shape)
                            for q, a in enumerate(
                                [np.array(x) for x in
                                 fk.fk.coreg_vecs[:nc]])]
    elif op == 'entry' and nc:
        a = fk.fk._coreg_vecs[k % nc]
        a[rng.randint(a.shape[0]), rng.randint(fk.D)] = rng.randn()
    elif op == 'diag' and fk.nl:
        fk.fk.coreg_diags = [
            d if q != k % fk.nl else new_values(rng, fk, 'diag')
            for q, d in enumerate([np.array(x) for x in
                                   fk.fk.coreg_diags[:fk.nl]])]
    elif op == 'noise':
        fk.fk.noise = new_values(rng, fk, 'noise')
    elif op == 'kern':
        ps = kern_params(fk.reals[k % len(fk.reals)])
        if ps:
            q = ps[k % len(ps)]
            q[:] = np.array(q) * v
    elif op == 'array':
        x = np.array(m.optimizer_array)
        if x.size:
            x += 0.1 * rng.randn(x.size)
            m.optimizer_array = x
    elif op == 'batch':
        m.update_model(False)
        fk.fk.noise = new_values(rng, fk, 'noise')
        ps = kern_params(fk.reals[k % len(fk.reals)])
        if ps:
            ps[0][:] = np.array(ps[0]) * (0.6 + rng.rand())
        if nc:
            fk.fk._coreg_vecs[k % nc][:] = rng.randn(
                *fk.fk._coreg_vecs[k % nc].shape)
        m.update_model(True)
    elif op == 'nudge':
        # ever so slightly: still another value
        p[:] = np.array(p) * (1 + v)
    elif op == 'swap':
        # the same numbers at other places, or with other signs
        name, p = [t for t in pars if t[0][0] in 'an'][
            k % len([t for t in pars if t[0][0] in 'an'])]
        a = np.array(p)
        if v == 0 and name[0] == 'a':
            a[:, k % a.shape[1]] *= -1
        elif v == 1 and name[0] == 'a':
            a = a * np.where(rng.rand(*a.shape) < 0.5, -1, 1)
        else:
            a = np.roll(a, 1 + k % 2, axis=-1)
        if np.array_equal(a, np.array(p)):
            return False
        p[:] = a
    elif op == 'fix' and name not in S.priored:
        p.fix()
    elif op == 'unfix':
        p.unfix()
    elif op == 'prior' and not p.is_fixed:
        # the domain of the prior fits the parameter
        if name.startswith('a'):
            p.set_prior(Gaussian(0.1, v))
        else:
            p.set_prior([Gamma(2., v), InverseGamma(2., v),
                         HalfLaplace(v)][k % 3])
        S.priored.add(name)
    elif op == 'unprior' and name in S.priored:
        p.unset_prior()
        S.priored.discard(name)
    elif op == 'regex':
        if k % 2:
            m['.*noise'] = new_values(rng, fk, 'noise')
        else:
            m['.*noise'] = 0.1 + rng.rand()
    elif op == 'randomize':
        if m.optimizer_array.size == 0:
            return False
        np.random.seed(v % 2 ** 31)
        m.randomize()
    elif op == 'opt':
        if m.optimizer_array.size == 0:
            return False
        m.optimize(optimizer=AdaDelta(step_rate=0.3, max_it=v))
    else:
        return False
    return True


def state(S, R):
    """posterior at the parameters held now; None when the covariance at
    these parameters is not usable"""
    if getattr(S, 'cached', None) is not None:
        return S.cached
    L = S.M.fk.lmc_now()
    vals = np.concatenate([np.ravel(a) for a in L.As] + [
        np.ravel(L.noise)])
    if not np.isfinite(vals).all():
        R.label('diverged')
        return None
    P = Posterior(S.M, L)
    if (P.emin < 5e-3 or np.linalg.eigvalsh(P.K).max() > 1e4 or
            not np.isfinite(P.K).all()):
        R.label('nearly singular')
        return None
    S.cached = P
    return P


def amounts(S, P):
    st = S.M.norm_stats()
    pv = P.L.prior_var() + P.L.noise
    amp = np.abs(la.solve(P.K, P.y)).max()
    fm = [max(pv.max(), 1) * (1 + amp) * s + abs(mu) for mu, s in st]
    fv = [(p + pv.max()) * s * s for p, (mu, s) in zip(pv, st)]
    return fm, fv


def points(S, v):
    rng = np.random.RandomState(v)
    t = dict(lens=[rng.randint(0, 4) for _ in range(S.M.D)], rs=v,
             k='mixed')
    if not sum(t['lens']):
        t['lens'][0] = 2
    return S.M.test_points(t)


def loglik(P):
    return -0.5 * (np.linalg.slogdet(P.E)[1] + P.y.dot(la.solve(P.K, P.y))
                   + len(P.y) * np.log(2 * np.pi))


def ask(S, op, k, v, R):
    m = S.M.m
    P = state(S, R)
    if op == 'mode':
        um = S.usable_modes()
        S.mode = m.prediction = um[k % len(um)]
        return
    if P is None:
        return
    what = 'model %d after %d changes and %d queries: ' % (
        S.i, S.changes, S.queries)
    n = len(P.y)
    if op in ('predict', 'quant'):
        T = points(S, v)
        wm, wv = P.unnorm(T, P.mean(T), P.var(T, S.mode))
        fm, fv = amounts(S, P)
        if op == 'predict':
            mu, var = R.hold(m.predict(T), what + 'prediction')
            tol = tolerance(S, P, R)
            compare(R, mu, wm, what + 'mean (%s)' % S.mode, tol, fm)
            compare(R, var, wv, what + 'variance (%s)' % S.mode, tol, fv)
        else:
            q = [(2.5, 97.5), (90, 50, 10)][k % 2]
            Q = R.hold(m.predict_quantiles(T, quantiles=q),
                       what + 'quantiles')
            tol = tolerance(S, P, R)
            verify(R, Q, q, wm, wv, tol, fm, fv)
    elif op == 'll':
        got = m.log_likelihood()
        R.close(got, loglik(P), what + 'log likelihood',
                atol=ll_tol(S, P, R))
    elif op == 'K':
        R.close(m.K(), P.E, what + 'covariance', rtol=1e-10,
                atol=1e-10 * np.abs(P.E).max())
        x = np.random.RandomState(3).randn(n)
        R.close(m.kernel.K.matvec(x), P.K.dot(x),
                what + 'matrix-free covariance', rtol=1e-6, atol=1e-7,
                scale=np.abs(P.K).dot(np.abs(x)).max())
    elif op == 'obj' and not S.priored:
        R.close(m.objective_function(), -loglik(P),
                what + 'objective', atol=ll_tol(S, P, R))
    S.queries += 1


def tolerance(S, P, R):
    keep = S.recs
    R.tap.records = keep + R.tap.records
    return R.solve_tol(len(P.y), P.emin)


def ll_tol(S, P, R):
    tol = tolerance(S, P, R)
    q = P.y.dot(la.solve(P.K, P.y))
    return tol * (abs(q) + len(P.y)) + (
        la.norm(la.solve(P.K, P.y)) * la.norm(P.y) * 1e-7)


QUERY = ('predict', 'quant', 'll', 'K', 'obj', 'mode')


def expand(s):
    op, i, k, v = s
    if op == 'nudge' or op == 'swap':
        return [s, ['K', i, 0, 0]]
    if op == 'detour':
        # a change made while another mode is selected
        ch = ['noise', 'array', 'kern', 'batch', 'opt'][v % 5]
        q = [['predict', i, k, v]] * ((v // 7) % 2)
        arg = {'kern': 1.7, 'opt': 1}.get(ch, v)
        return ([['mode', i, k, 0], ['predict', i, k, v],
                 ['mode', i, k + 1 + v % 2, 0]] + q + [[ch, i, k, arg]] + q +
                [['mode', i, k, 0], ['predict', i, k, v]])
    return [s]


def part_hist(c, R):
    subs = []
    for i, s in enumerate(c['ms']):
        R.tap.records = []
        S = Sub(s, i)
        S.recs = list(R.tap.records)
        subs.append(S)
    R.label('models%d' % len(subs))
    if c.get('warm', True):
        # fill every cache before the history starts
        for S in subs:
            for op, k, v in (('predict', 0, 5), ('ll', 0, 0)):
                R.tap.records = []
                ask(S, op, k, v, R)
                S.recs = S.recs + list(R.tap.records)
    for op, i, k, v in [t for s in c['steps'] for t in expand(s)]:
        S = subs[i % len(subs)]
        R.tap.records = []
        if op == 'copy':
            if len(subs) < 4:
                R.label('copy')
                subs.append(S.clone(k % 3, len(subs)))
        elif op in QUERY:
            if op != 'mode' and S.changes and S.queries:
                R.nt(True)
            ask(S, op, k, v, R)
            S.recs = S.recs + [r for r in R.tap.records
                               if r not in S.recs]
            R.label(op)
        else:
            if change(S, op, k, v, R):
                S.cached = None
                R.label(op)
                S.changes += 1
                new = list(R.tap.records)
                # these need not recompute anything
                S.recs = (S.recs + new if op in
                          ('fix', 'unfix', 'prior', 'unprior') else new)
    # final state: everything, and against a model built afresh
    for S in subs:
        R.nt(S.changes and S.queries)
        for op, k, v in (('predict', 0, 5), ('ll', 0, 0), ('K', 0, 0)):
            R.tap.records = []
            ask(S, op, k, v, R)
            S.recs = S.recs + [r for r in R.tap.records
                               if r not in S.recs]
    if c['fresh']:
        fresh(subs[0], R)


def fresh(S, R):
    P = state(S, R)
    if P is None:
        return
    R.label('fresh')
    M, L = S.M, P.L
    R.tap.records = []
    spec = dict(S.spec, mode=S.mode)
    F = build.Model.__new__(build.Model)
    F.spec = spec
    F.fk = build.FK(spec['fk'], spec['data']['span'])
    for rk, now in zip(F.fk.reals, M.fk.reals):
        for a, b in zip(kern_params(rk), kern_params(now)):
            a[:] = np.array(b)
    nc = F.fk.nl + F.fk.ns
    F.fk.As[:nc] = [np.array(a) for a in L.As[:nc]]
    F.fk.kappas[:F.fk.nl] = [np.array(a) for a in L.kappas[:F.fk.nl]]
    F.fk.noise = np.array(L.noise)
    F.fk.assign()
    m = build.InterpolatedLLGP(
        [M.shape_x(X) for X in M.Xs], [Y.copy() for Y in M.Ys],
        functional_kernel=F.fk.fk, **dict(M.kw, prediction=S.mode))
    T = points(S, 11)
    fm, fv = amounts(S, P)
    mu, var = m.predict(T)
    mu2, var2 = M.m.predict(T)
    tol = tolerance(S, P, R)
    compare(R, mu2, mu, 'mean, against a fresh model', 2 * tol, fm)
    compare(R, var2, var, 'variance, against a fresh model', 2 * tol, fv)
    R.close(M.m.log_likelihood(), m.log_likelihood(),
            'log likelihood, against a fresh model', atol=ll_tol(S, P, R))
    R.close(M.m.K(), m.K(), 'covariance, against a fresh model', rtol=1e-8)
