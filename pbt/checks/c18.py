import numpy as np

from runlmc.kern.rbf import RBF
from runlmc.kern.matern32 import Matern32
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.multigp import MultiGP


class Base(MultiGP):
    def __init__(self, Xs, Ys, normalize):
        super().__init__(Xs, Ys, normalize=normalize, name='base')

    def parameters_changed(self):
        pass

    def log_likelihood(self):
        return 0.0

    def _raw_predict(self, Xs):
        return [np.zeros(len(X)) for X in Xs], [np.ones(len(X)) for X in Xs]


def spec(D, P):
    """grids have at most two dimensions: three inputs need a split"""
    ads = [None] if P < 3 else [[0, 1], [2]]
    return FunctionalKernel(
        D=D, lmc_kernels=[RBF(inv_lengthscale=1., active_dims=a)
                          for a in ads], lmc_ranks=[1] * len(ads))


def make_data(c):
    rng = np.random.RandomState(c['rs'])
    P = c['P'] if c['cls'] != 'gpy' else 1
    Xs, Ys = [], []
    for i, n in enumerate(c['lens']):
        X = rng.rand(n, P)
        X[:, 0] = (np.arange(n) + rng.rand(n)) * 0.7
        f = c['forms'][i % len(c['forms'])]
        if f == 'int':
            X = np.column_stack([np.arange(n)] + [
                rng.randint(0, 9, n) for _ in range(P - 1)]).astype(int)
            if c['cls'] == 'gpy':
                X = X.astype(float)
        if f == 'f':
            X = np.asfortranarray(X)
        if P == 1 and f in ('1d', 'int'):
            X = X.ravel()
        Y = rng.randn(n)
        if c['yk'] == 'int':
            Y = rng.randint(-3, 4, n)
            Y[0] = Y[1] + 1
        elif c['yk'] == 'nearconst':
            Y = np.ones(n) + 1e-6 * rng.randn(n)
        elif c['yk'] == 'offset':
            Y = 1e3 + Y
        elif c['yk'] == 'tiny':
            Y = 1e-6 * Y
        if c['cls'] == 'gpy':
            Y = Y.astype(float)
        if f == 'ro':
            X.setflags(write=False)
            Y.setflags(write=False)
        Xs.append(X)
        Ys.append(Y)
    return Xs, Ys, P


FAULTS = ['empty', 'extra_x', 'extra_y', 'drop_x', 'drop_y', 'short_y',
          'long_y', 'short_x', 'x3d', 'y2d', 'y2d_row', 'dims', 'dims1d',
          'const', 'nokern', 'mode']


FAMILY = dict(short_y='n', long_y='n', short_x='n', dims='d', dims1d='d',
              x3d='d', y2d='y', y2d_row='y')


def part_data(c, R):
    one_data(c, R)
    for f in FAULTS:
        one_data(dict(c, faults=[f]), R)
    for k in range(len(c['lens'])):
        one_data(dict(c, faults=[FAULTS[(c['rs'] + k) % 14]], k=k), R)


def one_data(c, R):
    Xs, Ys, P = make_data(c)
    k = c['k'] % len(Xs)
    fk, mode = True, 'exact'
    hit = []
    seen = set()
    for f in c['faults']:
        # a second fault of the same kind could undo the first
        kind = FAMILY.get(f, f)
        if kind in seen:
            continue
        seen.add(kind)
        if f == 'empty':
            Xs, Ys = [], []
        elif not Xs or len(Xs) != len(Ys):
            continue
        elif f == 'extra_x':
            Xs = Xs + [Xs[k]]
        elif f == 'extra_y':
            Ys = Ys + [Ys[k]]
        elif f == 'drop_x':
            if len(Xs) == 1:
                continue
            Xs = Xs[:k] + Xs[k + 1:]
        elif f == 'drop_y':
            Ys = Ys[:k] + Ys[k + 1:]
        elif f == 'short_y':
            Ys[k] = Ys[k][:-1]
        elif f == 'long_y':
            Ys[k] = np.append(Ys[k], 1.5)
        elif f == 'short_x':
            Xs[k] = Xs[k][:-1]
        elif f == 'x3d':
            Xs[k] = np.asarray(Xs[k]).reshape(len(Xs[k]), -1, 1)
        elif f == 'y2d':
            Ys[k] = Ys[k].reshape(-1, 1)
        elif f == 'y2d_row':
            Ys[k] = np.column_stack([Ys[k], Ys[k]])
        elif f == 'dims':
            if len(Xs) < 2 or Xs[k].ndim > 2:
                continue
            X = Xs[k].reshape(len(Xs[k]), -1)
            Xs[k] = np.hstack([X, X[:, :1] + 1])
        elif f == 'dims1d':
            if P == 1 or len(Xs) < 2 or Xs[k].ndim > 2:
                continue
            Xs[k] = Xs[k][:, 0]
        elif f == 'const':
            Ys[k] = np.full(Ys[k].shape, c['cv'])
        elif f == 'nokern':
            if c['cls'] != 'llgp':
                continue
            fk = False
        elif f == 'mode':
            if c['cls'] != 'llgp':
                continue
            mode = c['mode']
        hit.append(f)
    R.label(c['cls'], *(hit or ['well-formed']))
    R.nt(bool(hit) or len(c['lens']) >= 2)

    def make():
        D = len(c['lens'])
        if c['cls'] == 'base':
            return Base(Xs, Ys, c['norm'])
        if c['cls'] == 'gpy':
            return GPyLMC(Xs, Ys, [RBF(inv_lengthscale=1.)], [1])
        kern = spec(D, P) if fk else None
        kw = {} if mode == 'exact' and c['rs'] % 2 else dict(
            prediction=mode)
        if kern is not None or c['rs'] % 3:
            kw['functional_kernel'] = kern
        return InterpolatedLLGP(Xs, Ys, normalize=c['norm'], max_procs=1,
                                trace_iterations=1,
                                m=np.array([5] * c['P']), **kw)
    if not hit and c['faults']:
        return
    if not hit and c['cls'] == 'llgp':
        full = np.vstack([np.reshape(X, (len(X), -1)) for X in Xs])
        if (full.max(axis=0) == full.min(axis=0)).any():
            # no grid spans inputs that do not vary along a dimension
            R.label('flat')
            return
    if hit:
        R.raises(ValueError, make, 'data with fault %s (%s)' % (
            '+'.join(hit), c['cls']))
        return
    m = make()
    R.check(m.output_dim == len(Xs) and m.input_dim == P,
            'dimensions %r, %r of a model with %d outputs and %d input '
            'dimensions', m.output_dim, m.input_dim, len(Xs), P)
    mu, var = m.predict([np.asarray(X, dtype=float)[:1] for X in Xs])
    R.check(len(mu) == len(Xs) and all(np.shape(a) == (1,) for a in mu),
            'predictions of an accepted model: %r', mu)


def part_pred(c, R):
    rng = np.random.RandomState(c['rs'])
    D, P = len(c['lens']), c['P']
    Xs = [rng.rand(n, P) for n in c['lens']]
    Ys = [rng.randn(n) for n in c['lens']]
    k = c['k'] % D
    T = [rng.rand(n, P) * .5 + .25 for n in c['t'][:D]]
    f = c['fault']
    if f == 'more':
        T[k] = np.hstack([T[k], T[k][:, :1]])
    elif f == 'allmore':
        T = [np.hstack([t, t[:, :1]]) for t in T]
    elif f == 'fewer' and P > 1:
        T[k] = T[k][:, 1:]
    elif f == 'vector' and P > 1:
        T[k] = T[k][:, 0]
    else:
        f = 'none'
    R.label(f, 'P%d' % P)
    R.nt(f != 'none' or D >= 2)
    models = [Base(Xs, Ys, True)]
    if c['rs'] % 2 == 0:
        models.append(InterpolatedLLGP(
            Xs, Ys, functional_kernel=spec(D, P),
            prediction='exact', max_procs=1, trace_iterations=1,
            m=np.array([5] * P), lo=np.zeros(P), hi=np.ones(P)))
    if P == 1 and c['rs'] % 4 < 2:
        models.append(GPyLMC(Xs, Ys, [RBF(inv_lengthscale=1.)], [1]))
    for m in models:
        nm = type(m).__name__
        if f == 'none':
            mu, var = m.predict(T)
            R.check([len(a) for a in mu] == [len(t) for t in T],
                    'predictions of %s', nm)
            continue
        R.raises(ValueError, lambda: m.predict(T),
                 '%s.predict at points of the wrong dimension' % nm)
        R.raises(ValueError, lambda: m.predict_quantiles(T),
                 '%s.predict_quantiles at points of the wrong dimension' % nm)


def part_kern(c, R):
    one_kern(c, R)
    for f in ('D0', 'Dnone', 'nokern', 'nokern_none', 'rank_missing',
              'rank_extra', 'rank0', 'rankneg', 'idx_extra', 'idx_missing',
              'ranks_alone'):
        one_kern(dict(c, fault=f), R)
    for k in range(c['nl']):
        one_kern(dict(c, fault='rank0', k=k), R)


def one_kern(c, R):
    rng = np.random.RandomState(c['rs'])
    D, nl, ns, ni = c['D'], c['nl'], c['ns'], c['ni']
    ks = [(RBF if rng.rand() < .5 else Matern32)(inv_lengthscale=1 + i)
          for i in range(nl + ns + ni)]
    ranks = list(c['ranks'])
    idx = None
    if c['idx'] == 'list':
        idx = [int(i) for i in rng.permutation(max(D, ni))[:ni]]
    elif c['idx'] == 'repeat':
        idx = [int(rng.randint(D)) for _ in range(ni)]
    if idx is None and ni > D:
        idx = [int(rng.randint(D)) for _ in range(ni)]
    if idx is not None:
        idx = [i % D for i in idx]
    kw = dict(D=D)
    sets = [('lmc_kernels', ks[:nl]), ('lmc_ranks', ranks),
            ('slfm_kernels', ks[nl:nl + ns]), ('indep_gp', ks[nl + ns:]),
            ('indep_gp_index', idx)]
    f = c['fault']
    k = c['k']
    for name, v in sets:
        if v:
            kw[name] = v
        elif not c['none'] and v is not None:
            kw[name] = []
    if f == 'D0':
        kw['D'] = 0
    elif f == 'Dnone':
        kw['D'] = None
        if k % 2:
            del kw['D']
    elif f == 'nokern':
        kw = dict(D=D, lmc_kernels=[], lmc_ranks=[], slfm_kernels=[],
                  indep_gp=[])
    elif f == 'nokern_none':
        kw = dict(D=D)
    elif f == 'rank_missing' and nl:
        kw['lmc_ranks'] = ranks[:-1]
    elif f == 'rank_extra' and nl:
        kw['lmc_ranks'] = ranks + [1]
    elif f == 'rank0' and nl:
        kw['lmc_ranks'] = [0 if i == k % nl else r
                           for i, r in enumerate(ranks)]
    elif f == 'rankneg' and nl:
        kw['lmc_ranks'] = [-1 - k if i == k % nl else r
                           for i, r in enumerate(ranks)]
        if nl > 1 and c['rs'] % 2:
            # made up for by another
            kw['lmc_ranks'][(k + 1) % nl] += 2 + k
    elif f == 'idx_extra' and ni:
        kw['indep_gp_index'] = (idx or list(range(ni))) + [0]
    elif f == 'idx_missing' and ni > 1:
        kw['indep_gp_index'] = (idx or list(range(ni)))[:-1]
    elif f == 'ranks_alone' and nl == 0 and ns + ni:
        kw['lmc_ranks'] = [1 + k]
    else:
        f = None
    if f is None and c['fault']:
        return
    if f is None and nl + ns + ni == 0:
        f = 'nokern'
    R.label(f or 'well-formed')
    R.nt(f is not None or nl + ns + ni >= 2)
    if f:
        R.raises(ValueError, lambda: FunctionalKernel(**kw),
                 'kernel specification with fault %s' % f)
        return
    fk = FunctionalKernel(**kw)
    R.check(fk.Q == nl + ns + ni and fk.D == D, 'Q=%r D=%r for %d kernels '
            'and %d outputs', fk.Q, fk.D, nl + ns + ni, D)
    if c['rs'] % 5 == 0:
        X = [np.linspace(0, 1, 3 + i) for i in range(D)]
        m = InterpolatedLLGP(X, [rng.randn(len(x)) for x in X],
                             functional_kernel=fk, max_procs=1, m=6,
                             trace_iterations=1, prediction='exact')
        R.label('model')
        mu, var = m.predict([x[:1] for x in X])
        R.check(len(mu) == D and all(np.isfinite(np.concatenate(v)).all()
                                     for v in (mu, var)),
                'predictions of a model with this kernel: %r %r', mu, var)
