"""Every array and list handed to the library is photographed first and
compared afterwards, the memory around a view included."""
import pickle

import numpy as np
import scipy.sparse

import build
import mats
from checks import c19
from core import layout, HarnessError

from runlmc.approx.interpolation import (
    autogrid, cubic_kernel, interp_bicubic, interp_cubic, multi_interpolant)
from runlmc.approx.iterative import Iterative
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.shur import shur
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import Gaussian, Gamma
from runlmc.util.normalizer import Norm
from runlmc.util.numpy_convenience import (
    begin_end_indices, cartesian_product, chunks, map_entries,
    search_descending, smallest_eig, symm_2d_list_map, tesselate)


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


class Guard:
    def __init__(self):
        self.held = []
        self.n = 0

    def __call__(self, x, name='argument'):
        self.held.append((name, x, self.photo(x)))
        self.n += 1
        return x

    def photo(self, x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return ('obj', x.shape, [id(v) for v in x.ravel()])
            r = root(x)
            return ('arr', x.shape, x.dtype.str, x.strides,
                    x.flags.writeable, r.shape, r.tobytes(), x.tobytes())
        if scipy.sparse.issparse(x):
            return ('sp', x.shape, self.photo(x.data), self.photo(x.indices),
                    self.photo(x.indptr))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [id(v) for v in x],
                    [self.photo(v) for v in x])
        if isinstance(x, dict):
            return ('dict', [(k, id(v), self.photo(v)) for k, v in
                             sorted(x.items())])
        if isinstance(x, (int, float, str, bool, type(None), np.generic)):
            return repr(x)
        return ('id', id(x))

    def verify(self, R, when):
        for name, x, was in self.held:
            now = self.photo(x)
            R.check(now == was, '%s altered by %s: now %s', name, when,
                    repr(x)[:200])


def lay(a, how):
    return layout(a, how if np.ndim(a) else 'c')


def part_mat(c, R):
    g = Guard()
    mats.TRACK = lambda x: g(x, 'matrix argument')
    try:
        M, dense, _ = mats.build(c['m'])
    finally:
        mats.TRACK = None
    rng = np.random.RandomState(c['rs'])
    x = g(lay(rng.randn(dense.shape[1]) * 3, c['xl']), 'operand')
    X = g(lay(rng.randn(dense.shape[1], c['k']) * 3, c['Xl']), 'operand')
    R.nt(g.n >= 2)
    R.label(c['m']['t'])
    # a result must not be where the matrix keeps its own entries either:
    # nothing of it is written to here, only the arguments are watched
    g.verify(R, 'construction')
    for name, f in (('matvec', lambda: M.matvec(x)),
                    ('matmat', lambda: M.matmat(X)),
                    ('as_numpy', M.as_numpy),
                    ('is_square', M.is_square),
                    ('operator matvec',
                     lambda: M.as_linear_operator().matvec(x)),
                    ('operator matmat',
                     lambda: M.as_linear_operator().matmat(X)),
                    ('pickling', lambda: pickle.loads(pickle.dumps(M))),
                    ('str', lambda: str(M)),
                    ('matvec again', lambda: M.matvec(x))):
        f()
        g.verify(R, name)
    if hasattr(M, 'upper_eig_bound') and dense.shape[0] == dense.shape[1]:
        try:
            M.upper_eig_bound()
        except (NotImplementedError, AttributeError):
            pass
        g.verify(R, 'upper_eig_bound')


def part_solve(c, R):
    g = Guard()
    rng = np.random.RandomState(c['rs'])
    n = c['n']
    top = np.exp(-0.5 * np.arange(n) * (0.5 + rng.rand()))
    top[0] += 0.3
    top = g(lay(top, c['l'][0]), 'row')
    y = g(lay(rng.randn(n), c['l'][1]), 'right-hand side')
    R.nt(n >= 2)
    T = Toeplitz(top)
    Iterative.solve(T, y, verbose=c['v'], minres=c['mr'])
    g.verify(R, 'solve')
    A = g(lay(mats.dense_toep(np.array(top)), c['l'][2]), 'matrix')
    Iterative.solve(NumpyMatrix(A), y, verbose=c['v'], minres=c['mr'])
    g.verify(R, 'solve with a dense matrix')
    if n <= 40:
        smallest_eig(top)
        g.verify(R, 'smallest_eig')
        if n > 1:
            shur(top)
            g.verify(R, 'shur')


def part_interp(c, R):
    g = Guard()
    rng = np.random.RandomState(c['rs'])
    P, l = c['P'], c['l']
    lens = list(c['lens'])
    if not sum(lens):
        lens[0] = 2
    Xs = [rng.rand(n, P) for n in lens]
    full = [lay(X, l[i % 3]) for i, X in enumerate(Xs) if len(X)]
    full = g(full, 'inputs')
    lo = rng.rand(P) - 1 if c['lo'] else None
    hi = rng.rand(P) + 1 if c['hi'] else None
    m = np.array(c['m'][:P])
    kind = c['k']
    if kind == 'list':
        lo, hi = [None if v is None else [float(x) for x in v]
                  for v in (lo, hi)]
        m = [int(v) for v in m]
    elif kind == 'farr':
        m = m.astype(float)
    elif kind == 'none':
        m = None
    if kind in ('arr', 'farr') and l[3] == 'ro':
        for v in (lo, hi, m):
            if v is not None:
                v.setflags(write=False)
    R.label(kind)
    R.nt(True)
    lo, hi, m = g(lo, 'lo'), g(hi, 'hi'), g(m, 'm')
    if not (m is None and sum(map(len, full)) // len(full) == 0):
        autogrid(full, lo, hi, m)
        g.verify(R, 'autogrid')
    grids = [g(lay(np.linspace(-0.6, 1.6, k), l[4 + i]), 'grid')
             for i, k in enumerate(c['m'][:P])]
    some = g([lay(X, l[6]) if len(X) else X for X in Xs], 'samples')
    multi_interpolant(some, *grids)
    g.verify(R, 'multi_interpolant')
    if P == 1:
        x = g(lay(Xs[0].ravel(), l[7]), 'samples') if len(Xs[0]) else \
            np.zeros(0)
        interp_cubic(grids[0], x)
        flat = g([X.ravel() for X in some], 'samples')
        multi_interpolant(flat, *grids)
        g.verify(R, 'interp_cubic')
    else:
        interp_bicubic(grids[0], grids[1], some[0])
        g.verify(R, 'interp_bicubic')
    u = g(lay(4 * rng.rand(5) - 2, l[7]), 'distances')
    cubic_kernel(u)
    g.verify(R, 'cubic_kernel')
    cartesian_product(*grids)
    g.verify(R, 'cartesian_product')


def part_func(c, R):
    g = Guard()
    rng = np.random.RandomState(c['rs'])
    n, l = c['n'], c['l']
    shape = {'1': (n,), '2': (n, 2), 'sq': (n, n)}[c['shape']]
    d = np.abs(rng.randn(*shape)) * 3
    d.ravel()[0] = 0
    if shape == (n, n):
        d = d + d.T
    d = g(lay(d, l[0]), 'distances')
    k = build.real_kern(c['k'])
    R.label(c['k']['t'], c['p']['t'])
    R.nt(True)
    k.from_dist(d)
    g.verify(R, 'from_dist')
    gr = list(k.kernel_gradient(d))
    g.verify(R, 'kernel_gradient')
    grads = g([float(v) for v in rng.randn(len(gr))], 'kernel gradient list')
    k.update_gradient(grads)
    k.from_dist(d)
    g.verify(R, 'update_gradient')
    # priors
    x = lay(np.maximum(np.rint(1 + 3 * rng.rand(*shape)), 1), l[1])
    g(x, 'points')
    p = c19.make(c['p'])
    p.lnpdf(x)
    g.verify(R, 'lnpdf')
    p.lnpdf_grad(x)
    g.verify(R, 'lnpdf_grad')
    # mean functions
    D = 1 + n % 4
    Xs = g([lay(rng.randn(1 + i), l[2 + i % 2]) for i in range(D)], 'inputs')
    c0 = g(lay(rng.randn(D), l[4]), 'offsets')
    for f in (Zero(1, D), Constant(1, D, c0)):
        f.f(Xs)
        f.mean_gradient(Xs)
        g.verify(R, 'mean function')
        if isinstance(f, Constant):
            gg = g(lay(rng.randn(D), l[5]), 'gradient')
            f.update_gradient(gg)
            f.c[0] = 3.5
            f.c[:] = 2 * f.c.values
            v = g(lay(rng.randn(D), l[1]), 'new offsets')
            f.c[:] = v
            f.c[0] += 1
            f.c.gradient[:] = 0
            f.f(Xs)
            g.verify(R, 'changing the mean function')
    # normalizer
    Y = g(lay(rng.randn(n + 1), l[3]), 'normalized data')
    N = Norm()
    N.scale_by(Y)
    N.normalize(Y)
    N.inverse_mean(Y)
    N.inverse_variance(Y)
    g.verify(R, 'normalizer')


def part_util(c, R):
    g = Guard()
    rng = np.random.RandomState(c['rs'])
    lens, l = list(c['lens']), c['l']
    n = sum(lens)
    R.nt(len(lens) >= 2)
    a = g(lay(rng.randn(max(n, 1), 2), l[0]), 'array')
    if n:
        ln = g(lens, 'lengths')
        tesselate(a, ln)
        g.verify(R, 'tesselate')
        al = g(np.array(lens), 'lengths')
        if l[1] == 'ro':
            al.setflags(write=False)
            g.held.pop()
            g(al, 'lengths')
        tesselate(a, al)
        begin_end_indices(al)
        begin_end_indices(ln)
        g.verify(R, 'begin_end_indices')
    list(chunks(a, c['k']))
    g.verify(R, 'chunks')
    map_entries(lambda x: -x, a)
    g.verify(R, 'map_entries')
    s = g(lay(np.sort(rng.randn(max(n, 1)))[::-1], l[2]), 'descending')
    search_descending(0.1, s, bool(c['k'] % 2))
    sl = g([float(v) for v in s], 'descending')
    search_descending(0.1, sl, bool(c['k'] % 2))
    g.verify(R, 'search_descending')
    D = len(lens)
    o = np.empty((D, D), dtype=object)
    for i in range(D):
        for j in range(D):
            o[i, j] = (i, j)
    g(o, 'array of objects')
    symm_2d_list_map(lambda x: (x,), o, D)
    q = g(lay(rng.randn(D, D), l[3]), 'array')
    symm_2d_list_map(lambda x, y: x + y, q, D, 1.0, dtype=float)
    g.verify(R, 'symm_2d_list_map')
    arrs = [g(lay(rng.randn(1 + k), l[4 + i % 2]), 'axis')
            for i, k in enumerate(lens[:3])]
    cartesian_product(*arrs)
    g.verify(R, 'cartesian_product')


def part_model(c, R):
    g = Guard()
    spec, l = c['m'], c['l']
    data, fs = spec['data'], spec['fk']
    D, P = fs['D'], fs['P']
    rng = np.random.RandomState(c['rs'])
    # kernel specification
    ks = [[], [], []]
    for i, key in enumerate(('lmc', 'slfm', 'indep')):
        for k in fs[key]:
            ad = None if k.get('ad') is None else g(list(k['ad']),
                                                    'active dimensions')
            ks[i].append(build.real_kern(build.scale_kern(k, data['span']),
                                         ad))
    ks = [g(k, 'kernel list') for k in ks]
    ranks = g(list(fs['ranks']), 'ranks')
    idx = g(None if fs['idx'] is None else list(fs['idx']), 'indices')
    fk = FunctionalKernel(D=D, lmc_kernels=ks[0], lmc_ranks=ranks,
                          slfm_kernels=ks[1], indep_gp=ks[2],
                          indep_gp_index=idx)
    g.verify(R, 'FunctionalKernel')
    nl, ns = len(ks[0]), len(ks[1])
    shapes = [(r, D) for r in ranks] + [(1, D)] * ns

    def vals(how):
        if how == 'vecs':
            v = g([lay(rng.randn(*s), l[i % 4])
                   for i, s in enumerate(shapes)], 'coregionalization vectors')
            fk.coreg_vecs = v
        elif how == 'diags':
            v = g([lay(0.1 + rng.rand(D), l[(i + 1) % 4])
                   for i in range(nl)], 'coregionalization diagonals')
            fk.coreg_diags = v
        else:
            v = g(lay(np.array(fs['noise']) * (0.7 + rng.rand()), l[4]),
                  'noise')
            fk.noise = v
    for how in ('vecs', 'diags', 'noise'):
        vals(how)
    fk.coreg_mats()
    g.verify(R, 'setting kernel parameters')
    # data
    Xs = [lay(X.ravel() if data.get('x1d') else X, l[i % 3])
          for i, X in enumerate(build.make_x(data, D, P))]
    Ys = [lay(Y, l[1 + i % 3])
          for i, Y in enumerate(build.make_y(data, [
              X.reshape(-1, P) for X in Xs]))]
    Xs, Ys = g(Xs, 'training inputs'), g(Ys, 'training outputs')
    kw = dict(normalize=spec['norm'], prediction=spec['mode'],
              trace_iterations=2, max_procs=1)
    gr = spec['grid']

    def mk(v, name):
        if isinstance(v, (int, float)):
            return v
        if c['mk'] == 'list' and name == 'm':
            return g([int(k) for k in v], name)
        v = np.array(v)
        if c['mk'] == 'ro':
            v.setflags(write=False)
        return g(v, name)
    if 'm' in gr:
        kw['m'] = mk(gr['m'], 'm')
    for b in ('lo', 'hi'):
        if b in gr:
            v = data['off'] + data['span'] * np.array(gr[b])
            kw[b] = mk(v, b) if isinstance(gr[b], list) else float(v)
    g(kw, 'keyword arguments')
    m = InterpolatedLLGP(Xs, Ys, functional_kernel=fk, **kw)
    g.verify(R, 'model construction (normalize=%r)' % spec['norm'])
    R.nt(True)
    t = c['t']
    rows = [data['off'] + data['span'] * rng.rand(n, P) for n in t['lens']]
    T = g([lay(X.ravel() if t['x1d'] and P == 1 else X, l[5 + i % 3])
           for i, X in enumerate(rows)], 'test inputs')
    q = [float(v) for v in c['q']]
    if c['qk'] in ('arr', 'ro'):
        q = np.array(q)
        q.setflags(write=c['qk'] != 'ro')
    elif c['qk'] == 'tuple':
        q = tuple(q)
    g(q, 'quantiles')
    for op in c['ops']:
        R.label(op)
        if op == 'predict':
            m.predict(T)
        elif op == 'quant':
            m.predict_quantiles(T, q)
        elif op == 'opt':
            kwo = g(dict(optimizer=AdaDelta(max_it=c['it'])), 'options')
            m.optimize(**kwo)
        elif op == 'optarr':
            s = g(lay(np.array(m.optimizer_array) * 0.9, l[6]), 'start')
            m.optimize(optimizer=AdaDelta(max_it=c['it']), start=s)
        elif op == 'lik':
            m.log_likelihood()
            m.log_det_K()
            m.normal_quadratic()
        elif op == 'K':
            m.K()
            ExactLMCLikelihood(fk, m.Xs, Ys)
            TT = g([np.array(X).reshape(-1, P) for X in T], 'points')
            if all(len(X) for X in TT):
                ExactLMCLikelihood.kernel_from_indices(TT, m.Xs, fk)
        elif op == 'grad':
            m.gradient
            m.objective_function_gradients()
        elif op == 'prior':
            fk._noise.set_prior(Gamma(2.0, 3.0))
            m.objective_function()
            m.log_prior()
        elif op == 'norm':
            if m.normalizer:
                for nm, Y in zip(m.normalizer, Ys):
                    nm.normalize(Y)
                    nm.inverse_mean(Y)
                    nm.inverse_variance(Y)
            x = g(lay(np.array(m.optimizer_array) * 1.05, l[6]),
                  'new free parameters')
            m.optimizer_array = x
            p = g(lay(np.array(m.param_array) * 1.01, l[7]),
                  'new parameters')
            m[:] = p
        else:
            vals(op)
        g.verify(R, op)


def part_gpy(c, R):
    g = Guard()
    rng = np.random.RandomState(c['rs'])
    l = c['l']
    Xs = g([lay(np.sort(rng.rand(n)), l[i % 3]) for i, n in
            enumerate(c['lens'])], 'training inputs')
    Ys = g([lay(rng.randn(n), l[3 + i % 3]) for i, n in
            enumerate(c['lens'])], 'training outputs')
    ks = g([build.real_kern(k, name='k%d' % i)
            for i, k in enumerate(c['ks'])], 'kernels')
    ranks = g([c['rank']] * len(ks), 'ranks')
    R.nt(True)
    m = GPyLMC(Xs, Ys, ks, ranks)
    g.verify(R, 'construction')
    T = g([lay(rng.rand(n), l[6]) for n in c['t']], 'test inputs')
    q = g(np.array([5.0, 50.0, 80.0]), 'quantiles')
    m.log_likelihood()
    m.predict(T)
    m.predict_quantiles(T, q)
    g.verify(R, 'prediction')
    m.optimize(max_iters=2)
    m.predict(T)
    g.verify(R, 'optimization')
