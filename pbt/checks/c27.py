import numpy as np

import build
import oracle
from build import real_kern, read_kern

from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.optimization import AdaDelta


class Twin:
    """what the kernel is supposed to hold"""

    def __init__(self, D, nl, ns, ranks, idx):
        self.D, self.nl, self.ns = D, nl, ns
        self.shapes = [(r, D) for r in ranks] + [(1, D)] * ns
        self.idx = list(idx)
        self.Q = nl + ns + len(self.idx)

    def adopt(self, R, fk):
        """take over the random initial values after checking their form"""
        R.check(len(fk.coreg_vecs) == self.Q and
                len(fk.coreg_diags) == self.Q, 'not one entry per kernel')
        self.A = [np.array(a) for a in fk.coreg_vecs[:self.nl + self.ns]]
        self.A += [np.zeros((1, self.D)) for _ in self.idx]
        self.k = [np.array(k) for k in fk.coreg_diags[:self.nl]]
        self.k += [np.zeros(self.D) for _ in range(self.ns)]
        for i in self.idx:
            e = np.zeros(self.D)
            e[i] = 1
            self.k.append(e)
        self.noise = np.array(fk.noise)
        for q, (a, s) in enumerate(zip(self.A, self.shapes)):
            R.check(a.shape == s, 'vectors of kernel %d have shape %r, '
                    'expected %r', q, a.shape, s)
            R.check(np.isfinite(a).all(), 'vectors not finite')
        for k in self.k:
            R.check(k.shape == (self.D,) and (k >= 0).all(),
                    'diagonal %r', k)
        R.check(self.noise.shape == (self.D,) and (self.noise > 0).all(),
                'noise %r', self.noise)

    def verify(self, R, fk, when, tol=0.0):
        R.close_list(fk.coreg_vecs, self.A, 'vectors ' + when, rtol=tol,
                     atol=tol)
        R.close_list(fk.coreg_diags, self.k, 'diagonals ' + when, rtol=tol,
                     atol=tol)
        R.close(fk.noise, self.noise, 'noise ' + when, rtol=tol, atol=tol)
        want = [a.T.dot(a) + np.diag(k) for a, k in zip(self.A, self.k)]
        sc = max([1e-12] + [np.abs(w).max() for w in want])
        got = fk.coreg_mats()
        R.close_list(got, want, 'coregionalization matrices ' + when,
                     rtol=1e-12, atol=1e-13 * sc)
        for q, B in enumerate(got):
            R.check(np.array_equal(B, B.T), 'matrix %d not symmetric', q)
            R.check(np.linalg.eigvalsh(B).min() >= -1e-9 * (
                1 + np.abs(B).max()), 'matrix %d not positive '
                'semi-definite', q)
        return want


def group(R, fk, ads, nl, ns, ranks, P, want):
    Q = len(ads)
    R.check(fk.Q == Q and fk.P == P, 'Q %r P %r', fk.Q, fk.P)
    groups = {}
    for q, ad in enumerate(ads):
        groups.setdefault(ad, []).append(q)
    R.check({k: list(v) for k, v in fk.active_dims.items()} == groups,
            'kernels grouped as %r, expected %r', fk.active_dims, groups)
    allr = list(ranks) + [1] * ns
    for ad, qs in groups.items():
        cnt = (sum(q < nl for q in qs), sum(nl <= q < nl + ns for q in qs),
               sum(q >= nl + ns for q in qs))
        got = (fk.num_lmc[ad], fk.num_slfm[ad], fk.num_indep[ad])
        R.check(got == cnt, 'counts for %r: %r, expected %r', ad, got, cnt)
        r = sum(allr[q] for q in qs if q < nl + ns)
        R.check(fk.total_rank(ad) == r, 'total rank for %r: %r, expected %r',
                ad, fk.total_rank(ad), r)
        R.check(list(fk.filter_non_indep_idxs(qs)) ==
                [q for q in qs if q < nl + ns], 'coregionalized kernels of '
                '%r', ad)
        R.close_list(fk.coreg_mats(ad), [want[q] for q in qs],
                     'coregionalization matrices of %r' % (ad,), rtol=1e-12,
                     atol=1e-12 * max(np.abs(w).max() for w in want))
    for d in (fk.num_lmc, fk.num_slfm, fk.num_indep):
        R.check(set(d) == set(groups), 'counts for groups %r', list(d))
    for q, ad in enumerate(ads):
        R.check(tuple(fk.get_active_dims(q)) == ad, 'kernel %d acts on %r, '
                'expected %r', q, fk.get_active_dims(q), ad)


def kernels(R, fk, reals, ads, rng):
    """the q-th kernel is evaluated with its own parameters and distances"""
    dists = {ad: np.abs(rng.randn(3)) for ad in set(ads)}
    ks = [read_kern(k) for k in reals]
    R.close_list(fk.eval_kernels(dists),
                 [oracle.kval(k, dists[ad]) for k, ad in zip(ks, ads)],
                 'kernel values', rtol=1e-9)
    for ad, qs in fk.active_dims.items():
        R.close(fk.eval_kernels_fixed_dim(dists[ad], ad),
                [oracle.kval(ks[q], dists[ad]) for q in qs],
                'kernel values of %r' % (ad,), rtol=1e-9)
    gr = fk.eval_kernel_gradients(dists)
    R.check(len(gr) == len(ks), '%d kernel gradients', len(gr))
    for q, k in enumerate(reals):
        R.close_list(list(gr[q]), list(k.kernel_gradient(dists[ads[q]])),
                     'gradient of kernel %d' % q, rtol=1e-12)


def part_struct(c, R):
    D, P = c['D'], c['P']
    rng = np.random.RandomState(c['rs'])
    flat = [k for g in c['ks'] for k in g]
    reals = [real_kern(k, None if k['ad'] is None else
                       (tuple if k['tup'] else list)(k['ad']),
                       name='k%d' % i) for i, k in enumerate(flat)]
    nl, ns, ni = [len(g) for g in c['ks']]
    kw = {}
    if nl or not c['none']:
        kw.update(lmc_kernels=reals[:nl], lmc_ranks=list(c['ranks']))
    if ns or not c['none']:
        kw['slfm_kernels'] = reals[nl:nl + ns]
    if ni or not c['none']:
        kw['indep_gp'] = reals[nl + ns:]
    if c['idx'] is not None:
        kw['indep_gp_index'] = list(c['idx'])
    idx = c['idx'] if c['idx'] is not None else range(ni)
    fk = FunctionalKernel(D=D, **kw)
    R.nt(len(flat) >= 2 and D >= 2)
    R.label('nl%d' % nl, 'ns%d' % ns, 'ni%d' % ni, 'P%d' % P)
    T = Twin(D, nl, ns, c['ranks'], idx)
    T.adopt(R, fk)
    want = T.verify(R, fk, 'initially')
    # exactly the values of coregionalized kernels, noise and kernel
    # parameters are parameters
    npar = sum(r * D for r in c['ranks']) + ns * D + nl * D + D + sum(
        len(list(k.kernel_gradient(np.ones(1)))) for k in reals)
    R.check(fk.size == npar, '%d parameters, expected %d', fk.size, npar)
    ads = [tuple(range(P)) if k['ad'] is None else tuple(sorted(k['ad']))
           for k in flat]
    dim = False
    for op, seed in c['ops'] + [['dim', 0]]:
        r = np.random.RandomState(seed)
        R.label(op)
        mag = r.choice([1, 1, 1, 1e-3, 1e-6, 1e-9, 1e4])
        if op == 'vecs':
            T.A[:nl + ns] = [r.randn(*s) * 3 * mag for s in T.shapes]
            fk.coreg_vecs = [a.copy() for a in T.A[:nl + ns]]
        elif op == 'some':
            # only the leading kernels
            n = r.randint(0, nl + ns + 1)
            T.A[:n] = [r.randn(*s) for s in T.shapes[:n]]
            fk.coreg_vecs = [a.copy() for a in T.A[:n]]
            n = r.randint(0, nl + 1)
            T.k[:n] = [0.1 + r.rand(D) for _ in range(n)]
            fk.coreg_diags = [a.copy() for a in T.k[:n]]
        elif op == 'diags':
            T.k[:nl] = [(1e-3 + r.rand(D) * 4) * mag for _ in range(nl)]
            fk.coreg_diags = [a.copy() for a in T.k[:nl]]
        elif op == 'noise':
            T.noise = (1e-3 + r.rand(D) * 3) * mag
            fk.noise = T.noise.copy()
        elif op == 'noise1':
            v = (0.01 + r.rand()) * mag
            T.noise = np.full(D, v)
            fk.noise = v
        elif op == 'iszero':
            T.A[:nl + ns] = [np.zeros(s) for s in T.shapes]
            fk.coreg_vecs = [a.copy() for a in T.A[:nl + ns]]
        elif op == 'kern':
            k = reals[r.randint(len(reals))]
            if hasattr(k, 'inv_lengthscale'):
                k.inv_lengthscale[:] = 0.2 + r.rand()
        elif op == 'dim':
            fk.set_input_dim(P)
            dim = True
        elif op == 'dimbad':
            if dim:
                R.raises(ValueError, lambda: fk.set_input_dim(
                    P + 1 + r.randint(3)), 'another input dimension')
                if P > 1:
                    R.raises(ValueError, lambda: fk.set_input_dim(P - 1),
                             'smaller input dimension')
        want = T.verify(R, fk, 'after ' + op)
        if dim:
            group(R, fk, ads, nl, ns, c['ranks'], P, want)
    kernels(R, fk, reals, ads, rng)


def part_fit(c, R):
    M = build.Model(c['m'])
    m, F = M.m, M.fk
    fk = F.fk
    R.nt(fk.Q >= 2 and F.D >= 2)
    T = Twin(F.D, F.nl, F.ns, F.spec['ranks'], F.idx)
    T.adopt(R, fk)
    T.A[:F.nl + F.ns] = [np.array(a) for a in F.As[:F.nl + F.ns]]
    T.k[:F.nl] = [np.array(a) for a in F.kappas[:F.nl]]
    T.noise = np.array(F.noise)
    T.verify(R, fk, 'in the model', 1e-9)
    leaves = list(m.flattened_parameters)
    held, fixed = [], []
    for i, p in enumerate(leaves[:-1]):
        if c['fix'] >> (i % 8) & 1:
            p.fix()
            fixed.append(i)
    held = [np.array(p.values) for p in leaves]
    m.optimize(optimizer=AdaDelta(max_it=c['it'], step_rate=c['rate'],
                                  permitted_drops=100))
    if not np.isfinite(m.param_array).all():
        R.label('diverged')
        return
    for i, p in enumerate(leaves):
        if i in fixed:
            R.label('fixed')
            R.check(np.array_equal(p.values, held[i]),
                    'fixed parameter %s moved', p.name)
    T2 = Twin(F.D, F.nl, F.ns, F.spec['ranks'], F.idx)
    T2.adopt(R, fk)
    want = T2.verify(R, fk, 'after optimization')
    group(R, fk, F.ads, F.nl, F.ns, F.spec['ranks'], F.P, want)
    # free coregionalization parameters did move
    names = {p.name: not np.array_equal(p.values, h)
             for i, (p, h) in enumerate(zip(leaves, held)) if i not in fixed}
    for q in range(F.nl + F.ns):
        n = 'a%d' % q
        if n in names and np.abs(held[[p.name for p in leaves].index(
                n)]).max() > 0:
            R.check(names[n], 'free vectors of kernel %d did not move', q)
    for q in range(F.nl):
        n = 'kappa%d' % q
        if n in names:
            R.check(names[n], 'free diagonal of kernel %d did not move', q)
    if 'noise' in names:
        R.check(names['noise'], 'noise did not move')
    # the matrix the model works with is the one of these values
    L = F.lmc_now()
    n = sum(len(X) for X in M.Xs)
    R.close(m.K(), L.exact(M.Xs), 'covariance after optimization',
            rtol=1e-8, atol=1e-9 * (1 + np.abs(L.exact(M.Xs)).max()))
