"""Strategies shared by all generators (CPython, Hypothesis)."""
import collections

from hypothesis import strategies as st

Part = collections.namedtuple('Part', 'name strategy quick thorough')

seeds = st.integers(0, 2 ** 24)


def sig(x, d=6):
    return float('%.*g' % (d, x))


def logu(lo, hi, steps=240):
    """log-uniform positive floats, short decimal representation"""
    return st.integers(0, steps).map(
        lambda i: sig(lo * (hi / lo) ** (i / float(steps)), 5))


def lin(lo, hi, steps=400):
    return st.integers(0, steps).map(
        lambda i: sig(lo + (hi - lo) * i / float(steps), 6))


def heavy_size(lo, mid, hi):
    """mostly small, sometimes mid, rarely hi; with sizes around powers of
    two over-represented"""
    pows = [p + d for p in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)
            for d in (-1, 0, 1) if lo <= p + d <= hi]
    opts = [st.integers(lo, min(hi, lo + 5)), st.integers(lo, mid),
            st.integers(lo, mid), st.integers(lo, hi)]
    if pows:
        opts.append(st.sampled_from(pows))
    return st.one_of(*opts)


def lists(elem, min_size=0, max_size=10):
    """lists, long ones as likely as short ones"""
    return st.one_of(
        st.lists(elem, min_size=min_size, max_size=max_size),
        st.integers(min_size, max_size).flatmap(
            lambda n: st.lists(elem, min_size=n, max_size=n)))


def value():
    """interesting reals"""
    return st.one_of(
        st.integers(-4, 4).map(float),
        st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-8, -1e-8, 1e8, -1e6, 1e-3]),
        lin(-10, 10), st.floats(-1e3, 1e3, allow_nan=False, width=32))


def arr(n, kinds=('norm', 'unif', 'int', 'sparse', 'norm', 'band', 'ends'),
        small=12,
        scales=(1.0, 1.0, 1.0, 10.0, 0.01)):
    """array spec with n entries (n: int or list)"""
    tot = 1
    for k in (n if isinstance(n, (list, tuple)) else [n]):
        tot *= k
    rnd = st.builds(lambda rs, k, s: dict(rs=rs, n=n, k=k, s=s), seeds,
                    st.sampled_from(kinds),
                    st.sampled_from(scales))
    if isinstance(n, int) and n <= small:
        return st.one_of(st.lists(value(), min_size=n, max_size=n), rnd)
    return rnd


layouts = st.sampled_from(['c', 'c', 'f', 'strided', 'rev', 'ro', 'int'])
flayouts = st.sampled_from(['c', 'c', 'f', 'strided', 'rev', 'ro'])


# ------------------------------------------------------------- kernels
def kern(types=('rbf', 'mat', 'per'), scaled=False, ad=None, glo=0.05,
         ghi=30.0):
    """kernel spec relative to a unit span; ad: active dims (list) or None"""
    opts = []
    if 'rbf' in types:
        opts.append(st.builds(lambda g: dict(t='rbf', g=g), logu(glo, ghi)))
    if 'mat' in types:
        opts.append(st.builds(lambda g: dict(t='mat', g=g),
                              logu(glo, ghi ** .7)))
    if 'per' in types:
        opts.append(st.builds(lambda g, T: dict(t='per', g=g, T=T),
                              logu(glo, ghi ** .6), logu(0.25, 3.0)))
    if 'id' in types:
        opts.append(st.just(dict(t='id')))
    base = st.one_of(*opts)
    if scaled:
        base = st.one_of(base, base, st.builds(
            lambda k, s: dict(t='scaled', k=k, s=s), base, logu(0.2, 4.0)))
    if ad is not None:
        def add(k):
            k = dict(k)
            k['ad'] = ad
            return k
        base = base.map(add)
    return base


# -------------------------------------------------------------- models
@st.composite
def fk_spec(draw, maxD=5, maxQ=5, P=1, types=('rbf', 'mat', 'per'),
            scaled=True, minD=1, split=True, max_rank=4, ident=False, each=3):
    """functional kernel specification; never empty"""
    D = draw(st.sampled_from(
        [d for d in (1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 11) if minD <= d <= maxD]))
    nl = draw(st.integers(0, min(each, maxQ)))
    ns = draw(st.integers(0, min(each, maxQ - nl)))
    ni = draw(st.integers(0, min(D + 1, maxQ - nl - ns, each + 1)))
    shape = draw(st.sampled_from(
        ['mix', 'mix', 'mix', 'slfm', 'indep', 'lmc1', 'allindep']))
    if shape == 'slfm':
        nl, ns, ni = 0, max(1, ns), 0
    elif shape == 'indep':
        nl, ns, ni = 0, 0, max(1, ni)
    elif shape == 'lmc1':
        nl, ns, ni = 1, 0, 0
    elif shape == 'allindep' and D <= maxQ:
        ni = D
        nl, ns = min(nl, 1), min(ns, 1)
    if nl + ns + ni == 0:
        nl = 1
    if P == 1:
        ads = [None]
    elif P == 2:
        ads = [None, None, None, [0, 1], [1, 0]]
        if split:
            ads += [[0], [1], [0], [1]]
    else:
        ads = [[0, 1], [2], [1], [2, 0], [0]]
    if P == 2 and split and draw(st.booleans()):
        # a single group on all dims: common case
        ads = [None]

    def k(kinds):
        ad = draw(st.sampled_from(ads))
        tt = tuple(kinds)
        ident_dims = P if ad is None else len(ad)
        if ident_dims > 1:
            tt = tuple(t for t in tt if t != 'per') or ('rbf',)
        return draw(kern(tt, scaled, ad))
    kinds = tuple(types) + (('id',) if ident else ())
    lmc = [k(kinds) for _ in range(nl)]
    ranks = [draw(st.sampled_from(
        [r for r in (1, 1, 2, 2, 3, 4, 5, 8) if r <= max_rank]))
        for _ in range(nl)]
    slfm = [k(kinds) for _ in range(ns)]
    indep = [k(kinds) for _ in range(ni)]
    if ni and (ni > D or draw(st.booleans())):
        idx = [draw(st.integers(0, D - 1)) for _ in range(ni)]
    elif ni:
        idx = draw(st.sampled_from([None, 'perm']))
        if idx == 'perm':
            idx = list(draw(st.permutations(list(range(D)))))[:ni]
    else:
        idx = None
    # parameters that happen to coincide
    tie = draw(st.sampled_from(['', '', '', '', 'noise', 'kern', 'all']))
    noise = [draw(logu(0.03, 1.0)) for _ in range(D)]
    if tie in ('noise', 'all'):
        noise = [noise[0]] * D
    if tie in ('kern', 'all'):
        pool = lmc + slfm + indep
        lmc, slfm, indep = [[draw(st.sampled_from(pool[:2])) for _ in ks]
                            for ks in (lmc, slfm, indep)]
    return dict(
        D=D, P=P, lmc=lmc, ranks=ranks, slfm=slfm, indep=indep, idx=idx,
        crs=draw(seeds),
        ck=draw(st.sampled_from(['norm', 'norm', 'sparse', 'int', 'pos',
                                 'const'])),
        noise=noise)


@st.composite
def data_spec(draw, D, P=1, lo=1, hi=14, total=60, min_each=2):
    lens = [draw(st.integers(max(lo, min_each), hi)) for _ in range(D)]
    while sum(lens) > total:
        i = lens.index(max(lens))
        lens[i] -= 1
    d = dict(
        lens=lens, xrs=draw(seeds), yrs=draw(seeds),
        span=draw(st.sampled_from([1.0, 1.0, 5.0, 0.1, 100.0])),
        off=draw(st.sampled_from([0.0, 0.0, -3.0, 10.0, -0.5])),
        xk=draw(st.sampled_from(
            ['unif', 'unif', 'grid', 'sorted', 'shared', 'clust', 'int', 'dup',
             'ends', 'desc'])),
        yk=draw(st.sampled_from(['smooth', 'smooth', 'norm', 'big', 'int', 'std'])),
        x1d=draw(st.booleans()) if P == 1 else False)
    if d['xk'] == 'int':
        # inputs are integers
        d.update(off=0.0, span=3.0 * max(lens))
    return d


@st.composite
def grid_spec(draw, P=1, lo=4, hi=24):
    mode = draw(st.sampled_from(['m', 'm', 'm', 'mlohi', 'none', 'lohi']))
    g = {}
    if P == 2:
        hi = min(hi, 9)
    if mode.startswith('m'):
        g['m'] = [draw(st.integers(lo, hi)) for _ in range(P)]
        if P == 1 and draw(st.booleans()):
            g['m'] = g['m'][0]
    if mode.endswith('lohi'):
        g['lo'] = [draw(lin(-0.4, 0.2)) for _ in range(P)]
        g['hi'] = [draw(lin(0.8, 1.4)) for _ in range(P)]
        if P == 1 and draw(st.booleans()):
            g['lo'], g['hi'] = g['lo'][0], g['hi'][0]
    return g


@st.composite
def model_spec(draw, maxD=4, maxQ=4, Ps=(1, 1, 1, 2), types=('rbf', 'mat',
               'per'), scaled=True, minD=1, total=45, hi=12, split=True,
               max_rank=3, ident=False, mhi=20, mlo=4, norm=None,
               modes=('exact', 'on-the-fly', 'precompute')):
    P = draw(st.sampled_from(Ps))
    fk = draw(fk_spec(maxD, maxQ, P, types, scaled, minD, split, max_rank,
                      ident))
    data = draw(data_spec(fk['D'], P, 1, hi, total))
    return dict(
        fk=fk, data=data, grid=draw(grid_spec(P, mlo, mhi)),
        norm=draw(st.booleans()) if norm is None else norm,
        mode=draw(st.sampled_from(modes)), probes=1)


@st.composite
def test_spec(draw, D, hi=5, empty=True):
    """requested prediction points per output (relative units)"""
    lens = [draw(st.integers(0 if empty else 1, hi)) for _ in range(D)]
    return dict(lens=lens, rs=draw(seeds),
                k=draw(st.sampled_from(
                    ['in', 'in', 'train', 'gridpt', 'mixed', 'mixed', 'out',
                     'far'])),
                x1d=draw(st.booleans()),
                order=draw(st.sampled_from(['', '', '', 'up', 'down',
                                            'down'])))


def magnify(ms, key='fk'):
    """some models have covariances of a very different magnitude"""
    return st.builds(
        lambda m, s: dict(m, **{key: dict(m[key], cs=s)}), ms,
        st.sampled_from([1.0] * 5 + [1e-7, 1e-4, 1e-2, 1e3, 1e6]))


@st.composite
def large_spec(draw, lo=150, hi=600, mhi=160, Ps=(1, 1, 1, 2), maxD=4,
               modes=('exact', 'on-the-fly')):
    """models with hundreds of observations"""
    P = draw(st.sampled_from(Ps))
    fk = draw(fk_spec(maxD, 3, P, ('rbf', 'mat', 'per'), True, 1, True, 2))
    D = fk['D']
    fk['noise'] = [draw(logu(0.1, 1.0)) for _ in range(D)]
    n = draw(st.integers(lo, hi))
    w = [draw(st.integers(1, 9)) for _ in range(D)]
    lens = [max(2, n * k // sum(w)) for k in w]
    data = draw(data_spec(D, P))
    data['lens'] = lens
    if data['xk'] == 'int':
        data['span'] = 3.0 * max(lens)
    g = draw(grid_spec(P, 4, mhi))
    if P == 2 and 'm' not in g:
        g['m'] = [6, 5]
    return dict(fk=fk, data=data, grid=g, norm=draw(st.booleans()),
                mode=draw(st.sampled_from(modes)), probes=1)
