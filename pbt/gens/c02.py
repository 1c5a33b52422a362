from hypothesis import strategies as st
from .common import Part, arr, seeds, heavy_size, layouts, logu
from .c01 import factorings, again

RULE = ('bounds: trees of positive semi-definite parts (Toeplitz, diagonal, '
        'identity, Kronecker, sum, symmetric block, interpolated) and '
        'arbitrary Toeplitz rows; Schur: positive definite Toeplitz rows; '
        'non-trivial: at least 2 rows')


mag = st.one_of(logu(1e-3, 1e3), logu(1e-3, 1e3), logu(1e-12, 1e12))


@st.composite
def psd(draw, n, depth):
    opts = ['toep', 'diag', 'id', 'toep']
    if depth:
        opts += ['kron', 'sum', 'ski', 'sb', 'kron', 'sum']
    t = draw(st.sampled_from(opts))
    if t == 'toep':
        return dict(t='ptoep', n=n, rs=draw(seeds), j=draw(st.integers(0, 3)),
                    s=draw(mag))
    if t == 'diag':
        return dict(t='pdiag', n=n, rs=draw(seeds), s=draw(mag),
                    z=draw(st.booleans()))
    if t == 'id':
        return dict(t='id', n=n)
    if t == 'sum':
        return dict(t='sum', ks=draw(again([
            draw(psd(n, depth - 1)) for _ in
            range(draw(st.integers(1, 3)))])))
    if t == 'kron':
        a, b = draw(st.sampled_from(factorings(n, 2)))
        return dict(t='kron', A=draw(psd(a, depth - 1)),
                    B=draw(psd(b, depth - 1)))
    if t == 'sb':
        D, m = draw(st.sampled_from(
            [f for f in factorings(n, 2) if f[0] <= 5]))
        return dict(t='psb', D=D, bs=draw(again([
            draw(psd(m, 0)) for _ in range(D * (D + 1) // 2)], True)))
    g = draw(st.integers(1, 12))
    return dict(t='ski', n=n, g=g, rs=draw(seeds), K=draw(psd(g, depth - 1)))


bounds = st.builds(lambda m, s: dict(m=m, share=s), heavy_size(1, 12, 40).flatmap(
    lambda n: st.integers(0, 2).flatmap(lambda d: psd(n, d))), st.booleans())
toep = heavy_size(1, 20, 300).flatmap(lambda n: st.builds(
    lambda v, l: dict(v=v, lay=l),
    arr(n, ('norm', 'int', 'sparse', 'heavy', 'decay', 'unif', 'ones',
            'band', 'ends')),
    layouts))
schur = st.builds(lambda n, rs, j, s, e: dict(n=n, rs=rs, j=j, s=s, e=e),
                  heavy_size(1, 12, 50), seeds, st.integers(1, 8),
                  st.one_of(logu(1e-3, 1e3), logu(1e-14, 1e14)),
                  logu(1e-3, 1.0))
rnd = st.builds(lambda f, n, rs: dict(f=f, n=n, rs=rs),
                st.sampled_from(['random_toep', 'poor_cond_toep',
                                 'exp_decr_toep', 'rand_pd']),
                heavy_size(1, 20, 200), seeds)

PARTS = [Part('bound', bounds, 1600, 20000), Part('toep', toep, 1600, 20000),
         Part('schur', schur, 1200, 15000), Part('random', rnd, 1000, 10000)]
