from hypothesis import strategies as st
from .common import Part, seeds, heavy_size, lin, logu

RULE = ('kernels (RBF, Matern 3/2, periodic, identity, scaled, nested '
        'scaled), parameters 1e-3..1e3 set at construction or later, '
        'distance arrays of 1-4 dimensions (zero, tiny, huge, multiples of '
        'the period); non-trivial: some distance is positive')

par = st.one_of(logu(1e-3, 1e3), st.sampled_from([1, 2, 0.5, 1.0, 3]))


def kspec(depth=2, ident=True):
    base = [st.builds(lambda g: dict(t='rbf', g=g), par),
            st.builds(lambda g: dict(t='mat', g=g), par),
            st.builds(lambda g, T: dict(t='per', g=g, T=T), par, par)]
    if ident:
        base.append(st.just(dict(t='id')))
    b = st.one_of(*base)
    if not depth:
        return b
    return st.one_of(b, b, st.builds(
        lambda k, s: dict(t='scaled', k=k, s=s), kspec(depth - 1, ident),
        par))


dists = st.builds(
    lambda shape, rs, s, z, lay: dict(shape=shape, rs=rs, s=s, z=z, lay=lay),
    st.one_of(st.lists(st.integers(1, 6), min_size=1, max_size=3),
              st.integers(1, 14).map(lambda n: [n, n]),
              st.integers(1, 5).map(lambda n: [n, n, n]),
              st.lists(st.integers(0, 3), min_size=1, max_size=2),
              heavy_size(1, 20, 60).map(lambda n: [n]),
              st.one_of(heavy_size(1, 200, 5000).map(lambda n: [n]),
                        st.lists(st.integers(1, 4), min_size=4, max_size=4),
                        st.integers(15, 75).map(lambda n: [n, n]),
                        st.integers(8, 16).map(lambda n: [n, 3, n]))),
    seeds, st.sampled_from([1.0, 1.0, 1e-6, 1e-3, 10.0, 1e3]),
    st.sampled_from(['none', 'some', 'all', 'mult', 'int', 'some', 'dup']),
    st.sampled_from(['c', 'f', 'strided', 'ro', 'rev', 'int']))

ev = st.builds(lambda k, d, how: dict(k=k, d=d, how=how), kspec(), dists,
               st.sampled_from(['init', 'set', 'param_array']))
gram = st.builds(lambda k, n, rs, s, dup: dict(k=k, n=n, rs=rs, s=s,
                                               dup=dup),
                 kspec(1), heavy_size(1, 10, 40), seeds,
                 logu(1e-2, 1e2), st.booleans())
gpy = st.builds(lambda k, n, n2, rs, s, ad, how: dict(
    k=k, n=n, n2=n2, rs=rs, s=s, ad=ad, how=how), kspec(0, False),
    st.integers(1, 8), st.integers(1, 8), seeds, logu(1e-2, 10.0),
    st.booleans(), st.sampled_from(['init', 'set']))

PARTS = [Part('eval', ev, 2400, 40000), Part('gram', gram, 800, 12000),
         Part('gpy', gpy, 300, 4000)]
