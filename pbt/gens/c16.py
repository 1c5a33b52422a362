from hypothesis import strategies as st
from .common import Part, seeds, heavy_size, model_spec, logu, lin
from .c13 import with_test, cheap, MODES

RULE = ('normalizing models with a positive factor and an offset per output '
        '(factors 1e-4..1e4); non-trivial: some factor is not one or some '
        'offset not zero; normalizers over arrays of any shape and scale')


def ms(**kw):
    d = dict(maxD=4, maxQ=3, Ps=(1, 1, 1, 2), total=26, max_rank=2, mhi=9,
             modes=MODES, norm=True)
    d.update(kw)
    return model_spec(**d)


fac = st.one_of(st.just(1.0), logu(1e-4, 1e4), logu(0.1, 10),
                logu(1e-8, 1e8))
off = st.one_of(st.just(0.0), lin(-10, 10), st.sampled_from([1e3, -1e3]))


def affine(c):
    D = c['m']['fk']['D']
    return st.builds(lambda a, b: dict(c, a=a, b=b),
                     st.lists(fac, min_size=D, max_size=D),
                     st.lists(off, min_size=D, max_size=D))


aff = with_test(ms(), 3).map(cheap(24, 97)).flatmap(affine)
fitted = with_test(ms(), 3).map(cheap(24, 97))
norm = st.builds(
    lambda n, rs, s, o, sh, k, vs: dict(n=n, rs=rs, s=s, o=o, sh=sh, k=k,
                                        vs=vs),
    heavy_size(2, 60, 1100), seeds, logu(1e-8, 1e8), st.sampled_from(
        [0.0, 1.0, -3.0, 1e3, -1e5]), st.lists(st.integers(0, 4), max_size=3),
    st.sampled_from(['norm', 'int', 'sparse', 'two', 'list', 'std']),
    logu(1e-3, 1e3))
PARTS = [Part('affine', aff, 130, 3500), Part('manual', fitted, 120, 2500),
         Part('norm', norm, 600, 20000)]
