from hypothesis import strategies as st
from .common import lists, Part, seeds, heavy_size, model_spec, logu, lin, data_spec, test_spec
from .c13 import with_test, cheap, MODES

RULE = ('percentages strictly between 0 and 100 in any order, repeated and '
        'extreme, as tuple, list or array; every prediction mode and the '
        'GPy baseline; non-trivial: at least one test point and two '
        'percentages')

pct = st.one_of(
    st.sampled_from([50.0, 50, 2.5, 97.5, 25, 75, 1, 99, 0.001, 99.999,
                     0.1, 99.9, 1e-6, 10, 90, 49.999, 50.001]),
    st.integers(1, 99), lin(0.01, 99.99), logu(1e-8, 0.5),
    logu(1e-5, 0.5).map(lambda x: 100 - x))
pcts = st.one_of(*[st.lists(pct, min_size=1, max_size=6)] * 6,
                 lists(pct, min_size=7, max_size=40))
how = st.sampled_from(['tuple', 'tuple', 'list', 'array'])


def quant(c, empty=True):
    q = pcts
    if empty:
        q = st.one_of(pcts, pcts, pcts, pcts, st.just([]), st.none())
    return st.builds(lambda q, h: dict(c, q=q, how=h), q, how)


model = with_test(model_spec(maxD=4, maxQ=3, Ps=(1, 1, 1, 2), total=26,
                             max_rank=2, mhi=9, modes=MODES), 4).map(
    cheap(24, 97)).flatmap(quant)
# predictive distributions given directly: any mean and variance
stub = st.builds(
    lambda lens, rs, ms, vs, norm, q, h: dict(
        lens=lens, rs=rs, ms=ms, vs=vs, norm=norm, q=q, how=h),
    lists(st.one_of(st.integers(0, 6), st.integers(0, 6),
                    heavy_size(0, 20, 400)), min_size=1, max_size=12),
    seeds, logu(1e-3, 1e6), logu(1e-6, 1e6), st.booleans(), pcts, how)
gpy = st.builds(
    lambda D, seed, rank, n, lens, q, h: dict(
        D=D, rs=seed, rank=rank, n=n, lens=lens[:D], q=q, how=h),
    st.integers(1, 4), seeds, st.integers(1, 2), st.integers(2, 6),
    st.lists(st.integers(0, 4), min_size=4, max_size=4), pcts, how)
PARTS = [Part('model', model, 260, 6000), Part('stub', stub, 400, 8000),
         Part('gpy', gpy, 60, 800)]
