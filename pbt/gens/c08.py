from hypothesis import strategies as st
from .common import Part, seeds, model_spec

RULE = ('models with RBF, Matern 3/2, periodic and scaled kernels on '
        'generated grids from coarse to fine; non-trivial: the error bound '
        'is below 5 percent of the largest covariance')

one = st.builds(lambda m: dict(m=m), model_spec(
    maxD=4, maxQ=4, Ps=(1,), total=30, mlo=4, mhi=160, max_rank=2))
multi = st.builds(lambda m, r: dict(m=m, r=r), model_spec(
    maxD=3, maxQ=3, Ps=(2, 2, 3), total=20, max_rank=2),
    st.lists(st.one_of(st.integers(1, 4), st.integers(1, 10)), min_size=2,
             max_size=2))
long = st.builds(lambda m: dict(m=m), model_spec(
    maxD=2, maxQ=2, Ps=(1,), total=16, mlo=161, mhi=1100, max_rank=1))
PARTS = [Part('one', one, 420, 6000), Part('long', long, 40, 900), Part('multi', multi, 200, 3000)]
