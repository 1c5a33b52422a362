from hypothesis import strategies as st
from .common import Part, model_spec, logu, seeds, fk_spec, large_spec, magnify

RULE = ('generated models with and without normalization; non-trivial: two '
        'or more outputs')
lik = st.builds(lambda m: dict(m=m), magnify(model_spec(
    maxD=5, maxQ=4, Ps=(1, 1, 2, 3), total=50, ident=True, max_rank=3)))
fine = st.builds(lambda m: dict(m=m), model_spec(
    maxD=3, maxQ=3, Ps=(1,), total=25, mlo=60, mhi=150, max_rank=2))


@st.composite
def big(draw):
    """hundreds of observations: determinants beyond the range of floats"""
    fk = draw(fk_spec(maxD=3, maxQ=2, P=1, types=('rbf', 'mat'), max_rank=2))
    n = draw(st.integers(100, 340))
    D = fk['D']
    lens = [n // D] * D
    scale = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
    fk['noise'] = [draw(logu(1e-4, 3e-2)) if scale <= 1 else
                   draw(logu(10., 1e4)) for _ in range(D)]
    data = dict(lens=lens, xrs=draw(seeds), yrs=draw(seeds), span=1.0,
                off=0.0, xk='unif', yk='smooth', x1d=True)
    return dict(m=dict(fk=fk, data=data, grid=dict(m=draw(st.integers(4, 9))),
                       norm=draw(st.booleans()), mode='on-the-fly',
                       probes=1))


large = st.builds(lambda m: dict(m=m), large_spec())
PARTS = [Part('big', big(), 28, 500), Part('large', large, 24, 500),
         Part('lik', lik, 420, 7000), Part('fine', fine, 120, 2000)]
