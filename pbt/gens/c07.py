from hypothesis import strategies as st
from .common import (Part, seeds, fk_spec, model_spec, heavy_size, lin,
                     large_spec, magnify)

RULE = ('functional kernels with 1-11 outputs, 1-16 latent kernels of all '
        'three kinds, ranks 1-8, 1-3 input dimensions with split active '
        'dimensions (in any order), data with empty outputs; non-trivial: '
        'two or more latent kernels or two or more outputs')


@st.composite
def rep(draw, maxD=11, maxQ=6, max_rank=8, maxn=6, mhi=33, each=3):
    P = draw(st.sampled_from([1, 1, 1, 2, 3]))
    fk = draw(fk_spec(maxD, maxQ, P, ident=True, max_rank=max_rank,
                      each=each))
    D = fk['D']
    lens = [draw(st.integers(0, maxn)) for _ in range(D)]
    if not sum(lens):
        lens[draw(st.integers(0, D - 1))] = 3
    hi = mhi if P == 1 else 8
    return dict(fk=fk, lens=lens, rs=draw(seeds), vrs=draw(seeds),
                m=[draw(heavy_size(4, min(12, hi), hi)) for _ in range(P)],
                xk=draw(st.sampled_from(['unif', 'unif', 'gridpt', 'dup'])))


model = st.builds(lambda m, v: dict(m=m, vrs=v), magnify(model_spec(
    maxD=5, maxQ=5, Ps=(1, 1, 2, 3), ident=True, max_rank=4)), seeds)
large = st.builds(lambda m, v: dict(m=m, vrs=v), large_spec(), seeds)
PARTS = [Part('wide', rep(6, 16, 3, 5, 12, 7), 60, 1500),
         Part('rep', rep(), 700, 15000), Part('model', model, 320, 5000),
         Part('large', large, 24, 500)]
