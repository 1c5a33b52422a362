from hypothesis import strategies as st
from .common import (Part, seeds, fk_spec, model_spec, heavy_size, logu,
                     large_spec)
from .c07 import rep

RULE = ('likelihoods of generated kernels with probe sets for which the '
        'trace estimate is exact (Hadamard rows, scaled unit vectors), the '
        'random-probe service on systems where any probe is exact, the mean '
        'of random probes over structured derivatives, and the '
        'stored gradients of generated models; non-trivial: two or more '
        'observations')

exact = st.builds(lambda c, p, yrs: dict(c, probe=p, yrs=yrs), rep(7, 4, 3, 3, 14),
                  st.sampled_from(['had', 'unit', 'orth']), seeds)
service = st.builds(lambda n, k, rs, npool: dict(n=n, k=k, rs=rs),
                    heavy_size(1, 20, 60), st.integers(1, 40), seeds,
                    st.just(0))
model = st.builds(lambda m, k: dict(m=dict(m, probes=k)), model_spec(
    maxD=5, maxQ=4, Ps=(1, 1, 1, 2), total=24, ident=True, max_rank=3,
    mhi=12), st.sampled_from([20, 30, 40, 60]))
unbias = st.builds(lambda n, k, rs, dk: dict(n=n, k=k, rs=rs, dk=dk),
                   heavy_size(2, 40, 160), st.sampled_from([100, 150]),
                   seeds, st.lists(st.tuples(
                       st.sampled_from(['shift', 'ones', 'rand', 'flip',
                                        'block', 'pair']),
                       st.integers(1, 200)).map(list), min_size=4,
                                   max_size=8))
PARTS = [Part('exact', exact, 400, 6000), Part('service', service, 400, 4000),
         Part('model', model, 120, 3000),
         Part('large', st.builds(lambda m: dict(m=dict(m, probes=20)),
                                 large_spec(60, 200, 40, maxD=4)), 16, 300),
         Part('unbias', unbias, 60, 1500)]
