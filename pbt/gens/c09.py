from hypothesis import strategies as st
from .common import Part, seeds, fk_spec, data_spec, large_spec, magnify

RULE = ('functional kernels of every kind in 1-3 input dimensions with '
        'ragged data, noise down to 3e-6; non-trivial: two or more outputs')


@st.composite
def lik(draw):
    P = draw(st.sampled_from([1, 1, 2, 3]))
    fk = draw(fk_spec(9, 5, P, ident=True, max_rank=8))
    low = draw(st.sampled_from([1.0, 1.0, 1e-2, 1e-3, 1e-4]))
    fk['noise'] = [v * low for v in fk['noise']]
    return dict(fk=fk, low=low,
                data=draw(data_spec(fk['D'], P, 1, 9, 36, 1)),
                rs=draw(seeds), n1=draw(st.booleans()))


@st.composite
def cross(draw):
    P = draw(st.sampled_from([1, 1, 2, 3]))
    fk = draw(fk_spec(11, 5, P, ident=True, max_rank=8))
    D = fk['D']
    return dict(fk=fk, a=[draw(st.integers(0, 7)) for _ in range(D)],
                b=[draw(st.integers(0, 7)) for _ in range(D)],
                rs=draw(seeds), shared=draw(st.booleans()),
                how=draw(st.sampled_from(
                    ['free', 'free', 'perm', 'same', 'swap', 'flip'])))


large = st.builds(lambda m, rs: dict(fk=m['fk'], data=m['data'], rs=rs,
                                     low=1.0, n1=False),
                  large_spec(60, 200, Ps=(1, 1, 2), maxD=7), seeds)
PARTS = [Part('large', large, 24, 500),
         Part('lik', magnify(lik()), 700, 12000),
         Part('cross', magnify(cross()), 700, 12000)]
