from hypothesis import strategies as st
from .common import Part, seeds, logu, kern, test_spec, data_spec

RULE = ('lists of one to four convertible kernels with ranks 1 to 4, one to '
        'six outputs, hyperparameters at construction, as assigned and '
        'after optimization; requests with empty outputs; non-trivial: two '
        'or more outputs or kernels and at least one test point')


@st.composite
def spec(draw):
    D = draw(st.sampled_from([1, 2, 2, 3, 4, 6]))
    Q = draw(st.sampled_from([1, 1, 2, 3, 4]))
    return dict(
        D=D, ks=[draw(kern(ghi=15)) for _ in range(Q)],
        ranks=[draw(st.integers(1, 4)) for _ in range(Q)],
        data=draw(data_spec(D, 1, 1, 8, 22)), rs=draw(seeds),
        t=draw(test_spec(D, draw(st.sampled_from([4, 4, 4, 40])))),
        x1d=[draw(st.booleans()) for _ in range(D)],
        steps=draw(st.lists(st.one_of(
            st.tuples(st.just('assign'), seeds),
            st.tuples(st.just('opt'), st.integers(1, 4))).map(list),
            max_size=2)),
        q=draw(st.sampled_from([None, [50, 5, 95], [97.5], [0.1, 99.9, 30]])))


PARTS = [Part('exact', spec(), 130, 2000), Part('agree', spec(), 90, 1200)]
