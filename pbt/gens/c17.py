from hypothesis import strategies as st
from .common import lists, Part, seeds, model_spec, test_spec, lin, logu

RULE = ('histories of up to 14 operations over one to three models (and '
        'copies of them): '
        'assignments through every route, fixing and freeing, priors, '
        'batched updates, optimizer steps, changes of prediction mode and '
        'queries; each query is compared with own dense arithmetic at the '
        'current parameters and the end state with a freshly built model; '
        'non-trivial: a query after at least one change, following an '
        'earlier query')

model = model_spec(maxD=3, maxQ=3, Ps=(1, 1, 1, 1, 2), total=16, hi=8,
                   max_rank=2, mlo=4, mhi=6, ident=False,
                   modes=('on-the-fly', 'exact', 'precompute'))

idx = st.integers(0, 7)
change = st.one_of(
    st.tuples(st.just('vec'), idx, idx, seeds),
    st.tuples(st.just('entry'), idx, idx, seeds),
    st.tuples(st.just('diag'), idx, idx, seeds),
    st.tuples(st.just('noise'), idx, idx, seeds),
    st.tuples(st.just('kern'), idx, idx, logu(0.4, 2.5)),
    st.tuples(st.just('kern'), idx, idx, logu(0.4, 2.5)),
    st.tuples(st.just('array'), idx, idx, seeds),
    st.tuples(st.just('batch'), idx, idx, seeds),
    st.tuples(st.just('fix'), idx, idx, st.just(0)),
    st.tuples(st.just('unfix'), idx, idx, st.just(0)),
    st.tuples(st.just('prior'), idx, idx, logu(0.5, 5)),
    st.tuples(st.just('unprior'), idx, idx, st.just(0)),
    st.tuples(st.just('nudge'), idx, idx, logu(1e-7, 1e-3)),
    st.tuples(st.just('nudge'), idx, idx, logu(1e-7, 1e-3)),
    st.tuples(st.just('regex'), idx, idx, seeds),
    st.tuples(st.just('swap'), idx, idx, st.integers(0, 3)),
    st.tuples(st.just('swap'), idx, idx, st.integers(0, 3)),
    st.tuples(st.just('detour'), idx, idx, seeds),
    st.tuples(st.just('detour'), idx, idx, seeds),
    st.tuples(st.just('randomize'), idx, idx, seeds),
    st.tuples(st.just('copy'), idx, idx, st.just(0)),
    st.tuples(st.just('copy'), idx, idx, st.just(0)),
    st.tuples(st.just('opt'), idx, idx, st.integers(1, 2)))
query = st.one_of(
    st.tuples(st.just('predict'), idx, idx, seeds),
    st.tuples(st.just('predict'), idx, idx, seeds),
    st.tuples(st.just('mode'), idx, idx, st.just(0)),
    st.tuples(st.just('quant'), idx, idx, seeds),
    st.tuples(st.just('ll'), idx, idx, st.just(0)),
    st.tuples(st.just('K'), idx, idx, st.just(0)),
    st.tuples(st.just('obj'), idx, idx, st.just(0)))
step = st.one_of(change, query, query).map(list)
hist = st.builds(
    lambda ms, steps, fresh, warm: dict(ms=ms, steps=steps, fresh=fresh,
                                        warm=warm),
    st.lists(model, min_size=1, max_size=3),
    lists(step, min_size=3, max_size=14), st.booleans(),
    st.sampled_from([True, True, False]))
PARTS = [Part('hist', hist, 150, 4000)]
