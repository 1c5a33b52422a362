from hypothesis import strategies as st
from .common import lists, Part, seeds, logu, lin, model_spec

RULE = ('histories of prior, constraint, fixing and value operations on '
        'whole parameters and on single entries of models with generated '
        'parameter shapes, the objective and gradient being read as an '
        'optimizer reads them; non-trivial: some prior in force at a check')

pos = st.one_of(
    st.builds(lambda a, b: dict(t='gamma', a=a, b=b), logu(.3, 20),
              logu(.1, 10)),
    st.builds(lambda a, b: dict(t='ev', a=a, b=b), logu(.3, 20),
              logu(.1, 10)),
    st.builds(lambda a, b: dict(t='igamma', a=a, b=b), logu(.3, 20),
              logu(.1, 10)),
    st.builds(lambda b: dict(t='lap', b=b), logu(.1, 10)))
gauss = st.builds(lambda a, b: dict(t='gauss', a=a, b=b), lin(-5, 5),
                  logu(.1, 10))
which = st.tuples(st.sampled_from(list(range(8)) * 2 + [8, 9]), st.one_of(
    st.none(), st.none(), st.integers(0, 7),
    st.lists(st.integers(0, 3), min_size=2, max_size=2)))
op = st.one_of(
    st.tuples(st.just('prior'), which, pos),
    st.tuples(st.just('prior'), which, gauss),
    st.tuples(st.just('prior'), which, st.one_of(pos, gauss)),
    st.tuples(st.just('again'), which, st.just(0)),
    st.tuples(st.just('again'), which, st.just(0)),
    st.tuples(st.just('negprior'), which, logu(.1, 10)),
    st.tuples(st.just('unprior'), which, st.just(0)),
    st.tuples(st.just('con'), which, st.sampled_from(
        ['logexp', 'exp', 'neg', 'bound', 'square'])),
    st.tuples(st.just('con'), which, st.sampled_from(['logexp', 'exp'])),
    st.tuples(st.just('uncon'), which, st.just(0)),
    st.tuples(st.just('fix'), which, st.just(0)),
    st.tuples(st.just('unfix'), which, st.just(0)),
    st.tuples(st.just('set'), which, seeds),
    st.tuples(st.just('set'), which, seeds),
    st.tuples(st.just('arr'), which, seeds),
    st.tuples(st.just('check'), which, seeds),
    st.tuples(st.just('check'), which, seeds),
    st.tuples(st.just('opt'), which, seeds)).map(
        lambda t: [t[0], list(t[1]), t[2]])
shape = st.sampled_from([[1], [2], [3], [2, 2], [1, 3], [3, 1], [4],
                        [12], [3, 4]])
toy = st.builds(
    lambda top, nest, rs, ops: dict(top=top, nest=nest, rs=rs, ops=ops),
    st.lists(shape, min_size=1, max_size=3) | st.lists(
        shape, min_size=1, max_size=6),
    st.lists(shape, min_size=0, max_size=2), seeds,
    lists(op, min_size=1, max_size=14))
mop = st.tuples(st.sampled_from(['prior', 'prior', 'again', 'again',
                                 'prior', 'unprior', 'fix',
                                 'unfix', 'check']), which,
                st.one_of(pos, gauss)).map(
    lambda t: [t[0], list(t[1]), t[2]])
llgp = st.builds(
    lambda m, ops: dict(m=m, ops=ops),
    model_spec(maxD=3, maxQ=3, Ps=(1, 1, 2), total=14, hi=6, max_rank=2,
               mlo=4, mhi=6, modes=('exact',)),
    lists(mop, min_size=2, max_size=9))
PARTS = [Part('toy', toy, 600, 15000), Part('llgp', llgp, 80, 1200)]
