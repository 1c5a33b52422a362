from hypothesis import strategies as st
from .common import lists, Part, seeds, heavy_size, lin

RULE = ('arrays of 0-4 dimensions in every memory order, segment lengths '
        '(zeros, too few, too many), chunk sizes, axis lists, descending '
        'arrays with ties, generated class hierarchies; non-trivial: at '
        'least two elements / classes')

tess = st.builds(lambda lens, tail, rs, d, it: dict(
    lens=lens, tail=tail, rs=rs, d=d, it=it),
    st.lists(st.one_of(st.integers(0, 6), st.integers(0, 120)),
             max_size=20) | lists(st.integers(0, 4), max_size=300),
    st.lists(st.integers(1, 3),
                                                      max_size=2), seeds,
    st.sampled_from([0, 0, 0, 1, -1, 3]),
    st.sampled_from(['list', 'iter', 'arr', 'tuple', 'uint8', 'int8']))
idx = st.builds(lambda lens, arr, dt: dict(lens=lens, arr=arr, dt=dt),
                st.lists(st.one_of(st.integers(0, 120), st.integers(0, 9)),
                         min_size=1, max_size=30) | lists(
                             st.integers(0, 4), min_size=1, max_size=300),
                st.booleans(), st.sampled_from(
                    ['int64', 'int64', 'uint8', 'int8', 'int16', 'uint32',
                     'uint64']))
chunk = st.builds(lambda n, k, t: dict(n=n, k=k, t=t), 
                  st.one_of(st.integers(0, 40), st.integers(0, 900)),
                  st.one_of(st.integers(1, 45), st.integers(1, 300)), st.sampled_from(['list', 'arr', 'str']))
cart = st.builds(lambda lens, rs, ints: dict(lens=lens, rs=rs, ints=ints),
                 st.one_of(
                     st.lists(st.integers(1, 7), min_size=1, max_size=4),
                     st.lists(st.integers(1, 3), min_size=5, max_size=6),
                     st.lists(st.integers(1, 60), min_size=1, max_size=2)),
                 seeds, st.lists(st.booleans(), min_size=6, max_size=6))
mape = st.builds(lambda shape, rs, lay, f, dt: dict(shape=shape, rs=rs,
                                                    lay=lay, f=f, dt=dt),
                 st.lists(st.integers(0, 5), max_size=4) | st.lists(
                     st.integers(0, 5), max_size=4) | heavy_size(
                         0, 50, 1100).map(lambda n: [n]) | st.lists(
                             st.integers(1, 2), min_size=5, max_size=7),
                 seeds,
                 st.sampled_from(['c', 'f', 'strided', 'rev', 'ro', 't',
                                  'perm']),
                 st.sampled_from(['neg', 'sq', 'idx', 'const']),
                 st.sampled_from(['float', 'int', 'bool', 'complex']))
symm = st.builds(lambda D, rs, args, dt: dict(D=D, rs=rs, args=args, dt=dt),
                 heavy_size(1, 16, 40), seeds,
                 st.integers(0, 2),
                 st.sampled_from([None, 'float', 'object']))
search = st.builds(lambda v, desc, x, rel, inc, t, dt: dict(
    v=v, desc=desc, x=x, rel=rel, inc=inc, t=t, dt=dt),
    st.one_of(*[lists(st.one_of(st.integers(-5, 5), lin(-5, 5)),
                      max_size=k) for k in (14, 14, 14, 260)]),
    st.sampled_from([True, True, True, False, 'swap']), lin(-6, 6),
    st.one_of(st.none(), st.just(-1), st.integers(0, 260)), st.booleans(),
    st.sampled_from(['list', 'arr', 'tuple', 'ro']),
    st.sampled_from([None, None, None, 'uint8', 'int8', 'int64', 'bool',
                     'float32']))

NAMES = ['f', 'g', 'h', 'p', 'q']
cls = st.dictionaries(st.sampled_from(NAMES),
                      st.sampled_from(['doc', 'nodoc', 'nodoc', 'empty']),
                      max_size=5)
docs = st.builds(lambda cs, base, deco: dict(cs=cs, base=base, deco=deco),
                 st.lists(cls, min_size=1, max_size=5),
                 st.lists(st.lists(st.integers(0, 5), max_size=3),
                          min_size=5, max_size=5),
                 st.lists(st.booleans(), min_size=5, max_size=5))
PARTS = [Part('tess', tess, 900, 10000), Part('idx', idx, 300, 3000),
         Part('chunk', chunk, 300, 3000), Part('cart', cart, 400, 4000),
         Part('mape', mape, 900, 10000), Part('symm', symm, 300, 3000),
         Part('search', search, 900, 10000), Part('docs', docs, 700, 10000)]
