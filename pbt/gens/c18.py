from hypothesis import strategies as st
from .common import Part, seeds, logu, lin

RULE = ('well-formed data sets and kernel specifications, and the same with '
        'one or two faults at a generated place; non-trivial: a fault, or a '
        'well-formed case with two or more outputs (kernels)')

FAULTS = ['empty', 'extra_x', 'extra_y', 'drop_x', 'drop_y', 'short_y',
          'long_y', 'short_x', 'x3d', 'y2d', 'y2d_row', 'dims', 'dims1d',
          'const', 'const', 'nokern', 'mode']
data = st.builds(
    lambda cls, lens, P, forms, rs, faults, k, mode, cv, norm, yk: dict(
        cls=cls, lens=lens, P=P, forms=forms, rs=rs, faults=faults, k=k,
        mode=mode, cv=cv, norm=norm, yk=yk),
    st.sampled_from(['base', 'base', 'llgp', 'llgp', 'gpy']),
    st.lists(st.integers(2, 7), min_size=1, max_size=6),
    st.sampled_from([1, 1, 1, 2, 3]),
    st.lists(st.sampled_from(['2d', '1d', 'int', 'f', 'ro']), min_size=6,
             max_size=6), seeds,
    st.one_of(st.just([]), st.lists(st.sampled_from(FAULTS), min_size=2, max_size=2)),
    st.integers(0, 5),
    st.sampled_from(['', 'Exact', 'exact ', 'on_the_fly', 'matrix', 'sample',
                     'precomputed', 'on-the-fly2', 'exac', 'none',
                     'PRECOMPUTE']),
    st.one_of(st.sampled_from([0.0, 1.0, -3.0, 0.1, 0.3, 1e6, 1e-3]),
              lin(-10, 10)), st.booleans(),
    st.sampled_from(['norm', 'int', 'nearconst', 'offset', 'tiny']))

pred = st.builds(
    lambda lens, P, rs, k, fault, t: dict(lens=lens, P=P, rs=rs, k=k,
                                          fault=fault, t=t),
    st.lists(st.integers(2, 5), min_size=1, max_size=4),
    st.sampled_from([1, 1, 2, 2, 3]), seeds, st.integers(0, 5),
    st.sampled_from(['none', 'more', 'more', 'fewer', 'vector', 'allmore']),
    st.lists(st.integers(1, 3), min_size=4, max_size=4))

KF = ['D0', 'Dnone', 'nokern', 'nokern_none', 'rank_missing', 'rank_extra',
      'rank0', 'rankneg', 'idx_extra', 'idx_missing', 'ranks_alone']
kern = st.builds(
    lambda D, nl, ns, ni, ranks, idx, fault, k, rs, use_none: dict(
        D=D, nl=nl, ns=ns, ni=ni, ranks=ranks[:nl], idx=idx, fault=fault,
        k=k, rs=rs, none=use_none),
    st.integers(1, 6), st.integers(0, 3), st.integers(0, 3),
    st.integers(0, 4), st.lists(st.integers(1, 6), min_size=3, max_size=3),
    st.sampled_from(['default', 'list', 'repeat']),
    st.none(), st.integers(0, 5), seeds,
    st.booleans())
PARTS = [Part('data', data, 200, 4000), Part('pred', pred, 90, 1500),
         Part('kern', kern, 300, 6000)]
