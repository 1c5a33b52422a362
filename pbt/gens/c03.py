from hypothesis import strategies as st
from .common import lists, Part, seeds, heavy_size, flayouts, logu, lin

RULE = ('equispaced grids of any size, origin and spacing; samples given in '
        'grid units (exact grid points, mid-cells, edge cells, outside, far '
        'outside); ragged multi-output sets with empty outputs; malformed '
        'grids; non-trivial: a sample strictly between two grid points')

# spacings from atoms to galaxies: the origin is then given in cells
usual = st.builds(lambda m, h, o: dict(m=m, h=h, o=o),
                  heavy_size(4, 14, 70), logu(1e-3, 1e3),
                  st.sampled_from([0.0, 0.0, -1.0, 3.7, -250.0, 1e3]))
extreme = st.builds(lambda m, h, o: dict(m=m, h=h, o=o * h),
                    heavy_size(4, 14, 70),
                    st.one_of(logu(1e-14, 1e-5), logu(1e5, 1e14)),
                    st.sampled_from([0.0, 0.0, -1.0, 3.7, -250.0, 1e3]))
wide = st.builds(lambda m, h, o: dict(m=m, h=h, o=o),
                 heavy_size(70, 300, 2200), logu(1e-2, 1e2),
                 st.sampled_from([0.0, 0.0, -1.0, 3.7]))
axis = st.one_of(usual, usual, usual, extreme)
# sample position in units of grid cells, relative to the grid (0..m-1)
pos = st.one_of(
    st.builds(lambda k, w: dict(a=w, d=k), st.integers(-3, 6),
              st.sampled_from(['lo', 'hi'])),
    st.builds(lambda f, w: dict(a=w, d=f), lin(-4, 6, 500),
              st.sampled_from(['lo', 'hi'])),
    st.builds(lambda u: dict(a='u', d=u), lin(0, 1, 1000)),
    st.builds(lambda u: dict(a='g', d=u), lin(0, 1, 97)),
    st.builds(lambda u, e, s: dict(a='near', d=u, e=s * e), lin(0, 1, 997),
              logu(1e-12, 1e-2), st.sampled_from([-1, 1])),
    st.builds(lambda k, s: dict(a='far', d=k * s), logu(3, 1e4),
              st.sampled_from([-1, 1])))

cubic = st.builds(lambda g, s, rs, n, l: dict(g=g, s=s, rs=rs, n=n, lay=l),
                  st.one_of(axis, axis, axis, wide),
                  st.lists(pos, max_size=6), seeds,
                  st.one_of(st.just(0), heavy_size(0, 12, 90),
                            heavy_size(0, 12, 90), heavy_size(0, 90, 1100)),
                  flayouts)
bicubic = st.builds(
    lambda g, s, rs, n, l: dict(g=g, s=s, rs=rs, n=n, lay=l),
    st.tuples(axis, axis, st.integers(0, 7)).map(lambda t: [
        dict(a, m=min(a['m'], 14)) for a in t[:2]] if t[2] else [
            dict(t[0], m=min(t[0]['m'], 60)), dict(t[1], m=min(t[1]['m'], 30))]),
    st.lists(st.tuples(pos, pos).map(list), max_size=6), seeds,
    st.one_of(st.integers(0, 12), st.integers(0, 12),
              heavy_size(0, 12, 140), heavy_size(0, 12, 520)), flayouts)
multi = st.builds(
    lambda P, g, lens, rs, d1, sh: dict(P=P, sh=sh, g=[dict(a, m=min(a['m'], 12 if P == 2
                                                         else 40))
                                            for a in g][:P],
                                    lens=lens, rs=rs, d1=d1),
    st.sampled_from([1, 1, 2]), st.lists(axis, min_size=2, max_size=2),
    lists(st.one_of(st.just(0), st.integers(0, 7), st.integers(0, 7),
                       heavy_size(0, 9, 70), heavy_size(0, 9, 300)),
             min_size=1,
             max_size=12), seeds, st.booleans(),
    st.sampled_from(['', '', 'ends', 'same', 'sorted']))
# very many columns
vast = st.builds(
    lambda P, a, b, lens, rs, d1: dict(
        P=P, g=[dict(a, m=a['m'] * 40)] if P == 1 else
        [dict(a, m=a['m'] + 30), dict(b, m=b['m'] + 30)],
        lens=lens, rs=rs, d1=d1, sh=''),
    st.sampled_from([1, 2]),
    st.builds(lambda m, h, o: dict(m=m, h=h, o=o), st.integers(20, 120),
              logu(1e-2, 1e2), st.sampled_from([0.0, -1.0, 3.7])),
    st.builds(lambda m, h, o: dict(m=m, h=h, o=o), st.integers(20, 60),
              logu(1e-2, 1e2), st.sampled_from([0.0, -1.0, 3.7])),
    lists(st.integers(0, 6), min_size=2, max_size=18).filter(any),
    seeds, st.booleans())
kernel = st.builds(lambda v, nd: dict(v=v, nd=nd), st.lists(
    st.one_of(lin(-2, 2, 1000), st.integers(-2, 2).map(float),
              st.sampled_from([2.5, -3.0, 2.0001])), min_size=1, max_size=8),
    st.booleans())
bad = st.builds(lambda t, g, n, rs, f: dict(t=t, g=g, n=n, rs=rs, f=f),
                st.sampled_from(['grid2d', 'samples2d', 'short', 'noneq',
                                 'noneqgeo', 'bgridx2d', 'bgridy2d',
                                 'bshortx', 'bshorty', 'bs1d', 'bs3c',
                                 'bnoneqx', 'bnoneqy']),
                axis, st.integers(1, 5), seeds, lin(0.05, 0.45))

PARTS = [Part('cubic', cubic, 1200, 16000),
         Part('bicubic', bicubic, 700, 8000),
         Part('multi', multi, 1000, 12000), Part('vast', vast, 60, 800),
         Part('kernel', kernel, 300, 3000),
         Part('bad', bad, 240, 2000)]
