from hypothesis import strategies as st
from .common import (Part, arr, seeds, heavy_size, layouts, flayouts, kern,
                     logu, lin, model_spec)
from .c01 import tree
from .c13 import with_test, cheap
from .c19 import pri

RULE = ('matrix trees, solves, interpolations, grids, kernels, priors, mean '
        'functions, utilities, kernel specifications and whole model '
        'histories, every argument in a generated memory layout and '
        'writeability; non-trivial: at least two arguments watched')

lays = st.lists(layouts, min_size=6, max_size=6)
flays = st.lists(flayouts, min_size=8, max_size=8)


@st.composite
def mat(draw):
    rows = draw(heavy_size(1, 12, 40))
    cols = draw(st.one_of(st.just(rows), st.just(rows), st.integers(1, 20)))
    return dict(m=draw(tree(rows, cols, draw(st.integers(0, 2)))),
                rs=draw(seeds), xl=draw(layouts), Xl=draw(layouts),
                k=draw(st.integers(1, 4)))


solve = st.builds(lambda n, rs, l, mr, v: dict(n=n, rs=rs, l=l, mr=mr, v=v),
                  heavy_size(1, 30, 130), seeds, flays, st.booleans(),
                  st.booleans())
interp = st.builds(
    lambda P, lens, m, rs, l, lo, hi, k: dict(P=P, lens=lens, m=m, rs=rs, l=l,
                                              lo=lo, hi=hi, k=k),
    st.integers(1, 2), st.lists(st.integers(0, 6), min_size=1, max_size=4),
    st.lists(st.integers(4, 12), min_size=2, max_size=2), seeds, flays,
    st.booleans(), st.booleans(),
    st.sampled_from(['list', 'arr', 'farr', 'none']))
func = st.builds(lambda k, p, n, rs, l, shape: dict(
    k=k, p=p, n=n, rs=rs, l=l, shape=shape),
    kern(('rbf', 'mat', 'per', 'id'), True), pri, st.integers(1, 12), seeds,
    lays, st.sampled_from(['1', '2', 'sq']))
util = st.builds(lambda lens, rs, l, k: dict(lens=lens, rs=rs, l=l, k=k),
                 st.lists(st.integers(0, 6), min_size=1, max_size=6), seeds,
                 lays, st.integers(1, 5))

OPS = ['predict', 'quant', 'predict', 'quant', 'opt', 'lik', 'noise', 'vecs',
       'diags', 'K', 'grad', 'prior', 'norm', 'optarr']


@st.composite
def model(draw):
    c = draw(with_test(model_spec(
        maxD=4, maxQ=4, Ps=(1, 1, 2), total=26, ident=True, max_rank=3,
        mhi=9, modes=('precompute', 'on-the-fly', 'exact'))).map(cheap(30)))
    return dict(c, l=draw(flays),
                ops=[draw(st.sampled_from(OPS)) for _ in range(
                    draw(st.integers(1, 5)))],
                q=draw(st.lists(lin(1, 99), min_size=1, max_size=4)),
                qk=draw(st.sampled_from(['arr', 'list', 'tuple', 'ro'])),
                mk=draw(st.sampled_from(['arr', 'list', 'ro'])),
                rs=draw(seeds), it=draw(st.integers(1, 3)))


@st.composite
def gpy(draw):
    D = draw(st.integers(1, 3))
    return dict(lens=[draw(st.integers(3, 7)) for _ in range(D)],
                ks=[draw(kern(ghi=10)) for _ in range(
                    draw(st.integers(1, 2)))],
                t=[draw(st.integers(1, 4)) for _ in range(D)],
                rs=draw(seeds), l=draw(flays), rank=draw(st.integers(1, 2)))


PARTS = [Part('mat', mat(), 900, 12000), Part('solve', solve, 400, 5000),
         Part('interp', interp, 500, 6000), Part('func', func, 700, 9000),
         Part('util', util, 500, 5000), Part('model', model(), 360, 5000),
         Part('gpy', gpy(), 24, 300)]
