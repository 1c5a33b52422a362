from hypothesis import strategies as st
from .common import Part, seeds, kern, logu, model_spec

RULE = ('specifications of every kind over 1-24 outputs and 1-4 input '
        'dimensions with histories of assignments, and models optimized with '
        'some parameters fixed; non-trivial: two or more kernels and outputs')


@st.composite
def spec(draw):
    D = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 9, 11, 17, 24]))
    P = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    hi = draw(st.sampled_from([3, 3, 3, 8]))
    n = [draw(st.integers(0, hi)), draw(st.integers(0, hi)),
         draw(st.integers(0, hi + 1))]
    if not sum(n):
        n[draw(st.integers(0, 2))] = 1

    def k():
        ad = None
        if draw(st.booleans()):
            p = draw(st.permutations(list(range(P))))
            ad = list(p)[:draw(st.integers(1, P))]
        return dict(draw(kern(('rbf', 'mat', 'per', 'id'), True)), ad=ad,
                    tup=draw(st.booleans()))
    ks = [[k() for _ in range(c)] for c in n]
    # several kernels with the same dimensions are the common case
    if draw(st.booleans()):
        for g in ks:
            for x in g[1:]:
                x['ad'] = g[0]['ad']
    return dict(D=D, P=P, ks=ks,
                ranks=[draw(st.sampled_from([1, 1, 2, 3, 4, 5, 8, 12]))
                       for _ in range(n[0])],
                idx=draw(st.one_of(st.none(), st.just(0))) if n[2] <= D
                and draw(st.booleans()) else
                [draw(st.integers(0, D - 1)) for _ in range(n[2])],
                none=draw(st.booleans()))


@st.composite
def struct(draw):
    s = draw(spec())
    if s['idx'] == 0:
        s['idx'] = None
    if not s['ks'][2]:
        s['idx'] = None
    ops = []
    for _ in range(draw(st.integers(0, 7))):
        ops.append([draw(st.sampled_from(
            ['vecs', 'vecs', 'diags', 'noise', 'noise1', 'dim', 'dimbad',
             'some', 'kern', 'iszero'])), draw(seeds)])
    return dict(s, ops=ops, rs=draw(seeds))


fit = st.builds(lambda m, fix, it, rate: dict(m=m, fix=fix, it=it, rate=rate),
                model_spec(maxD=4, maxQ=5, Ps=(1, 1, 1, 2), total=24,
                           max_rank=3, mhi=9, modes=('exact',)),
                st.integers(0, 255), st.integers(1, 4), logu(0.3, 2))
PARTS = [Part('struct', struct(), 1100, 16000), Part('fit', fit, 200, 3000)]
