from hypothesis import strategies as st
from .common import Part, seeds, heavy_size, lin, logu, model_spec

RULE = ('input sets of 1-14 outputs in 1-3 dimensions with optional bounds '
        'and sizes in every combination (lists, arrays, integers), and grids '
        'of generated models; non-trivial: a bound or size is given, or two '
        'or more outputs')


@st.composite
def direct(draw):
    P = draw(st.sampled_from([1, 1, 2, 3]))
    D = draw(st.one_of(st.integers(1, 6), st.integers(1, 14)))
    size = draw(st.sampled_from([heavy_size(1, 8, 60)] * 4 + [
        heavy_size(1, 80, 700), st.integers(300, 1500)]))
    c = dict(P=P, lens=[draw(size) for _ in range(D)],
             rs=draw(seeds), off=draw(st.sampled_from([0.0, -5.0, 100.0])),
             span=draw(logu(1e-2, 1e3)), sc=draw(st.sampled_from(
                 [1.0] * 6 + [1e-9, 1e-6, 1e6, 1e9])),
             k=draw(st.sampled_from(['unif', 'int', 'dup', 'clust'])))
    if sum(c['lens']) == 1:
        c['lens'].append(2)
    for b, o in (('lo', 0.0), ('hi', 1.0)):
        if draw(st.booleans()):
            c[b] = [draw(lin(-1.0, 2.0)) for _ in range(P)]
            c[b + 'k'] = draw(st.sampled_from(['arr', 'list', 'int', 'ro']))
    if draw(st.booleans()):
        c['m'] = [draw(heavy_size(1, 20, draw(st.sampled_from([200, 200, 2500])))) for _ in range(P)]
        c['mk'] = draw(st.sampled_from(['arr', 'list', 'float', 'ro']))
    return c


model = st.builds(lambda m: dict(m=m), model_spec(
    maxD=3, maxQ=3, Ps=(1, 1, 2), mlo=1, mhi=20, types=('rbf',),
    scaled=False, max_rank=1))

PARTS = [Part('direct', direct(), 2500, 40000), Part('model', model, 240,
                                                      3000)]
