from hypothesis import strategies as st
from .common import lists, Part, seeds, layouts

RULE = ('zero and constant mean functions, 1-40 outputs, ragged inputs with '
        'empty outputs, integer, strided and read-only inputs, initial offsets or not, offsets changed afterwards; '
        'malformed inputs; non-trivial: at least two outputs')

ok = st.builds(lambda t, lens, rs, c0, how, lay: dict(
    t=t, lens=lens, rs=rs, c0=c0, how=how, lay=lay),
               st.sampled_from(['zero', 'const', 'const']),
               lists(st.one_of(st.integers(0, 7), st.integers(0, 7),
                               st.integers(0, 300)),
                     min_size=1, max_size=40), seeds,
               st.booleans(), st.sampled_from(['init', 'set', 'one']),
               st.lists(layouts, min_size=40, max_size=40))
bad = st.builds(lambda t, D, k, rs, i, d: dict(t=t, D=D, k=k, rs=rs, i=i,
                                               d=d),
                st.sampled_from(['zero', 'const']), st.integers(1, 5),
                st.sampled_from(['count', 'ndim0', 'ndim2', 'c0', 'c0nd']),
                seeds, st.integers(0, 4), st.integers(1, 3))
PARTS = [Part('ok', ok, 1600, 20000), Part('bad', bad, 400, 4000)]
