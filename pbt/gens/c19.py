from hypothesis import strategies as st
from .common import Part, seeds, heavy_size, logu, lin

RULE = ('all four priors, parameters 1e-4..1e4 (integers included), scalar '
        'and array points of the domain; non-trivial: at least two points')

pos = st.one_of(logu(1e-2, 1e2), logu(1e-4, 1e4), st.integers(1, 9))
pri = st.one_of(
    st.builds(lambda a, b: dict(t='gauss', a=a, b=b),
              st.one_of(lin(-50, 50), st.integers(-5, 5)), pos),
    st.builds(lambda a, b: dict(t='gamma', a=a, b=b), pos, pos),
    st.builds(lambda a, b: dict(t='ev', a=a, b=b), pos, pos),
    st.builds(lambda a, b: dict(t='igamma', a=a, b=b), pos, pos),
    st.builds(lambda b: dict(t='hl', b=b), pos))

ev = st.builds(lambda p, shape, rs, s, kind: dict(p=p, shape=shape, rs=rs,
                                                  s=s, kind=kind), pri,
               st.one_of(st.just([]), heavy_size(1, 10, 400).map(
                   lambda n: [n]), st.lists(st.integers(1, 4), min_size=2,
                                            max_size=2)),
               seeds, st.one_of(logu(1e-2, 1e2), logu(1e-8, 1e8)),
               st.sampled_from(['float', 'int', 'float', 'ro', 'strided']))
bad = st.builds(lambda mu, var: dict(mu=mu, var=var), lin(-5, 5),
                st.one_of(st.sampled_from([0, 0.0, -0.0, -1]),
                          logu(1e-9, 1e3).map(lambda v: -v)))
PARTS = [Part('eval', ev, 2400, 40000), Part('bad', bad, 120, 600)]
