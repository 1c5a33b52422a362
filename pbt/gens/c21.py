from hypothesis import strategies as st
from .common import lists, Part, seeds, logu, lin, model_spec

RULE = ('gradients of generated objectives (quadratic, oscillating, scripted '
        'norms), option sets, reused optimizers, models with constrained and '
        'fixed parameters; non-trivial: two or more iterations')

opts = st.fixed_dictionaries({}, optional=dict(
    step_rate=logu(0.01, 3), decay=lin(0.0, 0.999), momentum=lin(0.0, 0.99),
    offset=logu(1e-8, 1),
    max_it=st.one_of(st.integers(1, 14), st.integers(1, 14),
                     st.integers(15, 110)),
    min_grad_ratio=st.one_of(
        lin(0.0, 1.2), st.sampled_from([0.5, 0.25, 1.0, 0.125])), permitted_drops=st.integers(0, 5),
    verbosity=st.sampled_from([0, 0, 1, 5, 20])))
scripted = st.builds(
    lambda n, o, rs, norms, kind, runs: dict(n=n, o=o, rs=rs, norms=norms,
                                             kind=kind, runs=runs),
    st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 160)),
    opts, seeds,
    lists(st.sampled_from([1.0, 0.09, 0.1, 0.5, 2.0, 0.01, 0.2, 10.0,
                              0.0, 0.05, 0.25, 0.125, 4.0, 1.0, 0.5]), min_size=1, max_size=25),
    st.sampled_from(['script', 'script', 'quad', 'osc']),
    st.integers(1, 3))
toy = st.builds(
    lambda top, rs, cons, fixed, o, runs, cb, start: dict(
        top=top, nest=[], rs=rs, cons=cons, fixed=fixed, o=o, runs=runs,
        cb=cb, start=start),
    st.lists(st.sampled_from([[1], [2], [2, 2], [3]]), min_size=1,
             max_size=3), seeds,
    st.lists(st.sampled_from([None, 'logexp', 'exp', 'neg', 'bound']),
             min_size=3, max_size=3),
    st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=3, max_size=3), opts,
    st.integers(1, 2),
    st.sampled_from(['none', 'count', 'array', 'lik', 'param']),
    st.sampled_from([False, False, True]))
llgp = st.builds(
    lambda m, it, fix, rate: dict(m=m, it=it, fix=fix, rate=rate),
    model_spec(maxD=3, maxQ=3, Ps=(1, 1, 2), total=14, hi=6, max_rank=2,
               mlo=4, mhi=6, modes=('exact',)),
    st.integers(1, 4), st.integers(0, 255), logu(0.05, 1))
PARTS = [Part('rule', scripted, 700, 20000), Part('toy', toy, 350, 6000),
         Part('llgp', llgp, 50, 800)]
