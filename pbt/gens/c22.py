from hypothesis import strategies as st
from .common import Part, seeds, model_spec, fk_spec, logu, heavy_size

RULE = ('parallel maps over generated task lists, with real pools and with '
        'a stand-in whose tasks end in a generated order; models of 20 to 340 '
        'observations (300 is where processes start) with 1, 2, 3 or the '
        'default number of processes; models with and without metrics over '
        'histories of changes and optimizations, and with and without debug '
        'output; non-trivial: two or more '
        'tasks, two or more processes, an optimization with metrics')

tasks = st.builds(
    lambda n, rs, procs, slow: dict(n=n, rs=rs, procs=procs, slow=slow),
    heavy_size(0, 20, 320), seeds, st.sampled_from([0, 0, 1, 2, 3, 4]),
    st.booleans())


@st.composite
def big(draw):
    fk = draw(fk_spec(maxD=3, maxQ=2, P=1, types=('rbf', 'mat'),
                      max_rank=2, scaled=False))
    D = fk['D']
    n = draw(st.sampled_from([300, 301, 310, 340, 299, 320]))
    lens = [n // D] * D
    lens[-1] += n - sum(lens)
    if D > 1:
        k = draw(st.integers(0, lens[0] - 2))
        lens[0] -= k
        lens[1] += k
    fk['noise'] = [draw(logu(0.3, 1.0)) for _ in range(D)]
    data = dict(lens=lens, xrs=draw(seeds), yrs=draw(seeds), span=1.0,
                off=draw(st.sampled_from([0.0, -3.0])), xk='unif',
                yk='smooth', x1d=draw(st.booleans()))
    mode = draw(st.sampled_from(['on-the-fly', 'on-the-fly', 'precompute',
                                 'exact']))
    m = dict(fk=fk, data=data, grid=dict(m=draw(st.integers(4, 6))),
             norm=True, mode=mode, probes=draw(st.integers(1, 4)))
    return dict(m=m, procs=draw(st.sampled_from([2, 2, 3, 4, None])),
                seed=draw(seeds), t=[draw(st.integers(0, 3))
                                     for _ in range(D)])


met = st.builds(
    lambda m, steps, seed: dict(m=m, steps=steps, seed=seed),
    model_spec(maxD=3, maxQ=3, Ps=(1, 1, 2), total=14, hi=6, max_rank=2,
               mlo=4, mhi=6, modes=('exact', 'on-the-fly'), ident=True).map(
        lambda m: dict(m, probes=2)),
    st.lists(st.one_of(
        st.tuples(st.just('opt'), st.integers(1, 3)),
        st.tuples(st.just('noise'), seeds),
        st.tuples(st.just('kern'), logu(.5, 2)),
        st.tuples(st.just('predict'), seeds)).map(list), min_size=1,
        max_size=5), seeds)
log = st.builds(lambda c, metrics: dict(c, metrics=metrics), met,
                st.booleans())
svc = st.builds(
    lambda n, rs, it, runs, tol: dict(n=n, rs=rs, it=it, runs=runs, tol=tol),
    heavy_size(2, 20, 40), seeds, heavy_size(1, 6, 70), st.integers(1, 3),
    st.sampled_from([1e-4, 1e-2, 1e-8]))
sched = st.builds(
    lambda n, rs, procs, lazy, it, K: dict(n=n, rs=rs, procs=procs, lazy=lazy,
                                           it=it, K=K),
    heavy_size(0, 40, 320), seeds, st.integers(1, 9), st.booleans(),
    st.integers(1, 12), heavy_size(2, 8, 20))
PARTS = [Part('sched', sched, 200, 4000), Part('tasks', tasks, 80, 800),
         Part('procs', big(), 36, 360),
         Part('metrics', met, 90, 1500), Part('logging', log, 40, 800),
         Part('service', svc, 150, 3000)]
