from hypothesis import strategies as st
from .common import Part, seeds, heavy_size, logu, lin

RULE = ('symmetric positive definite systems with prescribed spectra '
        '(condition 1 to 1e9, repeated eigenvalues), dense, Toeplitz and '
        'function-wrapped, sizes 1-1100, right-hand sides of every dtype and '
        'layout, both methods, tolerances 1e-12..1e-1; non-trivial: at '
        'least 2 unknowns')

solve = st.builds(
    lambda n, rs, cond, sp, sc, wrap, y, ys, lay, minres, verbose, tol: dict(
        n=n, rs=rs, cond=cond, sp=sp, sc=sc, wrap=wrap, y=y, ys=ys, lay=lay,
        minres=minres, verbose=verbose, tol=tol),
    heavy_size(1, 40, 120), seeds,
    st.sampled_from([1.0, 2.0, 5.0, 10.0, 10.0, 100.0, 1e4, 1e6, 1e9]),
    st.sampled_from(['unif', 'log', 'two', 'outlier']),
    logu(1e-2, 1e2), st.sampled_from(['dense', 'wrap', 'diagsum', 'toep']),
    st.sampled_from(['norm', 'norm', 'sign', 'zero', 'unit', 'eig', 'int']),
    logu(1e-3, 1e3), st.sampled_from(['c', 'ro', 'strided', 'rev']),
    st.booleans(), st.booleans(),
    st.sampled_from([1e-4, 1e-4, 1e-12, 1e-8, 1e-2, 0.1, None]))
big = st.builds(
    lambda n, rs, cond, sp, minres, tol, ys: dict(
        n=n, rs=rs, cond=cond, sp=sp, sc=1.0, wrap='dense', y='norm', ys=ys,
        lay='c', minres=minres, verbose=True, tol=tol),
    st.integers(110, 330), seeds,
    st.sampled_from([10.0, 100.0, 200.0, 300.0, 400.0, 1e3, 1e4, 1e5, 1e6]),
    st.sampled_from(['unif', 'log']), st.booleans(),
    st.sampled_from([1e-4, 1e-6, 1e-2, 1.0]),
    st.sampled_from([1.0, 1.0, 3.0, 10.0, 30.0, 1e-2]))
huge = st.builds(
    lambda n, rs, cond, sp, minres, tol, ys, cp: dict(
        n=n, rs=rs, cond=cond, sp=sp, sc=1.0, wrap=cp, y='norm', ys=ys,
        lay='c', minres=minres, verbose=True, tol=tol),
    st.integers(330, 1100), seeds,
    st.sampled_from([1e2, 1e3, 3e3, 1e4, 1e4]),
    st.sampled_from(['log', 'even', 'even']), st.booleans(),
    st.sampled_from([1e-4, 1e-4, 1e-6, 1e-2]),
    st.sampled_from([1.0, 10.0, 10.0, 1e-1]),
    st.sampled_from(['diag', 'diag', 'wrap']))
PARTS = [Part('solve', solve, 5000, 60000), Part('big', big, 500, 6000),
         Part('huge', huge, 60, 1500)]
