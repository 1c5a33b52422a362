from hypothesis import strategies as st
from .common import Part, seeds, logu
from .c05 import kspec, dists, par

RULE = ('kernels and distance arrays as in C05; every hyperparameter is '
        'perturbed; non-trivial: the kernel has a hyperparameter and some '
        'distance is positive')

grad = st.builds(lambda k, d, how: dict(k=k, d=d, how=how), kspec(), dists,
                 st.sampled_from(['init', 'set', 'param_array']))
store = st.builds(lambda ks, rs, how: dict(ks=ks, rs=rs, how=how),
                  st.lists(kspec(), min_size=1, max_size=4), seeds,
                  st.sampled_from(['alone', 'fk']))
PARTS = [Part('grad', grad, 2000, 30000), Part('store', store, 800, 8000)]
