from hypothesis import strategies as st
from .common import Part, seeds, model_spec, test_spec, lin
from .c13 import with_test, cheap, few, MODES

RULE = ('generated models in every mode; requests with empty outputs, '
        'split, permuted and repeated; models with relabelled outputs, '
        'reordered observations and shifted inputs; non-trivial: two or '
        'more outputs or test points')


def ms(**kw):
    d = dict(maxD=4, maxQ=3, Ps=(1, 1, 1, 2), total=30, max_rank=2, mhi=10,
             modes=MODES)
    d.update(kw)
    return model_spec(**d)


shape = with_test(ms(), 4).map(cheap(30, 20)).flatmap(lambda c: st.builds(
    lambda rs, drop: dict(c, rs=rs, drop=drop), seeds,
    st.sampled_from(['none', 'none', 'all', 'one', 'butone'])))
many = with_test(ms(maxD=7, mhi=7), 110).map(cheap(24, 40)).map(
    lambda c: few(c, 40, 150)).flatmap(
    lambda c: st.builds(lambda rs: dict(c, rs=rs, drop='none'), seeds))
relabel = with_test(ms(minD=2), 3).map(cheap(30, 20)).flatmap(lambda c: st.builds(
    lambda p: dict(c, perm=p), st.permutations(list(range(
        c['m']['fk']['D']))).map(list)))
reorder = with_test(ms(), 3).map(cheap(30, 20)).flatmap(lambda c: st.builds(
    lambda rs: dict(c, rs=rs), seeds))
shift = with_test(ms(), 3).map(cheap(30, 20)).flatmap(lambda c: st.builds(
    lambda d: dict(c, d=d), st.lists(lin(-5, 5), min_size=3, max_size=3)))
PARTS = [Part('many', many, 30, 600),
         Part('shape', shape, 170, 4000), Part('relabel', relabel, 110, 2400),
         Part('reorder', reorder, 110, 2000), Part('shift', shift, 110,
                                                   2000)]
