from hypothesis import strategies as st
from .common import Part, model_spec, test_spec, large_spec, magnify

RULE = ('generated models in every prediction mode, test points inside the '
        'grid, outside of it, at training points and grid points, outputs without test '
        'points; non-trivial: at least one test point')


def with_test(ms, hi=4):
    return ms.flatmap(lambda m: test_spec(m['fk']['D'], hi).map(
        lambda t: dict(m=m, t=t)))


def ok(c):
    """precompute needs one group of active dimensions"""
    m = c['m']
    fk = m['fk']
    ads = set()
    for k in fk['lmc'] + fk['slfm'] + fk['indep']:
        ad = k.get('ad')
        ads.add(tuple(range(fk['P'])) if ad is None else tuple(sorted(ad)))
    if m['mode'] == 'precompute' and len(ads) > 1:
        c = dict(c, m=dict(m, mode='on-the-fly'))
    return c


def cheap(cap, keep=8):
    """precompute mode costs one solve per grid point: keep it to small
    grids, except for one case in `keep`"""
    def f(c):
        c = ok(c)
        m = c['m']
        g = m['grid'].get('m')
        if g is None:
            n = max(m['data']['lens']) ** m['fk']['P']
        else:
            n = 1
            for k in (g if isinstance(g, list) else [g]):
                n *= k
        n *= m['fk']['D']
        if (m['mode'] == 'precompute' and n > cap and
                m['fk']['crs'] % keep):
            c = dict(c, m=dict(m, mode=('on-the-fly' if m['fk']['crs'] % 2
                                        else 'exact')))
        return c
    return f


def few(c, solves, cap):
    """limit the number of test points; on the fly each costs a solve"""
    lens = c['t']['lens']
    cap = solves if c['m']['mode'] == 'on-the-fly' else cap
    while sum(lens) > cap:
        i = lens.index(min(x for x in lens if x))
        lens[i] = max(0, lens[i] - (sum(lens) - cap))
    return c


def inside(c):
    """the approximation error is bounded within the grid only"""
    if c['t']['k'] in ('mixed', 'out', 'far'):
        c['t']['k'] = 'in'
    return c


MODES = ('precompute', 'on-the-fly', 'exact', 'precompute', 'on-the-fly')
pred = with_test(magnify(model_spec(
    maxD=4, maxQ=4, Ps=(1, 1, 1, 2, 3), total=40, ident=True, max_rank=3,
    mhi=14, modes=MODES))).map(cheap(40))
fine = with_test(model_spec(maxD=3, maxQ=3, Ps=(1,), total=20, mlo=40,
                            mhi=90, max_rank=2, modes=MODES)).map(
    cheap(80)).map(inside)


# many test points per request, many outputs
many = with_test(model_spec(maxD=9, maxQ=4, Ps=(1, 1, 1, 2), total=36,
                            hi=8, max_rank=2, mhi=8, modes=MODES),
                 110).map(cheap(40, 30)).map(lambda c: few(c, 40, 150))


def force(c):
    ks = c['m']['fk']['lmc'] + c['m']['fk']['slfm'] + c['m']['fk']['indep']
    if len(ks) > 1:
        ks[0]['ad'], ks[-1]['ad'] = [0], [1]
    return c


split = with_test(model_spec(maxD=3, maxQ=4, Ps=(2, 3), total=16,
                             modes=('precompute',)), 2).map(force)
large = with_test(large_spec(modes=MODES), 3).map(cheap(60, 97))
PARTS = [Part('large', large, 24, 500),
         Part('pred', pred, 340, 8000), Part('fine', fine, 130, 1500),
         Part('split', split, 90, 900), Part('many', many, 40, 900)]
