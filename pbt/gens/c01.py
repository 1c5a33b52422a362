from hypothesis import strategies as st
from .common import Part, arr, seeds, heavy_size, layouts, flayouts

RULE = ('recursive expression trees over all matrix types with generated '
        'sizes, values and memory layouts; non-trivial: at least two nodes '
        'or at least 4 rows')


def factorings(n, k):
    if k == 1:
        return [[n]]
    out = []
    for a in range(1, n + 1):
        if n % a == 0:
            out += [[a] + r for r in factorings(n // a, k - 1)]
    return out


@st.composite
def split(draw, n, k):
    """n into k positive parts"""
    cuts = sorted(draw(st.lists(st.integers(1, n - 1), min_size=k - 1,
                                max_size=k - 1, unique=True)))
    cuts = [0] + cuts + [n]
    return [b - a for a, b in zip(cuts, cuts[1:])]


@st.composite
def again(draw, ks, keep=False):
    """some entries occur several times"""
    if draw(st.integers(0, 3)):
        return ks
    n = len(ks) if keep else len(ks) + draw(st.integers(0, 2))
    return [ks[draw(st.integers(0, len(ks) - 1))] for _ in range(n)]


def leaf_opts(rows, cols):
    o = ['np', 'np']
    if rows == cols:
        o += ['diag', 'id', 'toep', 'toep', 'bttb', 'bttb']
    return o


@st.composite
def leaf(draw, rows, cols, opts=None):
    t = draw(st.sampled_from(opts or leaf_opts(rows, cols)))
    if t == 'np':
        return dict(t='np', a=draw(arr([rows, cols])),
                    lay=draw(layouts))
    if t == 'id':
        return dict(t='id', n=rows)
    if t == 'bttb':
        k = draw(st.integers(1, 3))
        return dict(t='bttb', v=draw(arr(rows)), lay=draw(layouts),
                    sizes=draw(st.sampled_from(factorings(rows, k))),
                    sl=draw(st.booleans()))
    return dict(t=t, v=draw(arr(rows)), lay=draw(layouts))


@st.composite
def tree(draw, rows, cols, depth):
    opts = ['leaf']
    if depth > 0:
        opts += ['sum', 'comp', 'wrap']
        if rows > 1 and cols > 1:
            opts += ['bd']
        opts += ['kron'] * 2
        if rows == cols:
            opts += ['ski', 'sb', 'sb']
    t = draw(st.sampled_from(opts))
    if t == 'leaf':
        return draw(leaf(rows, cols))
    if t == 'sum':
        return dict(t='sum', ks=draw(again([
            draw(tree(rows, cols, depth - 1)) for _ in
            range(draw(st.integers(1, 3)))])))
    if t == 'comp':
        k = draw(st.integers(1, 3))
        dims = [rows] + [draw(st.integers(1, 12)) for _ in range(k - 1)] + [
            cols]
        return dict(t='comp', ms=[draw(tree(a, b, depth - 1))
                                  for a, b in zip(dims, dims[1:])])
    if t == 'wrap':
        return dict(t='wrap', k=draw(tree(rows, cols, depth - 1)))
    if t == 'bd':
        k = draw(st.integers(1, min(3, rows, cols)))
        rs, cs = draw(split(rows, k)), draw(split(cols, k))
        bs = [draw(tree(a, b, depth - 1)) for a, b in zip(rs, cs)]
        if len(set(zip(rs, cs))) == 1:
            bs = draw(again(bs, True))
        return dict(t='bd', bs=bs)
    if t == 'kron':
        fr = draw(st.sampled_from(factorings(rows, 2)))
        fc = draw(st.sampled_from(factorings(cols, 2)))
        return dict(t='kron', A=draw(tree(fr[0], fc[0], depth - 1)),
                    B=draw(tree(fr[1], fc[1], depth - 1)))
    if t == 'sb':
        D, m = draw(st.sampled_from(factorings(rows, 2)))
        opts = ['toep', 'diag', 'id', 'bttb']
        if D > 6:
            D, m = m, D
        if D > 6:
            return draw(leaf(rows, cols))
        return dict(t='sb', D=D, bs=draw(again([
            draw(leaf(m, m, opts)) for _ in range(D * (D + 1) // 2)], True)),
                    aslist=draw(st.booleans()))
    g = draw(st.integers(1, 16))
    return dict(t='ski', n=rows, g=g, rs=draw(seeds),
                K=draw(tree(g, g, depth - 1)))


@st.composite
def case(draw):
    rows = draw(heavy_size(1, 16, 48))
    cols = draw(st.one_of(st.just(rows), st.just(rows),
                          st.integers(1, 30)))
    return dict(m=draw(tree(rows, cols, draw(st.integers(0, 3)))),
                x=draw(arr(cols, ('norm', 'int', 'sparse', 'ones', 'unit',
                                  'zsum', 'ends'))),
                share=draw(st.booleans()), sym=draw(st.sampled_from(
                    [None] * 6 + ['sym', 'eye', 'zero', 'same', 'triu'])),
                xl=draw(layouts), k=draw(st.integers(1, 4)),
                xr=draw(seeds), Xl=draw(layouts))


@st.composite
def large(draw):
    """every type at sizes of some hundreds"""
    n = draw(heavy_size(30, 150, 400))
    t = draw(st.sampled_from(['np', 'diag', 'id', 'sum', 'comp', 'wrap',
                              'bd', 'kron', 'sb', 'ski', 'npr']))
    kinds = ['toep', 'diag', 'id', 'bttb', 'np']
    cols = n
    if t in ('np', 'diag', 'id'):
        m = draw(leaf(n, n, [t]))
    elif t == 'npr':
        cols = draw(heavy_size(1, 30, 400))
        m = draw(leaf(n, cols, ['np']))
    elif t == 'sum':
        m = dict(t='sum', ks=[draw(leaf(n, n, kinds)) for _ in range(2)])
    elif t == 'comp':
        k = draw(heavy_size(1, 30, 300))
        m = dict(t='comp', ms=[draw(leaf(n, k, ['np'])),
                               draw(leaf(k, n, ['np']))])
    elif t == 'wrap':
        m = dict(t='wrap', k=draw(leaf(n, n, kinds)))
    elif t == 'bd':
        rs = draw(split(n, draw(st.integers(2, 9))))
        m = dict(t='bd', bs=[draw(leaf(r, r, kinds)) for r in rs])
    elif t in ('kron', 'sb'):
        a, b = draw(st.sampled_from([f for f in factorings(n, 2)
                                     if t == 'kron' or f[0] < 7]))
        if t == 'kron':
            m = dict(t='kron', A=draw(leaf(a, a, kinds)),
                     B=draw(leaf(b, b, kinds)))
        else:
            m = dict(t='sb', D=a, bs=[
                draw(leaf(b, b, kinds[:-1]))
                for _ in range(a * (a + 1) // 2)], aslist=draw(st.booleans()))
    else:
        g = draw(heavy_size(1, 40, 200))
        m = dict(t='ski', n=n, g=g, rs=draw(seeds), K=draw(leaf(g, g, kinds)))
    return dict(m=m, x=draw(arr(cols)), xl=draw(layouts), k=2,
                xr=draw(seeds), Xl=draw(layouts))


@st.composite
def big(draw):
    if not draw(st.integers(0, 2)):
        return draw(large())
    if draw(st.booleans()):
        n = draw(heavy_size(1, 120, 700))
        m = dict(t='toep', v=draw(arr(n, ('norm', 'decay', 'int'))),
                 lay=draw(layouts))
    else:
        sizes = draw(st.lists(heavy_size(1, 9, 33), min_size=1, max_size=3))
        while True:
            n = 1
            for s in sizes:
                n *= s
            if n <= 700:
                break
            sizes = sizes[:-1] if len(sizes) > 1 else [700]
        m = dict(t='bttb', v=draw(arr(n, ('norm', 'int'))), sizes=sizes,
                 lay=draw(layouts), sl=draw(st.booleans()))
    if draw(st.booleans()):
        D = draw(st.integers(1, 3))
        m = dict(t='kron', A=draw(leaf(D, draw(st.integers(1, 3)))), B=m)
        n *= 1
    cols = n * (m['A']['a']['n'][1] if m['t'] == 'kron' and
                m['A']['t'] == 'np' else
                _size(m['A']) if m['t'] == 'kron' else 1)
    return dict(m=m, x=draw(arr(cols)), xl=draw(layouts), k=2,
                xr=draw(seeds), Xl=draw(layouts))


def _size(n):
    if n['t'] == 'id':
        return n['n']
    v = n['v']
    return len(v) if isinstance(v, list) else v['n']


SCALES = (1.0, 1.0, 1e-5, 1e-12, 1e-40, 1e6, 1e15, 1e40)


@st.composite
def mag(draw):
    """entries and operands of any magnitude"""
    rows = draw(heavy_size(1, 24, 90))
    t = draw(st.sampled_from(['toep', 'bttb', 'np', 'diag', 'sum', 'kron']))

    def lf(n, t):
        if t == 'np':
            return dict(t='np', a=draw(arr([n, n], scales=SCALES)),
                        lay=draw(flayouts))
        d = dict(t=t, v=draw(arr(n, scales=SCALES, small=0)),
                 lay=draw(flayouts))
        if t == 'bttb':
            d.update(sizes=draw(st.sampled_from(factorings(n, 2))),
                     sl=draw(st.booleans()))
        return d
    kinds = ['toep', 'bttb', 'np', 'diag']
    if t == 'sum':
        m = dict(t='sum', ks=[lf(rows, draw(st.sampled_from(kinds)))
                              for _ in range(2)])
    elif t == 'kron':
        a, b = draw(st.sampled_from(factorings(rows, 2)))
        m = dict(t='kron', A=lf(a, draw(st.sampled_from(kinds))),
                 B=lf(b, draw(st.sampled_from(kinds))))
    else:
        m = lf(rows, t)
    return dict(m=m, x=draw(arr(rows, ('norm', 'sparse', 'unit', 'ones'),
                                scales=SCALES, small=0)),
                xl=draw(flayouts), k=draw(st.integers(1, 3)), xr=draw(seeds),
                Xl=draw(flayouts), xs=draw(st.sampled_from(SCALES)))


@st.composite
def many(draw):
    """many terms, factors, blocks and operands"""
    t = draw(st.sampled_from(['sum', 'bd', 'comp', 'sb', 'bttb', 'cols']))
    kinds = ['toep', 'diag', 'id', 'bttb', 'np']
    if t == 'bd':
        ks = draw(st.integers(4, 24))
        bs = [draw(leaf(draw(st.integers(1, 4)), draw(st.integers(1, 4)),
                        ['np'])) if draw(st.booleans()) else
              draw(leaf(*[draw(st.integers(1, 4))] * 2)) for _ in range(ks)]
        m = dict(t='bd', bs=bs)
        cols = sum(_cols(b) for b in bs)
    elif t == 'sum':
        n = cols = draw(st.integers(1, 8))
        m = dict(t='sum', ks=draw(again([
            draw(leaf(n, n, kinds)) for _ in
            range(draw(st.integers(4, 24)))], True)))
    elif t == 'comp':
        n = cols = draw(st.integers(1, 6))
        m = dict(t='comp', ms=draw(again([
            draw(leaf(n, n, kinds)) for _ in
            range(draw(st.integers(4, 7)))], True)))
    elif t == 'sb':
        D = draw(st.integers(6, 10))
        n = draw(st.integers(1, 4))
        cols = D * n
        m = dict(t='sb', D=D, bs=[
            draw(leaf(n, n, ['toep', 'diag', 'id', 'bttb']))
            for _ in range(D * (D + 1) // 2)], aslist=draw(st.booleans()))
    elif t == 'bttb':
        sizes = draw(st.lists(st.sampled_from([1, 2, 2, 3, 1, 4]),
                              min_size=4, max_size=6))
        cols = 1
        for s in sizes:
            cols *= s
        m = dict(t='bttb', v=draw(arr(cols)), sizes=sizes,
                 lay=draw(layouts), sl=draw(st.booleans()))
    else:
        cols = draw(st.integers(1, 20))
        m = draw(tree(draw(st.integers(1, 20)), cols, 1))
    if t == 'bd':
        bs[:] = draw(again(bs, True))
        cols = sum(_cols(b) for b in bs)
    return dict(m=m, x=draw(arr(cols)), xl=draw(layouts),
                share=draw(st.booleans()),
                k=draw(heavy_size(1, 70, 300)) if t == 'cols' else 2,
                xr=draw(seeds), Xl=draw(layouts))


def _cols(n):
    return n['a']['n'][1] if n['t'] == 'np' else _size(n)


@st.composite
def bad(draw):
    t = draw(st.sampled_from(
        ['toep2d', 'toep0', 'bttb2d', 'bttb0', 'bttbsizes', 'bttbsizes2d',
         'diag0', 'diag2d', 'np1d', 'np3d', 'np0', 'np0c', 'sum0', 'summix',
         'sbuneven', 'sb0', 'id0', 'bd0', 'wrap0']))
    return dict(t=t, n=draw(st.integers(1, 6)), m=draw(st.integers(1, 5)),
                d=draw(st.integers(1, 4)))


PARTS = [Part('tree', case(), 2400, 40000),
         Part('big', big(), 500, 8000),
         Part('mag', mag(), 500, 8000), Part('many', many(), 400, 8000),
         Part('bad', bad(), 160, 600)]
