import itertools

import numpy as np

from core import layout

from runlmc.util.numpy_convenience import (
    begin_end_indices, cartesian_product, chunks, map_entries,
    search_descending, symm_2d_list_map, tesselate)
from runlmc.util.docs import inherit_doc


def part_tess(c, R):
    rng = np.random.RandomState(c['rs'])
    lens = c['lens']
    n = max(sum(lens) + c['d'], 0)
    a = rng.randn(*([n] + c['tail']))
    a0 = a.copy()
    if c['it'] in ('arr', 'uint8', 'int8'):
        it = np.array(lens).astype('int' if c['it'] == 'arr' else 'int32'
                                   if not lens else c['it'])
    else:
        it = {'list': list, 'iter': iter, 'tuple': tuple}[c['it']](lens)
    R.nt(len(lens) >= 2)
    if not lens or n != sum(lens):
        R.label('bad')
        R.raises(ValueError, lambda: tesselate(a, it),
                 'lengths %r for %d rows' % (lens, n))
        return
    R.label('ok')
    segs = tesselate(a, it)
    b = 0
    want = []
    for k in lens:
        want.append(a0[b:b + k])
        b += k
    R.close_list(segs, want, 'segments', rtol=0, atol=0)
    R.check(np.array_equal(a, a0), 'array altered')


def part_idx(c, R):
    lens = (np.array(c['lens']).astype(c['dt']) if c['arr'] else
            list(c['lens']))
    R.label(c['dt'] if c['arr'] else 'list')
    R.nt(len(lens) >= 2)
    b, e = begin_end_indices(lens)
    t, wb, we = 0, [], []
    for k in c['lens']:
        wb.append(t)
        t += k
        we.append(t)
    R.close(b, wb, 'begins', rtol=0, atol=0)
    R.close(e, we, 'ends', rtol=0, atol=0)
    R.check(list(lens) == c['lens'], 'lengths altered')


def part_chunk(c, R):
    seq = list(range(100, 100 + c['n']))
    if c['t'] == 'arr':
        seq = np.array(seq)
    elif c['t'] == 'str':
        seq = ''.join(chr(x) for x in seq)
    R.nt(c['n'] >= 2)
    got = [list(x) for x in chunks(seq, c['k'])]
    want, cur = [], []
    for x in seq:
        cur.append(x)
        if len(cur) == c['k']:
            want.append(cur)
            cur = []
    if cur:
        want.append(cur)
    R.check(got == want, 'chunks %r, expected %r', got, want)


def part_cart(c, R):
    rng = np.random.RandomState(c['rs'])
    arrs = []
    for n, i in zip(c['lens'], c['ints']):
        a = rng.randn(n)
        arrs.append(np.rint(a * 3).astype(int) if i else a)
    R.nt(len(arrs) >= 2)
    want = np.array(list(itertools.product(*[list(a) for a in arrs])),
                    dtype=float)
    keep = [a.copy() for a in arrs]
    R.close(cartesian_product(*arrs), want, 'product', rtol=0, atol=0)
    R.close_list(arrs, keep, 'arguments', rtol=0, atol=0)


def part_mape(c, R):
    rng = np.random.RandomState(c['rs'])
    shape = c['shape']
    a = rng.permutation(int(np.prod(shape)) if shape else 1).reshape(shape)
    lay = c['lay']
    if c['dt'] == 'bool':
        a = a % 2 == 0
    elif c['dt'] == 'float':
        a = a + 0.25
    elif c['dt'] == 'complex':
        a = a + 0.5j
    if lay == 'f':
        a = np.asfortranarray(a)
    elif lay == 't':
        a = np.ascontiguousarray(a.T).T
    elif lay == 'perm' and a.ndim:
        p = list(rng.permutation(a.ndim))
        a = np.ascontiguousarray(a.transpose(p)).transpose(
            list(np.argsort(p)))
    elif lay == 'rev':
        if a.ndim:
            a = a[::-1]
    elif lay == 'strided' and a.ndim:
        big = np.zeros([2 * k + 1 for k in a.shape], dtype=a.dtype)
        v = big[tuple(slice(1, 2 * k + 1, 2) for k in a.shape)]
        v[...] = a
        a = v
    elif lay == 'ro' and a.ndim:
        a.setflags(write=False)
    f = {'neg': (lambda x: x) if c['dt'] == 'bool' else (lambda x: -x),
         'sq': lambda x: x * x, 'idx': lambda x: x,
         'const': lambda x: x.dtype.type(1)}[c['f']]
    a0 = a.copy()
    R.nt(a.size >= 2)
    R.label(lay)
    out = map_entries(f, a)
    R.check(out.shape == a0.shape, 'shape %r, expected %r', out.shape,
            a0.shape)
    for i in itertools.product(*[range(k) for k in a0.shape]):
        w = f(np.array(a0[i]))
        R.check(out[i] == w, 'entry %r: %r, expected %r', i, out[i], w)
    R.check(np.array_equal(a, a0), 'array altered')


def part_symm(c, R):
    D = c['D']
    rng = np.random.RandomState(c['rs'])
    a = rng.randn(D, D)
    a = a + a.T
    calls = []
    extra = tuple(range(c['args']))

    def f(x, *args):
        calls.append((float(x), args))
        return float(x) * 2 + sum(args)
    kw = {} if c['dt'] is None else {'dtype': c['dt']}
    out = symm_2d_list_map(f, a, D, *extra, **kw)
    R.nt(D >= 2)
    R.close(out, a * 2 + sum(extra), 'mapped blocks', rtol=1e-12)
    R.check(len(calls) == D * (D + 1) // 2, '%d calls for D=%d', len(calls),
            D)
    R.check(all(x[1] == extra for x in calls), 'extra arguments %r',
            calls[:1])
    up = sorted(a[i, j] for i in range(D) for j in range(i, D))
    R.check(sorted(x[0] for x in calls) == up, 'called on other entries')
    out2 = symm_2d_list_map(lambda x: [x], a, D)
    for i in range(D):
        for j in range(D):
            R.check(out2[i, j] is out2[j, i], 'not mirrored')


def part_search(c, R):
    v = list(c['v'])
    if c['desc']:
        v = sorted(v, reverse=True)
    if c['dt']:
        # narrow types hold values whose differences do not fit
        k = {'uint8': 51, 'int8': 25, 'int64': 2 ** 60}.get(c['dt'], 1)
        v = [int(a) * k for a in v]
        if c['dt'] == 'uint8':
            v = [max(a, 0) for a in v]
        v = [a.item() for a in np.array(v, dtype=c['dt'])]
        if c['desc']:
            v = sorted(v, reverse=True)
        R.label(c['dt'])
    if c['desc'] == 'swap' and len(v) > 1:
        # a single step upwards
        i = (c['rel'] or 0) % (len(v) - 1)
        v[i], v[i + 1] = v[i + 1], v[i]
    x = c['x']
    if c['rel'] is not None and v:
        x = v[c['rel'] % len(v)]
    xs = {'list': list, 'arr': np.array, 'tuple': tuple,
          'ro': np.array}[c['t']](v)
    if c['dt'] and c['t'] in ('arr', 'ro'):
        xs = np.array(v, dtype=c['dt'])
    if c['t'] == 'ro':
        xs.setflags(write=False)
    R.nt(len(v) >= 2)
    bad = any(b > a for a, b in zip(v, v[1:]))
    if bad:
        R.label('bad')
        R.raises(ValueError, lambda: search_descending(x, xs, c['inc']),
                 'array %r that is not descending' % (v,))
        return
    want = 0
    for e in v:
        if e > x or (c['inc'] and e == x):
            want += 1
        else:
            break
    got = search_descending(x, xs, c['inc'])
    R.check(got == want, 'search %r in %r (inclusive=%r): %r, expected %r',
            x, v, c['inc'], got, want)
    R.check(list(xs) == v, 'array altered')


def _member(name, kind, tag):
    if name in ('p', 'q'):
        def fget(self):
            return tag + str(getattr(self, '_v', ''))

        def fset(self, v):
            self._v = v
        fget.__doc__ = {'doc': 'doc ' + tag, 'nodoc': None,
                        'empty': ''}[kind]
        return property(fget, fset) if name == 'p' else property(fget)

    def fn(self):
        return tag
    fn.__doc__ = {'doc': 'doc ' + tag, 'nodoc': None, 'empty': ''}[kind]
    fn.__name__ = name
    if name == 'h':
        # every third method kind: static methods are left alone
        return fn
    return fn


def _build(c, deco):
    out, model = [], []
    for i, members in enumerate(c['cs']):
        bases = []
        for b in c['base'][i]:
            if b < i and out[b] not in bases:
                bases.append(out[b])
        bases = bases or [object]
        ns = {n: _member(n, k, 'C%d.%s' % (i, n))
              for n, k in members.items()}
        try:
            cl = type('C%d' % i, tuple(bases), ns)
        except TypeError:
            cl = type('C%d' % i, (bases[0],), ns)
        if deco[i]:
            model.append(_expected(cl))
            r = inherit_doc(cl)
            if r is not cl:
                return None, 'the class returned is another one'
        else:
            model.append({n: _doc(m) for n, m in vars(cl).items()
                          if n in c['cs'][i]})
        out.append(cl)
    return out, model


def _doc(m):
    return m.__doc__ if m is not None else None


def _expected(cl):
    want = {}
    for n, m in vars(cl).items():
        if n.startswith('__'):
            continue
        d = _doc(m)
        if not d:
            for b in cl.__bases__:
                p = getattr(b, n, None)
                if p is not None and _doc(p):
                    d = _doc(p)
                    break
        want[n] = d
    return want


def part_docs(c, R):
    classes, model = _build(c, c['deco'])
    R.check(classes is not None, str(model))
    R.nt(len(classes) >= 2)
    for i, (cl, want) in enumerate(zip(classes, model)):
        have = {n for n in vars(cl) if not n.startswith('__')}
        R.check(have == set(c['cs'][i]), 'members of C%d: %r', i, have)
        for n, d in want.items():
            got = _doc(vars(cl)[n])
            R.check((got or None) == (d or None),
                    'C%d.%s documented %r, expected %r', i, n, got, d)
            o = cl()
            tag = 'C%d.%s' % (i, n)
            if n in ('p', 'q'):
                R.check(isinstance(vars(cl)[n], property), 'not a property')
                R.check(getattr(o, n) == tag, 'property value')
                if n == 'p':
                    o.p = 5
                    R.check(o.p == tag + '5', 'property setter')
                else:
                    try:
                        o.q = 1
                        R.check(False, 'read-only property became writable')
                    except AttributeError:
                        pass
            else:
                R.check(getattr(o, n)() == tag, 'method result')
