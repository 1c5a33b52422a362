"""Worker-side helpers shared by all checks (PyPy)."""
import contextlib
import hashlib
import logging
import random

import numpy as np


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class LogTap(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def critical(self):
        return [x for x in self.records if x.levelno >= logging.CRITICAL]


class R:
    """Recorder for one case."""

    def __init__(self, tap):
        self.labels = set()
        self.nontrivial = False
        self.tap = tap
        self.in_sut = False
        self.held = []

    def hold(self, value, what, arg=None):
        """value was handed to the caller: nothing done later in the case
        may change it (unless it is the caller's own array arg, handed
        back). Returns value."""
        if arg is not None and np.may_share_memory(value, arg):
            return value
        self.held.append((what, value, _freeze(value)))
        return value

    def spoil(self, *values):
        """the caller does as it likes with values it was handed"""
        for v in values:
            if isinstance(v, (list, tuple)):
                self.spoil(*v)
            elif hasattr(v, 'toarray') and hasattr(v, 'data'):
                self.spoil(v.data)
            elif (isinstance(v, np.ndarray) and v.flags.writeable and
                  v.dtype.kind in 'fiu'):
                v[...] = 77

    def finish(self):
        for what, value, snap in self.held:
            if not _same(_freeze(value), snap):
                raise Violation('%s: the returned value was changed by later '
                                'operations' % what)

    def seed(self, text):
        h = int(hashlib.sha1(text.encode()).hexdigest()[:8], 16)
        self.base_seed = h
        np.random.seed(h)
        random.seed(h)

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def close(self, actual, expected, what, rtol=1e-8, atol=1e-10, scale=0.0):
        """|actual - expected| <= atol + rtol * max(|expected|, scale)"""
        e = np.asarray(expected, dtype=float)
        try:
            a = np.asarray(actual)
            if a.dtype == object:
                a = a.astype(float)
            if np.iscomplexobj(a):
                raise Violation('%s: complex result' % what)
            a = a.astype(float)
        except Violation:
            raise
        except Exception as ex:
            raise Violation('%s: not numeric: %r (%s)'
                            % (what, type(actual), ex))
        if a.shape != e.shape:
            raise Violation('%s: shape %s, expected %s'
                            % (what, a.shape, e.shape))
        if e.size == 0:
            return
        tol = atol + rtol * np.maximum(np.abs(e), scale)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - e) <= tol)
        bad &= ~((a == e))
        if bad.any():
            i = np.unravel_index(
                np.argmax(np.where(bad, np.nan_to_num(
                    np.abs(a - e) / tol, nan=np.inf, posinf=1e300), -1)),
                e.shape) if e.shape else ()
            raise Violation(
                '%s: at %s got %r, expected %r (tolerance %.3g; %d of %d '
                'entries differ)' % (what, tuple(int(k) for k in i),
                                     float(a[i]), float(e[i]),
                                     float(np.asarray(tol)[i] if np.ndim(tol)
                                           else tol),
                                     int(bad.sum()), e.size))

    def close_list(self, actual, expected, what, **kw):
        try:
            n = len(actual)
        except TypeError:
            raise Violation('%s: not a sequence: %r' % (what, type(actual)))
        self.check(n == len(expected), '%s: %d entries, expected %d', what, n,
                   len(expected))
        for i, (a, e) in enumerate(zip(actual, expected)):
            self.close(a, e, '%s[%d]' % (what, i), **kw)

    def raises(self, exc, fn, what):
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation('%s: raised %s (%s), expected %s'
                            % (what, type(e).__name__, e, exc.__name__))
        raise Violation('%s: accepted, expected %s' % (what, exc.__name__))

    def warned(self):
        return bool(self.tap.critical())


    def residual(self):
        """largest residual the solver admitted to (0 if it was quiet)"""
        out = 0.0
        for rec in self.tap.critical():
            try:
                out = max(out, float(rec.getMessage().split()[-1]))
            except Exception:
                out = max(out, 1e-3)
        return out

    def solve_tol(self, n, emin, base=1e-6, cs=1.0):
        """relative accuracy to expect of quantities that went through a
        solve with an n x n covariance of smallest eigenvalue emin"""
        t = base * max(1.0, 0.01 / max(emin / cs, 1e-9))
        if self.warned():
            self.label('unconverged')
            t = max(t, 1e-5) + 3 * np.sqrt(n) * self.residual() / emin
        return t


def _freeze(v):
    if isinstance(v, (list, tuple)):
        return [_freeze(x) for x in v]
    if isinstance(v, dict):
        return [(k, _freeze(x)) for k, x in sorted(v.items())]
    if hasattr(v, 'toarray'):
        return np.array(v.toarray())
    return np.array(v)


def _same(a, b):
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(_same(x, y) for x, y in zip(a, b)))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        try:
            return bool(np.array_equal(a, b) or
                        np.array_equal(np.nan_to_num(a), np.nan_to_num(b)))
        except TypeError:
            return bool(np.array_equal(a, b))
    return a == b


@contextlib.contextmanager
def numpy_seed(s):
    st = np.random.get_state()
    np.random.seed(s)
    try:
        yield
    finally:
        np.random.set_state(st)


def arr(spec):
    """Expand an array spec from a case into a float ndarray.
    list -> array; {"rs":seed,"n":n or shape,"k":kind[,"s":scale,"o":offset]}"""
    if isinstance(spec, (list, int, float)):
        return np.array(spec, dtype=float)
    rng = np.random.RandomState(spec['rs'])
    n = spec['n']
    k = spec.get('k', 'norm')
    if k == 'norm':
        v = rng.randn(*np.atleast_1d(n))
    elif k == 'unif':
        v = rng.rand(*np.atleast_1d(n))
    elif k == 'int':
        v = rng.randint(-4, 5, np.atleast_1d(n)).astype(float)
    elif k == 'sparse':
        v = rng.randn(*np.atleast_1d(n))
        v[rng.rand(*np.atleast_1d(n)) < 0.6] = 0
    elif k == 'heavy':
        v = rng.standard_cauchy(size=np.atleast_1d(n))
        v = np.clip(v, -1e6, 1e6)
    elif k == 'decay':
        v = np.exp(-rng.rand() * np.arange(int(np.prod(n)))).reshape(n)
    elif k == 'grid':
        v = np.linspace(0, 1, int(np.prod(n))).reshape(n)
    elif k == 'ones':
        v = np.ones(n)
    elif k in ('band', 'ends'):
        # nothing beyond a band; nothing but the first and last entries
        v = rng.randn(int(np.prod(n)))
        if k == 'band':
            v[1 + rng.randint(max(v.size, 1)):] = 0
        else:
            v[1:-1] = 0
        v = v.reshape(n)
    elif k == 'zsum':
        # two entries that cancel
        v = np.zeros(int(np.prod(n)))
        if v.size > 1:
            v[rng.permutation(v.size)[:2]] = 1, -1
        v = v.reshape(n)
    elif k == 'unit':
        v = np.zeros(int(np.prod(n)))
        if v.size:
            v[rng.randint(v.size)] = 1
        v = v.reshape(n)
    else:
        raise HarnessError('array kind %r' % k)
    return v * spec.get('s', 1.0) + spec.get('o', 0.0)


def layout(a, how):
    """The same values in a different memory layout / dtype / flag."""
    a = np.array(a, dtype=float)
    if how in (None, 'c'):
        return a
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'strided':
        big = np.full(tuple(2 * s + 1 for s in a.shape), 7.5)
        view = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
        view[...] = a
        return view
    if how == 'rev':
        return np.array(a[::-1])[::-1]
    if how == 'ro':
        a.setflags(write=False)
        return a
    if how == 'int':
        b = np.rint(a).astype(np.int64)
        return b
    raise HarnessError('layout %r' % how)
