"""A stand-in for multiprocessing.Pool whose schedule is the case's: tasks end
in an order drawn from a seed, some results are ready when asked and some are
not, and results are copies (as those of another process are)."""
import multiprocessing.pool as mp
import pickle

import numpy as np


class Result:
    def __init__(self, pool, thunk, callback=None, error_callback=None):
        self.pool = pool
        self.state = None
        self.thunk = thunk
        self.cb, self.ecb = callback, error_callback
        pool.open.append(self)

    def run(self):
        if self.state is not None:
            return
        if self in self.pool.open:
            self.pool.open.remove(self)
        try:
            self.state = True, pickle.loads(pickle.dumps(self.thunk()))
        except Exception as e:
            self.state = False, e
        cb = self.cb if self.state[0] else self.ecb
        if cb:
            cb(self.state[1])

    def ready(self):
        self.pool.step(0.5)
        return self.state is not None

    def wait(self, timeout=None):
        if timeout is None:
            # others may end first
            self.pool.step(0.6)
            self.run()
        else:
            self.pool.step(0.5)

    def get(self, timeout=None):
        self.wait()
        if not self.state[0]:
            raise self.state[1]
        return self.state[1]

    def successful(self):
        if self.state is None:
            raise ValueError('not ready')
        return self.state[0]


class SchedPool(mp.Pool):
    """no super().__init__: there are no processes"""

    def __init__(self, seed, procs=3):
        self.rng = np.random.RandomState(seed)
        self.open = []
        self.closed = False
        self._processes = procs
        self._pool = []
        self.tasks = 0

    def step(self, p):
        """let some of the submitted tasks end, in any order"""
        while self.open and self.rng.rand() < p:
            self.open[self.rng.randint(len(self.open))].run()

    def submit(self, thunk, callback=None, error_callback=None):
        if self.closed:
            raise ValueError('Pool not running')
        r = Result(self, thunk, callback, error_callback)
        self.step(0.3)
        return r

    def many(self, f, items):
        """all items, run in any order"""
        items = list(items)
        self.tasks += len(items)
        out = [None] * len(items)
        for i in self.rng.permutation(len(items)):
            out[i] = f(items[i])
        return out

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds=None, callback=None,
                    error_callback=None):
        return self.submit(
            lambda: self.many(lambda a: func(*a, **(kwds or {})), [args])[0],
            callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        items = list(iterable)
        return self.submit(lambda: self.many(func, items), callback,
                           error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        items = list(iterable)
        return self.submit(lambda: self.many(lambda a: func(*a), items),
                           callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        jobs = [self.apply_async(func, (x,)) for x in iterable]
        return (j.get() for j in jobs)

    def imap_unordered(self, func, iterable, chunksize=1):
        jobs = [self.apply_async(func, (x,)) for x in iterable]
        return (jobs[i].get() for i in self.rng.permutation(len(jobs)))

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __del__(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pools cannot be sent between processes')
