"""Build a real matrix and its dense twin from an expression tree."""
import functools
import itertools
import json

import numpy as np
import scipy.sparse

from core import arr, layout, HarnessError

from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.composition import Composition
from runlmc.approx.ski import SKI


TRACK = None


def seen(x):
    """note an object that is about to be passed to the code under test"""
    if TRACK is not None:
        TRACK(x)
    return x


def vec(node, key):
    return seen(layout(arr(node[key]), node.get('lay')))


def dense_toep(top):
    n = len(top)
    return np.array([[top[abs(i - j)] for j in range(n)] for i in range(n)])


def dense_bttb(top, sizes):
    t = np.asarray(top, dtype=float).reshape(sizes)
    idx = np.array(list(itertools.product(*[range(s) for s in sizes])))
    d = np.abs(idx[:, None, :] - idx[None, :, :])
    return t[tuple(d[..., i] for i in range(len(sizes)))]


def sparse_w(node):
    rng = np.random.RandomState(node['rs'])
    n, g = node['n'], node['g']
    W = rng.randn(n, g)
    W[rng.rand(n, g) < 0.5] = 0
    return W


def count(node):
    kids = []
    for k in ('ks', 'ms', 'bs'):
        kids += node.get(k, [])
    for k in ('A', 'B', 'k', 'K'):
        if isinstance(node.get(k), dict) and 't' in node[k]:
            kids.append(node[k])
    return 1 + sum(count(c) for c in kids)


MEMO = None


def build(node, share=False):
    """-> (real, dense, absolute bound); share: equal parts are one object"""
    global MEMO
    if share:
        MEMO = {}
        try:
            return build(node)
        finally:
            MEMO = None
    if MEMO is None:
        return _build(node)
    key = json.dumps(node, sort_keys=True)
    if key not in MEMO:
        MEMO[key] = _build(node)
    return MEMO[key]


def _build(node):
    t = node['t']
    if t == 'np':
        a = seen(layout(arr(node['a']), node.get('lay')))
        d = np.array(a, dtype=float)
        return NumpyMatrix(a), d, np.abs(d)
    if t == 'id':
        d = np.identity(node['n'])
        return Identity(node['n']), d, d
    if t == 'diag':
        v = vec(node, 'v')
        d = np.diag(np.array(v, dtype=float))
        return Diag(v), d, np.abs(d)
    if t == 'toep':
        v = vec(node, 'v')
        d = dense_toep(np.array(v, dtype=float))
        return Toeplitz(v), d, np.full(d.shape, np.abs(d).max())
    if t == 'bttb':
        v = vec(node, 'v')
        s = node['sizes']
        d = dense_bttb(np.array(v, dtype=float), s)
        return (BTTB(v, seen(list(s) if node.get('sl') else np.array(s))), d,
                np.full(d.shape, np.abs(d).max()))
    if t == 'sum':
        r, d, b = zip(*[build(k) for k in node['ks']])
        return SumMatrix(seen(list(r))), sum(d), sum(b)
    if t == 'comp':
        r, d, b = zip(*[build(k) for k in node['ms']])
        return (Composition(seen(list(r))), functools.reduce(np.dot, d),
                functools.reduce(np.dot, b))
    if t == 'wrap':
        r, d, b = build(node['k'])
        return Matrix.wrap(d.shape, functools.partial(np.dot, d)), d, b
    if t == 'bd':
        r, d, b = zip(*[build(k) for k in node['bs']])
        return BlockDiag(seen(list(r))), _bd(d), _bd(b)
    if t == 'kron':
        ra, da, ba = build(node['A'])
        rb, db, bb = build(node['B'])
        return Kronecker(ra, rb), np.kron(da, db), np.kron(ba, bb)
    if t == 'sb':
        D = node['D']
        it = iter(node['bs'])
        real = np.empty((D, D), dtype=object)
        dense = [[None] * D for _ in range(D)]
        bound = [[None] * D for _ in range(D)]
        for i in range(D):
            for j in range(i, D):
                r, d, b = build(next(it))
                real[i, j] = real[j, i] = r
                dense[i][j] = dense[j][i] = d
                bound[i][j] = bound[j][i] = b
        return SymmSquareBlockMatrix(seen(real)), np.block(dense), np.block(bound)
    if t == 'ski':
        rk, dk, bk = build(node['K'])
        W = sparse_w(node)
        S = scipy.sparse.csr_matrix(W)
        return (SKI(rk, seen(S), seen(S.transpose().tocsr())), W.dot(dk).dot(W.T),
                np.abs(W).dot(bk).dot(np.abs(W).T))
    raise HarnessError(t)


def _bd(ms):
    out = np.zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)))
    r = c = 0
    for m in ms:
        out[r:r + m.shape[0], c:c + m.shape[1]] = m
        r += m.shape[0]
        c += m.shape[1]
    return out
