"""The kernel space: leaf kernels with parameters, compositions, parameter-setting histories, sample sets."""
import itertools

import numpy as np

from mc import ref, hist

LEAF = [['rbf', 0.7, 0.6, 0.0], ['rbf', 1.2, 0.35, 0.05], ['per', 0.6, 1.1, 3.3], ['per', 1.3, 0.8, 0.9], ['lin', 0.5, 0.3, 0.1], ['lin', 0.9, 0.0, -0.4],
        ['rbf0', 0.8, 0.6, None, 0.01], ['rbf0', 1.1, 0.9, 'z', 0.0]]
NOISE = {'rbf': 3, 'rbf0': 4}


def place(spec, dim):
    """fill in the zero point for the dimension"""
    if spec[0] in '+*':
        return [spec[0], place(spec[1], dim), place(spec[2], dim)]
    if spec[0] == 'rbf0' and spec[3] == 'z':
        return spec[:3] + [[0.3, 0.5, 0.2][:max(dim, 1)]] + spec[4:]
    return list(spec)


def specs(depth):
    """all kernels up to the composition depth (number of operators)"""
    if depth == 0:
        return [list(s) for s in LEAF]
    out = []
    for op in '+*':
        for a in range(depth):
            for s in specs(a):
                for u in specs(depth - 1 - a):
                    out.append([op, s, u])
    return out


# parameter histories: list of steps; 's': set other parameters, 'S': set the final ones, 'e': evaluate, 'r': draw random ones
HISTORIES = ['', 'S', 'esS', 'eSe', 'srS', 'er', 'sS', 'el']


def other(par, k=0):
    return [1.3 * abs(v) + 0.17 + 0.05 * i + 0.11 * k for i, v in enumerate(par)]


def make(spec, history, X, Y):
    """kernel holding spec's parameters after the history, and the list of steps taken"""
    par = ref.get_par(spec)
    start = spec if history in ('', 'er') else ref.with_par(spec, other(par, 1))
    k = ref.build_kernel(start)
    cur = start
    for i, ch in enumerate(history):
        if ch == 'e':
            k.cov(X, X), k.cov(X, Y), k(X[0], Y[0])
            k.cov_gradient(X, Y), k.gradient(X[0], Y[0])
        elif ch == 'r':
            k.randomize_hyper()
        else:
            p = par if ch in 'Sl' else other(par, i + 2)
            # containers a caller may use
            v = list(p) if ch == 'l' else np.array(p, dtype=float)
            k.set_param(v)
            if ch != 'l':
                v *= 0.0            # the caller reuses its array
            else:
                v[:] = [0.0] * len(v)
            cur = ref.with_par(spec, p)
    assert cur == spec or history in ('', 'er'), history
    return k


def sets(dim, n, m, rel):
    """two sample sets; rel: how the second relates to the first"""
    X = hist.xs(dim, [(3 * i) % 32 for i in range(n)])
    if n > 32 // 1:
        X = X + np.arange(n).reshape((n,) + (1,) * (X.ndim - 1)) * 0.004
    if rel == 'same':
        return X, X
    if rel == 'copy':
        return X, X.copy()
    if rel == 'near':
        return X, X + 1e-9
    if rel == 'perm':
        return X, X[::-1].copy()
    if rel == 'sub':
        return X, X[:m].copy()
    if rel in ('head', 'tail', 'most'):     # same number of samples, the first / the last / all but one shared
        Z = hist.xs(dim, [(5 * i + 1) % 32 for i in range(n)]) + 0.01
        if rel == 'most':
            Z[:-2], Z[-1] = X[:-2], X[-1]
        else:
            Z[0 if rel == 'head' else -1] = X[0 if rel == 'head' else -1]
        return X, Z
    if rel == 'dup':                    # a set with repeated samples, compared with itself
        Z = np.concatenate([X, X[:1]])
        return Z, Z
    if rel == 'int':
        Z = (np.arange(n * max(dim, 1)) % 3).reshape((n,) if dim == 0 else (n, dim))
        return Z, Z + 1
    if rel == 'fort':
        return np.asfortranarray(X), np.asfortranarray(hist.xs(dim, [(5 * i + 1) % 32 for i in range(m)]) + 0.01)
    return X, hist.xs(dim, [(5 * i + 1) % 32 for i in range(m)]) + 0.01


def psd_ok(spec, dim):
    """kernels that are positive semi-definite in this dimension"""
    if spec[0] == 'per':
        return dim <= 1
    if spec[0] in '+*':
        return psd_ok(spec[1], dim) and psd_ok(spec[2], dim)
    return True
