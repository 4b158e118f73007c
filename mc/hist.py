"""Submission histories over preference models: operations, the plain record they should produce, comparison."""
import numpy as np

import lop
from mc import ref
from mc.core import raises

# irregular, pairwise different, no coordinate shared, spread over roughly [0, 1.6]
_POOL = np.array([
    [0.20, 0.90, 0.35], [0.75, 0.15, 0.60], [0.45, 0.55, 1.10], [1.10, 0.40, 0.05], [0.05, 1.20, 0.80],
    [0.95, 1.05, 0.50], [1.40, 0.70, 0.95], [0.60, 0.05, 0.15], [0.30, 0.30, 1.30], [1.25, 1.35, 0.25],
    [0.85, 0.80, 0.70], [0.10, 0.65, 0.45], [1.55, 0.25, 1.20], [0.50, 1.50, 0.90], [0.70, 0.45, 1.45],
    [1.00, 0.10, 0.40], [0.15, 1.40, 1.00], [1.30, 0.95, 0.10], [0.40, 1.15, 0.55], [0.55, 0.75, 0.20],
    [1.45, 1.25, 1.35], [0.90, 0.60, 1.25], [0.25, 1.00, 0.65], [1.15, 0.20, 0.85], [0.65, 1.30, 0.30],
    [1.05, 0.85, 1.15], [0.35, 0.50, 1.05], [1.20, 1.10, 0.75], [0.80, 1.45, 1.40], [1.50, 0.35, 1.50],
    [0.02, 0.02, 1.60], [1.60, 1.60, 0.00]])


def pool(dim, i):
    """sample i as a scalar (dim 0: flat one dimensional samples) or a vector"""
    if dim == 0:
        return float(_POOL[i % len(_POOL), 0])
    return tuple(float(v) for v in _POOL[i % len(_POOL), :dim])


def xs(dim, ids):
    return np.array([pool(dim, i) for i in ids], dtype=float).reshape((len(ids),) if dim == 0 else (len(ids), dim))


def row(x):
    return tuple(float(v) for v in np.atleast_1d(np.asarray(x, dtype=float)))


def expect_add(data, dim, op):
    """what the operation should add to the record"""
    kind, ids, lab = op[0], op[1], op[2]
    base = len(data.X)
    data.X = data.X + [row(pool(dim, i)) for i in ids]
    if kind == 'P':
        data.pairs = data.pairs + [(int(d), int(u) + base, int(v) + base) for d, u, v in lab]
    elif kind == 'O':
        data.ords = data.ords + [(int(y), base + i) for i, y in enumerate(lab)]
    elif kind == 'A':
        data.abss = data.abss + [(ref.clamp(y), base + i) for i, y in enumerate(lab)]
    elif kind == 'Oi':          # explicit positions in the held sample list
        data.ords = data.ords + [(int(y), int(i)) for y, i in lab]
    elif kind == 'Ai':
        data.abss = data.abss + [(ref.clamp(y), int(i)) for y, i in lab]
    else:
        raise KeyError(kind)


def call_args(dim, op, form=0):
    """(X, y, type): form varies the container / number types of the arguments"""
    kind, ids, lab = op[0], op[1], op[2]
    X = xs(dim, ids)
    if form == 2 and dim:
        X = np.asfortranarray(X)
    if kind == 'P':
        y = [tuple(p) for p in lab] if form == 0 or not lab else np.array(lab, dtype=int) if form == 1 else [list(p) for p in lab]
        return X, y, 'relative_discrete'
    if kind == 'O':
        y = list(lab) if form == 0 else np.array(lab, dtype=int)
        return X, y, 'ordinal'
    if kind == 'A':
        return X, np.array(lab, dtype=float), 'abs'
    if kind == 'Oi':
        return X, np.array(lab, dtype=int).reshape(len(lab), 2), 'ordinal'
    if kind == 'Ai':
        v = np.array([a for a, _ in lab], dtype=float)
        idx = [int(i) for _, i in lab]
        return X, (v, np.array(idx, dtype=int) if form == 1 else idx), 'abs'
    raise KeyError(kind)


def deep(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(deep(v) for v in x)
    return x


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def scribble(x):
    """overwrite the caller's containers in place"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            x += 7.5
        else:
            x *= 0
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (list, np.ndarray)):
                scribble(v)
            else:
                x[i] = type(v)() if isinstance(v, tuple) else 0
    elif isinstance(x, tuple):
        for v in x:
            if isinstance(v, (list, np.ndarray)):
                scribble(v)


def held(model):
    """the record the model holds"""
    d = ref.Data()
    if model.X_train is not None:
        d.X = [row(x) for x in model.X_train]
    get = lambda t: model.y_train[model.probit_idxs[t]]
    y = get('relative_discrete')
    if y is not None:
        d.pairs = [(int(p[0]), int(p[1]), int(p[2])) for p in y]
    y = get('ordinal')
    if y is not None:
        d.ords = [(int(a), int(i)) for a, i in zip(y[0], y[1])]
        assert len(y[0]) == len(y[1])
    y = get('abs')
    if y is not None:
        d.abss = [(float(a), int(i)) for a, i in zip(y[0], y[1])]
        assert len(y[0]) == len(y[1])
    return d


def _r(t):
    return tuple(round(float(v), 9) for v in t)


def norm_pair(p):
    """(winner, loser): (-1,u,v) and (1,v,u) are the same judgement"""
    d, u, v = p
    return (u, v) if d == -1 else (v, u) if d == 1 else ('?', d, u, v)


def rec_key(d):
    """content of a record: samples in order, judgements as multisets"""
    return (tuple(_r(x) for x in d.X), tuple(sorted(norm_pair(p) for p in d.pairs)), tuple(sorted(d.ords)),
            tuple(sorted((round(a, 9), i) for a, i in d.abss)))


def check_held(ctx, model, data, what):
    got, want = rec_key(held(model)), rec_key(data)
    if got != want:
        names = ('samples', 'comparisons (winner, loser)', 'category ratings (label, sample)', 'bounded ratings (value, sample)')
        for n, g, w in zip(names, got, want):
            if g != w:
                ctx.fail('%s: the model holds %s %s, submitted were %s' % (what, n, g, w))


def patterns(n):
    """reward assignments used to probe the data fit"""
    i = np.arange(n)
    return [0.35 * np.cos(1.7 * i) + 0.1 * i / max(n, 1), 0.6 * np.sin(2.3 * i + 0.4), np.linspace(-0.5, 0.5, n) if n > 1 else np.zeros(n)]


def check_fit(ctx, model, data, what, **lik):
    n = len(data.X)
    if n == 0:
        return
    for F in patterns(n):
        want = data.ll(F, **lik)[0]
        F0 = F.copy()
        got = model.log_likelyhood_training(F)
        ctx.check(np.array_equal(F, F0), what + ': evaluating the data fit changed the rewards passed in')
        ctx.check(abs(float(got) - want) <= 1e-6 * (1 + abs(want)),
                  '%s: log likelihood of the held data is %r, the sum over the submitted judgements is %r' % (what, float(got), want))


def fresh(make, data, dim):
    """a brand new model holding the record"""
    m = make()
    if not data.X:
        return m
    X = np.array(data.X, dtype=float)
    if dim == 0:
        X = X[:, 0]
    m.add(X, [tuple(p) for p in data.pairs], type='relative_discrete')
    e = X[:0]
    if data.ords:
        m.add(e, np.array(data.ords, dtype=int), type='ordinal')
    if data.abss:
        m.add(e, (np.array([a for a, _ in data.abss]), np.array([i for _, i in data.abss], dtype=int)), type='abs')
    return m


def prune(data):
    """drop the samples no judgement refers to"""
    used = set()
    for d, u, v in data.pairs:
        used |= {u, v}
    used |= {i for _, i in data.ords} | {i for _, i in data.abss}
    keep = [i for i in range(len(data.X)) if i in used]
    m = {o: n for n, o in enumerate(keep)}
    out = ref.Data()
    out.X = [data.X[i] for i in keep]
    out.pairs = [(d, m[u], m[v]) for d, u, v in data.pairs]
    out.ords = [(a, m[i]) for a, i in data.ords]
    out.abss = [(a, m[i]) for a, i in data.abss]
    return out, keep
