"""P20: Pareto fronts and Pareto comparisons are exact."""
import collections
import itertools

import numpy as np

import lop
from lop.utilities import get_pareto
from mc import ref, hist

TECHNIQUE = 'exhaustive enumeration of small candidate sets and of their submission in batches on the real code, against the quadratic definition'
LEVEL_NOTE = 'all candidate lists on the grids and all batchings within the bounds are executed on the real code'
RULE = ('front: every list of up to n points on integer grids in 1-4 dimensions (all orders, duplicates, ties), as indices and as mask, plus structured sets of 16..64 points; '
        'model: every list of samples on the grids x every division into batches x judgement type per batch (comparisons, categories, ratings, none, a reset in between) for both '
        'preference models: the comparisons held after every batch are the submitted ones plus one per strictly dominated ordered pair')
BOUNDS = {'quick': 'fronts: 5 points on 3x3, 4 on 4x4 and 2x2x2, 5 on a line of 4, 4 on 2^4; models: 4 samples on 2x2, 3 on 3x3 and 2^3, 4 on a line of 3, all batchings',
          'thorough': 'fronts: 6 points on 3x3, 5 on 4x4 and 2x2x2, 6 on a line of 4; models: 4 samples on 3x3, 4 on 2^3, 5 on a line of 3, all batchings'}
ASSUMPTIONS = ['finite coordinates']
VAL = np.array([-0.5, 0.25, 0.3, 2.0])


def grid(d, g):
    return list(itertools.product(range(g), repeat=d))


def cases(tier):
    t = tier == 'thorough'
    for d, g, n in ((1, 4, 6 if t else 5), (2, 3, 6 if t else 5), (2, 4, 5 if t else 4), (3, 2, 5), (3, 3, 4 if t else 3), (4, 2, 4)):
        for m in range(0, n + 1):
            pts = grid(d, g)
            lead = min(2, m)
            for head in itertools.product(range(len(pts)), repeat=lead):
                yield {'kind': 'front', 'd': d, 'g': g, 'n': m, 'head': list(head)}
    for n in (16, 33, 64):
        for d in (2, 3, 4):
            for k in range(8):
                yield {'kind': 'big', 'n': n, 'd': d, 'k': k}
    k = 0
    for d, g, n in ((2, 2, 4), (2, 3, 4 if t else 3), (3, 2, 4 if t else 3), (1, 3, 5 if t else 4), (0, 3, 4)):
        pts = grid(max(d, 1), g)
        for m in range(1, n + 1):
            for head in itertools.product(range(len(pts)), repeat=min(m, 2)):
                k += 1
                yield {'kind': 'model', 'd': d, 'g': g, 'n': m, 'head': list(head), 'k': k}
    for n in (12, 17, 33):
        for d in (2, 3):
            for sp in range(6):
                yield {'kind': 'bigmodel', 'n': n, 'd': d, 'sp': sp}


def check_front(ctx, V, what):
    V0 = V.copy()
    idx = get_pareto(V)
    mask = get_pareto(V, return_mask=True)
    n = len(V)
    rows = [tuple(r) for r in V.tolist()]
    und = [i for i in range(n) if not any(ref.dominates(rows[j], rows[i]) for j in range(n))]
    got = [int(i) for i in idx]
    ctx.check(np.array_equal(V, V0), what + ': the candidates were changed')
    ctx.check(len(set(got)) == len(got) and all(0 <= i < n for i in got), lambda: '%s: front indices %s' % (what, got))
    ctx.check(set(got) <= set(und), lambda: '%s: front %s contains the dominated candidates %s' % (what, got, sorted(set(got) - set(und))))
    ctx.check(sorted(rows[i] for i in got) == sorted(set(rows[i] for i in und)), lambda: '%s: front is %s, undominated are %s' % (what, got, und))
    mask = np.asarray(mask)
    ctx.check(mask.shape == (n,) and mask.dtype == bool, lambda: '%s: mask %s' % (what, mask))
    ctx.check([i for i in range(n) if mask[i]] == sorted(got), lambda: '%s: mask %s, indices %s' % (what, mask, got))
    ctx.step(2)
    ctx.outcome(tuple(got))


def strict_pairs(X):
    return [(-1, i, j) for i in range(len(X)) for j in range(len(X)) if i != j and ref.strictly_better(X[i], X[j])]


def submit(ctx, model, rows, sizes, kinds, d, what):
    """submit rows in batches; after each batch compare the comparisons held"""
    X, sub, at = [], [], 0
    A, O = [], []
    for b, (sz, kind) in enumerate(zip(sizes, kinds)):
        part = rows[at:at + sz]
        base = len(X)
        arr = np.array(part, dtype=float)
        arr = arr[:, 0] if d == 0 else arr
        if kind == 'R':
            model.reset()
            X, sub, A, O, base = [], [], [], [], 0
            kind = 'p'
        if kind == 'p':
            lab = [((-1) ** b, i, (i + 1) % sz) for i in range(sz)] if sz > 1 else []
            model.add(arr, [tuple(q) for q in lab])
            sub += [(c, u + base, v + base) for c, u, v in lab]
        elif kind == 'a':
            model.add(arr, np.full(sz, 0.4), type='abs')
            A += [(0.4, base + i) for i in range(sz)]
        elif kind == 'o':
            model.add(arr, [2] * sz, type='ordinal')
            O += [(2, base + i) for i in range(sz)]
        else:
            model.add(arr, [])
        X += part
        at += sz
        h = hist.held(model)
        got = collections.Counter(hist.norm_pair(q) for q in h.pairs)
        want = collections.Counter(hist.norm_pair(q) for q in sub + strict_pairs(X))
        ctx.check(got == want, lambda: '%s, after batch %d: missing comparisons (winner, loser) %s, unexpected %s' % (what, b, dict(want - got), dict(got - want)))
        ctx.check([hist.row(x) for x in h.X] == [tuple(map(float, x)) for x in X], lambda: what + ': samples %s' % (h.X,))
        ctx.check(sorted(h.abss) == sorted(A) and sorted(h.ords) == sorted(O), lambda: what + ': ratings %s %s' % (h.abss, h.ords))
        ctx.step()


def make(k):
    return lop.PreferenceGP(lop.RBF_kern(0.5, 0.7), pareto_pairs=True) if k % 2 else lop.PreferenceLinear(pareto_pairs=True)


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], 1
        for c in cut:
            if c:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


def run(case, ctx):
    kind = case['kind']
    if kind == 'front':
        pts = grid(case['d'], case['g'])
        for tail in itertools.product(range(len(pts)), repeat=case['n'] - len(case['head'])):
            sel = list(case['head']) + list(tail)
            V = VAL[np.array([pts[i] for i in sel], dtype=int).reshape(len(sel), case['d'])]
            check_front(ctx, V, 'candidates %s' % V.tolist())
            ctx.state((case['d'], case['g'], tuple(sel)))
    elif kind == 'big':
        n, d, k = case['n'], case['d'], case['k']
        i = np.arange(n)
        V = np.stack([((i * (7 + 2 * k + 4 * j) + 3 * j * i * i + k) % (11 + 5 * j)) for j in range(d)], axis=1).astype(float)
        check_front(ctx, V, 'structured candidates %s' % case)
        check_front(ctx, V[::-1].copy(), 'reversed structured candidates %s' % case)
        ctx.state(('big', n, d, k))
    elif kind == 'model':
        d, n = case['d'], case['n']
        pts = grid(max(d, 1), case['g'])
        c = case['k']
        for tail in itertools.product(range(len(pts)), repeat=n - len(case['head'])):
            rows = [tuple(float(VAL[v]) for v in pts[i]) for i in list(case['head']) + list(tail)]
            for sizes in compositions(n):
                c += 1
                kinds = ['pnaopRn'[(c + 3 * b) % 7] for b in range(len(sizes))]
                submit(ctx, make(c), rows, sizes, kinds, d, 'samples %s in batches %s of types %s' % (rows, sizes, kinds))
                ctx.state((d, tuple(rows), tuple(sizes), tuple(kinds)))
    else:
        n, d, sp = case['n'], case['d'], case['sp']
        i = np.arange(n)
        V = np.stack([((i * (5 + 4 * j) + j * i * i + sp) % (7 + 6 * j)) for j in range(d)], axis=1).astype(float)
        rows = [tuple(r) for r in V.tolist()]
        sizes = [[n], [n - 1, 1], [1, n - 1], [n // 2, n - n // 2], [3] * (n // 3) + ([n % 3] if n % 3 else []), [1] * n][sp]
        kinds = ['pnao'[(sp + b) % 4] for b in range(len(sizes))]
        submit(ctx, make(sp), rows, sizes, kinds, d, '%d structured samples in batches %s of types %s' % (n, sizes, kinds))
        ctx.state((n, d, sp))
