"""P22: cross-validation folds partition the samples and keep their judgements."""
import itertools

import numpy as np

import lop
from mc.core import Env

TECHNIQUE = 'exhaustive exploration of every random draw of the fold construction for all small comparison graphs, and of every index list of the restriction, on the real functions'
LEVEL_NOTE = 'all graphs, fold counts and draws within the bounds (every answer of every draw; beyond 6 samples a bounded number of non-default answers); all index lists of up to 5 samples'
RULE = ('(a) sample counts x fold counts x comparison graphs (all graphs on 4 samples, structured and repeated ones on more) x label containers x every answer of the draws; (b) every ordered index list of up to 4-5 '
        'samples x judgement sets of every type (repeats, both directions, unrated samples) x containers; (c) folds and restrictions chained as the hyperparameter search uses them')
BOUNDS = {'quick': 'graphs: all 64 on 4 samples, 14 structured ones on 2-13 samples, fold counts 1-8; draws exhaustive up to 5 samples, 2 deviations beyond; index lists of up to 4 samples, 24 judgement sets',
          'thorough': 'graphs: all 64 on 4 and 1024 on 5 samples (first 6 draws), 14 structured ones on 2-16 samples; draws exhaustive up to 6 samples, 3 deviations beyond; index lists of up to 5 samples, 60 judgement sets'}
ASSUMPTIONS = ['comparisons are between different samples; index lists hold no index twice']


def graphs(n):
    e = list(itertools.combinations(range(n), 2))
    yield 'none', []
    yield 'path', [(i, i + 1) for i in range(n - 1)]
    yield 'star', [(0, i) for i in range(1, n)]
    yield 'instar', [(i, n - 1) for i in range(n - 1)]
    yield 'full', e
    yield 'twice', [(i, i + 1) for i in range(n - 1)] * 2 + [(i + 1, i) for i in range(n - 1)]
    yield 'halves', [p for p in e if (p[0] < n // 2) == (p[1] < n // 2)]
    yield 'one', [(n - 1, 0)] if n > 1 else []


def cases(tier):
    t = tier == 'thorough'
    for g in range(64):
        for k in (1, 2, 3):
            yield {'kind': 'fold', 'n': 4, 'g': g, 'k': k, 'dev': None}
    for n in list(range(2, 17 if t else 14)):
        for gi, (nm, _) in enumerate(graphs(n)):
            for k in range(1, 9):
                if n > 8 and not t and (gi + k + n) % 2:
                    continue
                full = n <= (6 if t else 5)
                yield {'kind': 'fold', 'n': n, 'g': nm, 'k': k, 'dev': None if full and nm != 'full' else (3 if t and n < 10 else 2 if n < 9 else 1)}
    if t:
        for g in range(1024):
            for k in (2, 3):
                yield {'kind': 'fold', 'n': 5, 'g': g, 'k': k, 'dev': 2}
    for n in range(1, 6 if t else 5):
        for c in range(60 if t else 24):
            yield {'kind': 'idx', 'n': n, 'c': c}
    for n in (4, 5, 7, 9):
        for c in range(8):
            yield {'kind': 'chain', 'n': n, 'c': c}


def pairs_of(case):
    n, g = case['n'], case['g']
    if isinstance(g, str):
        return dict(graphs(n))[g]
    e = list(itertools.combinations(range(n), 2))
    return [p if (g + i) % 3 else p[::-1] for i, p in enumerate(e) if g >> i & 1]


def run(case, ctx):
    {'fold': run_fold, 'idx': run_idx, 'chain': run_chain}[case['kind']](case, ctx)


def check_folds(ctx, folds, n, k, what):
    kk = k if k <= n // 2 else n // 2
    if k > n // 2 and kk < 2:
        ctx.check(folds is None, lambda: '%s: %s although there are too few samples' % (what, folds))
        return
    ctx.check(folds is not None and len(folds) == kk, lambda: '%s: folds %s, expected %d' % (what, folds, kk))
    flat = [int(i) for f in folds for i in f]
    ctx.check(sorted(flat) == list(range(n)), lambda: '%s: the folds %s are no partition of the %d samples' % (what, folds, n))
    s = [len(f) for f in folds]
    ctx.check(min(s) > 0 and max(s) - min(s) <= 1, lambda: '%s: unbalanced folds %s' % (what, folds))


def run_fold(case, ctx):
    n, k = case['n'], case['k']
    P = [(-1 if i % 2 else 1, u, v) for i, (u, v) in enumerate(pairs_of(case))]
    X = np.arange(2.0 * n).reshape(n, 2) if n % 2 else np.arange(1.0 * n)
    for form in (0, 1):
        ctx.state((case, form))

        def body(ch):
            y0 = None if not P else [tuple(p) for p in P] if form else np.array(P)
            y = [y0, (np.array([1, 2]), np.array([0, n - 1])) if form else None, None]
            keep = None if y0 is None else np.array(y0)
            with Env(ch, max_enum=6 if n <= 5 else 4):
                folds = lop.k_fold_x_y(X, y, k)
            what = '%d folds of %d samples with comparisons %s' % (k, n, [p[1:] for p in P])
            check_folds(ctx, folds, n, k, what)
            ctx.check(keep is None or np.array_equal(np.array(y[0]), keep), what + ': the judgements were changed')
            ctx.outcome((n, k, str(folds)))
            ctx.step()
        ctx.explore(body, max_dev=case['dev'] if form == 0 else 1, max_paths=30000)


def judgements(n, c):
    """a deterministic judgement set of all types"""
    P = [(-1 if (c + i) % 3 else 1, (i * (1 + c % 3)) % n, (i * (1 + c % 2) + 1 + c % max(n - 1, 1)) % n) for i in range(c % 5)]
    P = [p for p in P if p[1] != p[2]]
    if c % 4 == 1 and P:
        P = P + [P[0], (-P[0][0], P[0][1], P[0][2])]
    O = [(1 + (c + i) % 5, (i * (c % 3 + 1) + c) % n) for i in range((c // 2) % 4)]
    A = [(0.1 + 0.07 * ((c + 3 * i) % 11), (2 * i + c) % n) for i in range((c // 3) % 4)]
    return P, O, A


def as_y(P, O, A, form):
    y = [None, None, None]
    if P:
        y[0] = np.array(P) if form != 1 else [np.array(p) for p in P]
    if O:
        y[1] = (np.array([a for a, _ in O]), np.array([i for _, i in O]))
    if A:
        y[2] = (np.array([a for a, _ in A]), np.array([i for _, i in A]))
    return y


def read_y(y):
    P = [] if y[0] is None else [tuple(int(v) for v in p) for p in y[0]]
    out = [P]
    for t in (1, 2):
        out.append([] if y[t] is None else [(round(float(a), 9), int(i)) for a, i in zip(y[t][0], y[t][1])])
        if y[t] is not None:
            assert len(y[t][0]) == len(y[t][1])
    return out


def check_restrict(ctx, y, P, O, A, ids, got, what):
    pos = {int(i): t for t, i in enumerate(ids)}
    want = [[(d, pos[u], pos[v]) for d, u, v in P if u in pos and v in pos], [(round(float(a), 9), pos[i]) for a, i in O if i in pos], [(round(float(a), 9), pos[i]) for a, i in A if i in pos]]
    r = read_y(got)
    for nm, g, w in zip(('comparisons', 'category ratings', 'bounded ratings'), r, want):
        ctx.check(sorted(g) == sorted(w), lambda: '%s: %s %s, expected %s' % (what, nm, sorted(g), sorted(w)))


def run_idx(case, ctx):
    n, c = case['n'], case['c']
    P, O, A = judgements(n, c) if n > 1 else ([], [(2, 0)] * (c % 3), [(0.4, 0)] * (c % 2))
    for r in range(0, n + 1):
        for ids in itertools.permutations(range(n), r):
            for form in (0, 1, 2):
                y = as_y(P, O, A, form)
                arg = list(ids) if form == 0 else np.array(ids, dtype=int) if form == 1 else tuple(ids)
                before = read_y(y)
                got = lop.get_y_with_idx(y, arg)
                what = 'judgements %s / %s / %s of %d samples restricted to %s' % (P, O, A, n, ids)
                check_restrict(ctx, y, P, O, A, ids, got, what)
                ctx.check(read_y(y) == before, what + ': the judgements passed in were changed')
                ctx.step()
            ctx.state((n, c, ids))


def run_chain(case, ctx):
    """each fold and its complement together hold every judgement within a side, renumbered"""
    n, c = case['n'], case['c'] * 7 + 4
    P, O, A = judgements(n, c)
    X = np.arange(2.0 * n).reshape(n, 2)

    def body(ch):
        y = as_y(P, O, A, 0)
        with Env(ch, max_enum=4):
            folds = lop.k_fold_x_y(X, y, 2 + c % 2)
        check_folds(ctx, folds, n, 2 + c % 2, 'folds of %d samples' % n)
        for f in folds or []:
            rest = [i for i in range(n) if i not in f]
            for ids in (f, rest):
                got = lop.get_y_with_idx(y, ids)
                check_restrict(ctx, y, P, O, A, ids, got, 'fold side %s' % (ids,))
                for t, r in enumerate(read_y(got)):
                    for j in r:
                        for i in (j[1:] if t == 0 else j[1:2]):
                            ctx.check(0 <= i < len(ids), 'a judgement refers to no sample of its fold')
            ctx.step()
        ctx.state((n, c, str(folds)))
    ctx.explore(body, max_dev=2, max_paths=3000)
