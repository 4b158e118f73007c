"""P12: score-based learners pick the best-scoring eligible candidate."""
import itertools

import numpy as np

import lop
from lop.utilities import metropolis_hastings
from mc import ref, hist, learn
from mc.core import Env, seeded
from mc.checks.p11 import arg, preferred

TECHNIQUE = 'exhaustive enumeration of score vectors, covariances, options and (random learner) every draw on the real learners, against the set of outcomes a greedy rule allows'
LEVEL_NOTE = 'all score vectors and options of the bounded grids on the real learners; the oracle enumerates every outcome the rule permits, ties included'
RULE = ('every mean vector over a 3-value grid (all rankings and ties) x variance / covariance patterns x weights x previous selections x preferences x best-first x set-aside x number asked, for best, worst, '
        'upper-confidence and generalised-variance learners on scripted predictions; random learner: the outcomes reached over every draw equal the permitted ones; the same learners on real '
        'regression GP, preference GP and linear models after submission histories; the model\'s own best-candidate choice')
BOUNDS = {'quick': 'up to 4 candidates over 3 values, 4 covariance patterns, 4 weights, all previous selections of <= 2; 33 candidates in structured orders',
          'thorough': 'up to 5 candidates over 3 values (4 over 4), 6 covariance patterns, 5 weights, all previous selections'}
ASSUMPTIONS = ['finite scores, positive semi-definite covariances; tolerance 1e-9 for ties']
VALS = [0.1, 0.25, 0.9, -0.4]


def cov_pat(p, n):
    i = np.arange(n)
    if p == 0:
        return np.diag(0.2 + 0.3 * ((i * 2 + 1) % 3))
    if p == 1:
        return np.eye(n) * 0.5
    if p == 2:                                  # neighbours strongly correlated
        return 0.8 * np.exp(-np.abs(i[:, None] - i[None, :]) * 0.15) + 0.01 * np.eye(n)
    if p == 3:
        B = np.array([[1.0 + 0.6 * ((a * 3 + b * 5) % 4) if a >= b else 0.0 for b in range(n)] for a in range(n)])
        return 0.1 * B @ B.T
    if p == 4:                                  # degenerate: the first two are the same variable
        C = np.diag(0.4 + 0.1 * i)
        if n > 1:
            C[0, 1] = C[1, 0] = C[1, 1] = C[0, 0]
        return C
    return np.diag(np.where(i % 2 == 0, 4.0, 0.01))


def cases(tier):
    t = tier == 'thorough'
    for L in ('Best', 'Worst', 'UCB', 'GV'):
        for n in range(1, (5 if t else 4) + 1):
            vals = VALS[:4] if t and n <= 4 else VALS[:3]
            for lead in itertools.product(range(len(vals)), repeat=min(n, 2)):
                for p in ((0,) if L in ('Best', 'Worst') else range(6 if t else 4) if L == 'GV' else (0, 1, 5)):
                    yield {'kind': 'table', 'L': L, 'n': n, 'lead': list(lead), 'nv': len(vals), 'cov': p}
    for n in range(1, 5):
        for r in range(0, n + 1):
            for prev in itertools.combinations(range(n), r):
                yield {'kind': 'random', 'n': n, 'prev': list(prev)}
    for model in ('reg', 'pref', 'lin'):
        for h in range(5):
            for L in ('Best', 'Worst', 'UCB', 'GV'):
                yield {'kind': 'real', 'model': model, 'h': h, 'L': L}
    for L in ('Best', 'Worst', 'UCB', 'GV'):
        for k in range(6):
            yield {'kind': 'many', 'L': L, 'k': k}


def build(L, alpha, **kw):
    return {'Best': lambda: lop.BestLearner(**kw), 'Worst': lambda: lop.WorstLearner(**kw), 'Random': lambda: lop.RandomLearner(**kw),
            'UCB': lambda: lop.UCBLearner(alpha, **kw), 'GV': lambda: lop.GV_UCBLearner(alpha, **kw)}[L]()


def scorer(L, mu, C, alpha):
    if L == 'Random':
        return lambda i, chosen: 0.0
    if L == 'Best':
        return lambda i, chosen: mu[i]
    if L == 'Worst':
        return lambda i, chosen: -mu[i]
    if L == 'UCB':
        return lambda i, chosen: mu[i] + alpha * np.sqrt(C[i, i])

    def gv(i, chosen):
        S = sorted(chosen) + [i]
        d = np.linalg.det(C[np.ix_(S, S)])
        return mu[i] + alpha * max(d, 0.0) ** (1.0 / len(S))

    def err(i, chosen):                        # rounding of the determinant, seen through the root
        S = sorted(chosen) + [i]
        d = np.linalg.det(C[np.ix_(S, S)])
        e = 1e-13 * len(S) * float(np.prod(np.diag(C)[S]))
        return alpha * (max(d + e, 0.0) ** (1.0 / len(S)) - max(d - e, 0.0) ** (1.0 / len(S)))
    gv.err = err
    return gv


def permitted(n, k, prev, P, mu, score, best_first, setaside, tol):
    """set of (selection, set aside, last score) the greedy rule allows"""
    out = set()
    left0 = [i for i in range(n) if i not in prev]
    memo = {}

    def top(ids, chosen):
        s = []
        for i in ids:
            key = (i, frozenset(chosen))
            if key not in memo:
                memo[key] = (score(i, chosen), score.err(i, chosen) if hasattr(score, 'err') else 0.0)
            s.append(memo[key])
        m = max(v - e for v, e in s)
        return [(i, (v, e)) for i, (v, e) in zip(ids, s) if v + e >= m - tol]

    def go(sel, aside, last):
        if len(sel) >= k:
            out.add((tuple(sel), tuple(aside), last))
            return
        used = set(sel)
        pl = [i for i in left0 if i in P and i not in used]
        rest = [i for i in left0 if i not in used and i not in aside]
        chosen = set(prev) | used
        if not setaside:
            for i, v in top(pl or rest, chosen):
                go(sel + [i], aside, v)
        elif not pl and aside:
            go(sel + [aside[0]], aside[1:], last)
        elif rest:
            for i, v in top(rest, chosen):
                if i in P or not pl:
                    go(sel + [i], aside, v)
                else:
                    go(sel, aside + [i], v)
    if best_first and not prev:
        pool = [i for i in left0 if i in P] or left0
        m = max(mu[i] for i in pool)
        for i in pool:
            if mu[i] >= m:
                go([i], [], None)
    else:
        go([], [], None)
    return out


def judge(ctx, L, learner, val, allowed, setaside, what, tol):
    sel = tuple(int(i) for i in (val[0] if setaside else val))
    aside = tuple(int(i) for i in val[1]) if setaside else ()
    ok = [a for a in allowed if a[0] == sel and a[1] == aside]
    ctx.check(ok, lambda: '%s: selected %s, set aside %s; the rule allows %s' % (what, sel, aside, sorted(set((a[0], a[1]) for a in allowed))[:6]))
    last = [a[2] for a in ok if a[2] is not None]
    if last and L != 'Random':
        m = float(learner.sel_metric)
        ctx.check(any(abs(m - v) <= 1e-7 + tol + e or (L == 'Worst' and abs(m + v) <= 1e-7 + tol) for v, e in last), lambda: '%s: reports score %r, the pick scores %s' % (what, m, last))
    ctx.outcome((sel, aside))
    ctx.step()


PREFS = [['none'], ['int', 1], ['set', [1, 3]], ['list', [2]], ['pareto']]


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_table(case, ctx):
    n, L = case['n'], case['L']
    X = learn.cands(n)
    C = cov_pat(case['cov'], n)
    vals = VALS[:case['nv']]
    alphas = (1.0,) if L in ('Best', 'Worst') else (0.0, 0.5, 2.0, 5.0) if ctx.tier != 'thorough' else (0.0, 0.3, 1.0, 2.0, 5.0)
    c = case['cov'] + sum(case['lead'])
    for tail in itertools.product(range(len(vals)), repeat=n - len(case['lead'])):
        mu = [vals[i] for i in list(case['lead']) + list(tail)]
        model = learn.TabGP(learn.Table(X, mu, C)) if c % 2 else learn.TabPref(learn.Table(X, mu, C))
        for r in range(0, min(n, 2) if ctx.tier != 'thorough' else n):
            for prev in itertools.combinations(range(n), r):
                c += 1
                alpha = alphas[c % len(alphas)]
                score = scorer(L, mu, C, alpha)
                spec = PREFS[(c // 3) % len(PREFS)]
                if spec[0] in ('set', 'list'):
                    spec = [spec[0], [i for i in spec[1] if i < n]]
                for best, aside in itertools.product((False, True), (False, True)):
                    P = preferred(spec, X, False)
                    for k in range(1, n - len(prev) + 1):
                        learner = build(L, alpha, always_select_best=best)
                        learner.set_model(model)
                        val = learner.select(X, k, list(prev), arg(spec), aside)
                        allowed = permitted(n, k, set(prev), P, mu, score, best, aside, 1e-9)
                        judge(ctx, L, learner, val, allowed, aside, '%s learner, means %s, covariance pattern %d, weight %g, asked %d, previous %s, prefer %s, best_first=%s, set_aside=%s' %
                              (L, mu, case['cov'], alpha, k, prev, spec, best, aside), 1e-9)
        ctx.state((L, tuple(mu), case['cov']))


def run_random(case, ctx):
    n, prev = case['n'], case['prev']
    X = learn.cands(n)
    mu = [0.3, 0.1, 0.3, 0.2][:n]
    model = learn.TabGP(learn.Table(X, mu, np.eye(n)))
    for spec in PREFS + [['int', 2], ['set', []]]:
        if spec[0] in ('set', 'list'):
            spec = [spec[0], [i for i in spec[1] if i < n]]
        if spec[0] == 'int' and spec[1] > n:
            continue
        P = preferred(spec, X, False)
        for best, aside in itertools.product((False, True), (False, True)):
            for k in range(1, n - len(prev) + 1):
                allowed = permitted(n, k, set(prev), P, mu, lambda i, ch: 0.0, best, aside, 0.5)
                if best and not prev:
                    # the first of equally good candidates may always be the same one
                    pass
                reach = set()
                what = 'random learner, %d candidates, asked %d, previous %s, prefer %s, best_first=%s, set_aside=%s' % (n, k, prev, spec, best, aside)

                def body(ch):
                    learner = lop.RandomLearner(always_select_best=best)
                    learner.set_model(model)
                    # uniform draws whose multiples by 1, 2, 3 and 4 reach every integer below
                    with Env(ch, u=(0.05, 0.4, 0.6, 0.9), orders=True):
                        val = learner.select(X, k, list(prev), arg(spec), aside)
                    judge(ctx, 'Random', learner, val, allowed, aside, what, 0)
                    reach.add((tuple(int(i) for i in (val[0] if aside else val)), tuple(int(i) for i in val[1]) if aside else ()))
                ctx.explore(body)
                firsts = {r[0][0] for r in reach}
                want = {(a[0], a[1]) for a in allowed if not (best and not prev) or a[0][0] in firsts}
                ctx.check(reach >= want, lambda: '%s: no draw gives %s' % (what, sorted(want - reach)[:4]))
                ctx.state((n, tuple(prev), str(spec), best, aside, k))


def real_model(kind, h, learner):
    if kind == 'reg':
        m = lop.GP(lop.RBF_kern(0.6, 0.5), active_learner=learner)
        if h:
            m.add(hist.xs(2, range(3 + h)), np.array([0.1, 0.8, -0.3, 0.5, 0.9, -0.6, 0.2])[:3 + h])
        if h > 2:
            m.add(hist.xs(2, [12, 13]), np.array([0.4, -0.2]), training_sigma=0.2)
        return m
    if kind == 'pref':
        m = lop.PreferenceGP(lop.RBF_kern(0.6, 0.5), active_learner=learner)
        if h:
            m.add(hist.xs(2, range(4)), [(-1, 0, 1), (1, 2, 3), (-1, 3, 0)][:h])
        if h > 2:
            m.add(hist.xs(2, [12, 13]), np.array([0.4, 0.8]), type='abs')
        return m
    m = lop.PreferenceLinear(active_learner=learner)
    X = hist.xs(2, range(5))
    m.add(X, [(-1, 0, 1), (-1, 0, 1), (1, 0, 1), (-1, 2, 3), (-1, 2, 3), (1, 2, 3), (-1, 4, 3), (1, 4, 3)][:5 + h] if h else [(-1, 0, 1), (1, 0, 1), (-1, 2, 3), (1, 2, 3)])
    if h > 3:
        m.add(hist.xs(2, [12, 13]), [(-1, 0, 1), (1, 0, 1), (-1, 0, 1)])
    return m


def run_real(case, ctx):
    L, kind = case['L'], case['model']
    X = learn.cands(6)
    n = 6
    for alpha in ((0.8, 0.0) if L in ('UCB', 'GV') else (1.0,)):
        for best, aside in itertools.product((False, True), (False, True)):
            for prev, spec, k in (([], ['none'], 3), ([4], ['int', 2], 3), ([], ['pareto'], 2), ([1, 2], ['set', [0, 5]], 2), ([], ['list', [3, 1]], 4)):
                if kind == 'lin' and L in ('UCB', 'GV') and (k > 3 or (alpha == 0 and aside)):
                    continue
                learner = build(L, alpha, always_select_best=best)
                m = real_model(kind, case['h'], learner)
                seeded(5)
                mu, _ = m.predict(X)
                mu = np.array(mu)
                ctx.check(mu[int(m.select_best(X))] == max(mu), lambda: 'the model names %s its best candidate of %s' % (m.select_best(X), mu))
                m.predict(X)
                what = '%s learner on a real %s model (data %d), weight %g, asked %d, previous %s, prefer %s, best_first=%s, set_aside=%s' % (L, kind, case['h'], alpha, k, prev, spec, best, aside)
                P = preferred(spec, X, False)
                if kind == 'lin' and L in ('UCB', 'GV'):
                    # each greedy step draws its own weights; the same draws are replayed here
                    seeded(31)
                    val = m.select(X, k, list(prev), arg(spec), aside)
                    seeded(31)
                    memo = {}

                    def score(i, chosen):
                        key = frozenset(chosen)
                        if key not in memo:
                            w = metropolis_hastings(m.loss_func, 200, dim=2)
                            memo[key] = np.cov((X @ w.T)), np.var(X @ w.T, axis=1)
                        C, var = memo[key]
                        return scorer('UCB', mu, np.diag(var), alpha)(i, chosen) if L == 'UCB' else scorer('GV', mu, C, alpha)(i, chosen)
                    if aside:
                        continue
                    tol = 1e-4 if L == 'GV' else 1e-9        # the covariance of more candidates than dimensions is singular
                    allowed = permitted(n, k, set(prev), P, mu, score, best, aside, tol)
                    judge(ctx, L, learner, val, allowed, aside, what, tol)
                else:
                    C = np.array(m.cov) if kind != 'lin' else np.eye(n)
                    val = m.select(X, k, list(prev), arg(spec), aside)
                    allowed = permitted(n, k, set(prev), P, mu, scorer(L, mu, C, alpha), best, aside, 1e-7)
                    judge(ctx, L, learner, val, allowed, aside, what, 1e-7)
                ctx.state((case, alpha, best, aside, k))


def run_many(case, ctx):
    n, L, k = 33, case['L'], case['k']
    X = learn.cands(n)
    mu = [0.02 * ((i * (4 + 3 * k) + k) % 37) for i in range(n)]
    C = cov_pat(k % 4, n) + (2.0 * np.eye(n) if k % 4 == 3 else 0.0)
    model = learn.TabGP(learn.Table(X, mu, C))
    for prev, spec, asked in (([], ['none'], 4), ([16, 32], ['int', 17], 3), ([0, 1, 2], ['pareto'], 6), (list(range(1, 32)), ['set', [32]], 2)):
        for aside in (False, True):
            learner = build(L, 0.5)
            learner.set_model(model)
            val = learner.select(X, asked, list(prev), arg(spec), aside)
            allowed = permitted(n, asked, set(prev), preferred(spec, X, False), mu, scorer(L, mu, C, 0.5), False, aside, 1e-9)
            judge(ctx, L, learner, val, allowed, aside, '%s learner, 33 candidates (pattern %d), asked %d, previous %s, prefer %s, set_aside=%s' % (L, k, asked, prev, spec, aside), 1e-9)
            ctx.state((case, asked, aside))
