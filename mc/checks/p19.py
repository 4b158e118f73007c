"""P19: preference encodings mean the same thing everywhere."""
import itertools

import numpy as np

import lop
from mc import ref, hist
from mc.core import seeded

TECHNIQUE = 'exhaustive enumeration of all value orderings with ties on the real pair generators, likelihoods and models'
LEVEL_NOTE = 'all orderings with ties of the stated number of values on the real generators, likelihood and both preference models'
RULE = ('every assignment of levels to the values (all weak orderings and more) x value container x generator x every chosen / fixed sample x every index list; the returned comparisons are decoded and compared with the '
        'required set; every strict or weakly ordered list is handed to the likelihood and to both preference models, alone and after other judgements')
BOUNDS = {'quick': '4 levels for up to 4 values, 3 levels for 5; index lists over up to 5 indices; models on up to 4 values', 'thorough': '5 levels for up to 5 values, 3 levels for 6; models on up to 5 values'}
ASSUMPTIONS = ['distinct indices in the index list']
VAL = [-1.5, 0.0, 0.25, 2.0, 1e-9]


def cases(tier):
    t = tier == 'thorough'
    for n in range(1, 6 if t else 5):
        L = 5 if t else 4
        for f in range(L):
            yield {'kind': 'gen', 'n': n, 'first': f, 'L': L}
    for f in range(3):
        yield {'kind': 'gen', 'n': 6 if t else 5, 'first': f, 'L': 3}
    for n in range(1, 6):
        yield {'kind': 'idx', 'n': n}
    yield {'kind': 'dk'}
    for n in range(2, 6 if t else 5):
        for f in range(n):
            yield {'kind': 'model', 'n': n, 'first': f}


def run(case, ctx):
    {'gen': run_gen, 'idx': run_idx, 'dk': run_dk, 'model': run_model}[case['kind']](case, ctx)


def decode(ctx, pairs, what):
    out = []
    for p in pairs:
        ctx.check(len(p) == 3 and int(p[0]) in (-1, 1), lambda: '%s: %r is no comparison' % (what, p))
        out.append(hist.norm_pair((int(p[0]), int(p[1]), int(p[2]))))
    return out


def judge(ctx, pairs, y, need, what):
    """each needed unordered pair exactly once, winner not worse than the loser"""
    d = decode(ctx, pairs, what)
    ctx.check(sorted(tuple(sorted(p)) for p in d) == sorted(need), lambda: '%s: compares %s, required are %s' % (what, sorted(tuple(sorted(p)) for p in d), sorted(need)))
    for w, l in d:
        ctx.check(y[w] >= y[l], lambda: '%s: says %d (value %g) is better than %d (value %g)' % (what, w, y[w], l, y[l]))
    return d


def fns(y):
    """the same values as functions of differently shaped inputs"""
    n = len(y)
    yield np.arange(n, dtype=float)[:, None], lambda X, data=None: np.array([y[int(x[0])] for x in X])
    yield np.arange(n, dtype=float), lambda X, data=None: np.array([y[int(x)] for x in X])
    yield np.stack([np.arange(n), 1.0 - np.arange(n)], axis=1), lambda X, data=None: [y[int(x[0])] for x in X]


def run_gen(case, ctx):
    n = case['n']
    for rest in itertools.product(range(case['L']), repeat=n - 1):
        y = [VAL[i] for i in (case['first'],) + rest]
        allp = list(itertools.combinations(range(n), 2))
        for k, (X, f) in enumerate(fns(y)):
            X0 = X.copy()
            what = 'values %s (form %d)' % (y, k)
            a = lop.ranked_pairs_from_fake(X, f)
            judge(ctx, a, y, allp, 'ranked_pairs_from_fake of ' + what)
            b = lop.generate_ranking_pairs(X, f)
            judge(ctx, b, y, allp, 'generate_ranking_pairs of ' + what)
            for i in range(n):
                for data in (None, 'x'):
                    c = lop.generate_fake_pairs(X, f, i, data=data) if data else lop.generate_fake_pairs(X, f, i)
                    judge(ctx, c, y, [tuple(sorted((i, j))) for j in range(n) if j != i], 'generate_fake_pairs against %d of %s' % (i, what))
            ctx.check(np.array_equal(X, X0), 'the samples were changed')
            ctx.step(2 + n)
            ctx.state((tuple(y), k))
            # likelihood: agreeing rewards beat the reversed ones
            if n > 1 and max(y) - min(y) > 1e-6:
                for nm, p in (('ranked_pairs_from_fake', a), ('generate_ranking_pairs', b), ('generate_fake_pairs', lop.generate_fake_pairs(X, f, 0))):
                    if all(abs(y[int(q[1])] - y[int(q[2])]) < 1e-6 for q in p):
                        continue
                    pr = lop.PreferenceProbit(0.7)
                    F = np.array(y)
                    hi, lo = float(pr.log_likelihood(np.array(p), F)), float(pr.log_likelihood(np.array(p), -F))
                    ctx.check(hi > lo, lambda: '%s of %s: log likelihood %r of the values, %r of the reversed values' % (nm, what, hi, lo))


def run_idx(case, ctx):
    n = case['n']
    pool = [0, 1, 2, 5, 9][:n]
    for r in range(0, n + 1):
        for ids in itertools.permutations(pool, r):
            for best in set(pool) | {3}:
                for form in (list, np.array, tuple):
                    arg = form(ids) if ids else []
                    got = lop.gen_pairs_from_idx(np.int64(best) if form is np.array else best, arg)
                    d = decode(ctx, got, 'gen_pairs_from_idx(%s, %s)' % (best, ids))
                    ctx.check(sorted(d) == sorted((best, i) for i in ids if i != best), lambda: 'gen_pairs_from_idx(%s, %s): (winner, loser) %s' % (best, ids, d))
                    ctx.check(list(arg) == list(ids), 'the index list was changed')
                    ctx.step()
                ctx.state((ids, best))


def run_dk(case, ctx):
    vals = [-2.0, 0, 0.5, 1, 1e-12, -1e-12, 1e9, np.float64(0.5), np.int64(3), np.float32(0.25)]
    for u, v in itertools.product(vals, repeat=2):
        d = lop.get_dk(u, v)
        ctx.check(d in (-1, 1) and (d == -1 if u > v else d == 1 if u < v else True), lambda: 'get_dk(%r, %r) = %r' % (u, v, d))
        ctx.step()
    for u, v in itertools.permutations(range(6), 2):
        p = lop.preference(u, v)
        ctx.check(hist.norm_pair(tuple(int(x) for x in p)) == (u, v), lambda: 'preference(%d, %d) = %r' % (u, v, p))
        # and the likelihood reads it the same way
        F = np.zeros(6)
        F[u] = 1.3
        pr = lop.PreferenceProbit(0.5)
        ctx.check(float(np.ravel(pr.likelihood(np.array([p]), F))[0]) > 0.5 > float(np.ravel(pr.likelihood(np.array([p]), -F))[0]), lambda: 'likelihood of preference(%d, %d) does not favour %d' % (u, v, u))
        ctx.state((u, v))
        ctx.step()


def models(dim):
    yield 'preference GP', lop.PreferenceGP(lop.RBF_kern(0.8, 0.15, sigma_noise=0.01))
    if dim > 0:
        yield 'linear preference model', lop.PreferenceLinear()


def run_model(case, ctx):
    """rankings handed to the models: likelihood of the training data, predicted order"""
    n = case['n']
    for perm in itertools.permutations(range(n)):
        if perm[0] != case['first']:
            continue
        y = [0.6 * v for v in perm]
        X = hist.xs(2, list(range(n)))
        byx = {hist.row(x): v for x, v in zip(X, y)}
        f = lambda X, data=None: np.array([byx[hist.row(x)] for x in X])
        lists = {'ranked_pairs_from_fake': lop.ranked_pairs_from_fake(X, f), 'generate_ranking_pairs': lop.generate_ranking_pairs(X, f),
                 'generate_fake_pairs': lop.generate_fake_pairs(X, f, perm.index(n // 2)),
                 'perfect user': lop.PerfectUser(f).choose_pairs(X)}
        for nm, pairs in lists.items():
            for name, m in models(2):
                for before in (False, True):
                    m = type(m)(lop.RBF_kern(0.8, 0.15, sigma_noise=0.01)) if name == 'preference GP' else lop.PreferenceLinear()
                    base = 0
                    if before:
                        m.add(hist.xs(2, [20, 21]), [(-1, 1, 0)])
                        base = 2
                    m.add(X, pairs)
                    F = np.concatenate([[0.0, 1.0][:base], y])
                    G = np.concatenate([[0.0, 1.0][:base], [-v for v in y]])
                    hi, lo = float(m.log_likelyhood_training(F)), float(m.log_likelyhood_training(G))
                    what = '%s with %s of the values %s%s' % (name, nm, y, ' after another comparison' if before else '')
                    ctx.check(hi > lo, lambda: '%s: log likelihood %r of the values, %r of the reversed ones' % (what, hi, lo))
                    if name == 'preference GP':
                        seeded(4)
                        mu = m(X)
                        for p in pairs:
                            w, l = hist.norm_pair((int(p[0]), int(p[1]), int(p[2])))
                            ctx.check(mu[w] > mu[l], lambda: '%s: predicts %s although sample %d is said to be better than %d' % (what, mu, w, l))
                    ctx.step()
                    ctx.state((name, nm, perm, before))
