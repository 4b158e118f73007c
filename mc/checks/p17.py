"""P17: synthetic users answer according to their utility."""
import itertools
import math

import numpy as np

import lop
from mc.core import Env, raises

TECHNIQUE = 'exhaustive enumeration of reward assignments, scale settings and every answer of the random draws on the real users; choice probabilities measured by exploring the whole draw tree'
LEVEL_NOTE = 'all reward orderings and magnitudes of the alphabet and every branch of the random draw on the real code; the reference is the closed formula'
RULE = ('every assignment of the reward levels (ties and extreme magnitudes included) to 1-4 options x scale settings x user type x every answer of the choice draw / every noise value of the rating draw; '
        'probability helper on single queries and batches; sequences choose/rate/choose_pairs on one user object')
BOUNDS = {'quick': '7 reward levels on up to 3 options and 4 levels on 4, 7 scale settings, 5 noise values, 6 utilities; the perfect user on all assignments of 14 levels to 2-3 options',
          'thorough': '9 reward levels on up to 4 options, 12 scale settings, 9 noise values, 6 utilities; the perfect user on all assignments of 14 levels to 2-4 options'}
ASSUMPTIONS = ['finite utilities']
LEV = [-1.0, 0.0, 0.4, 0.4000001, 1.0, 25.0, -400.0]
LEV_T = LEV + [3.0, 900.0]
BIG = [-1e6, -400.5, -400.0, -60.0, -3e-9, 0.0, 1e-9, 0.4, 0.4000001, 25.0, 25.001, 61.0, 900.0, 1e6]
SET = [(1.0, 1.0, 4.0, 0.0), (0.01, 0.3, 4.0, 0.0), (12.0, 0.0, 4.0, 0.0), (150.0, 2.0, 4.0, 0.0), (1.0, 0.7, 0.9, -1.3), (3.0, 1.0, 11.0, 2.5), (0.5, 0.05, 0.02, -2.0)]
SET_T = SET + [(0.0, 1.0, 4.0, 0.0), (200.0, 0.001, 1.7, 0.4), (1.0, 5.0, 40.0, -3.0), (7.0, 0.2, 4.4, -2.2), (2.0, 0.4, 0.0, 1.0)]
Z = (-3.0, -1.0, 0.0, 0.6, 2.5)


def cases(tier):
    t = tier == 'thorough'
    lev = LEV_T if t else LEV
    for n in (1, 2, 3, 4):
        m = lev if n < 4 or t else LEV[:4]
        for first in range(len(m)):
            for s in range(len(SET_T if t else SET)):
                yield {'kind': 'choose', 'n': n, 'first': first, 'lev': len(m), 'set': s}
    for first in range(len(BIG)):
        yield {'kind': 'perfect', 'first': first, 'n': 4 if t else 3}
    for s in range(len(SET_T if t else SET)):
        yield {'kind': 'rate', 'set': s}
        yield {'kind': 'prob', 'set': s}
        yield {'kind': 'util', 'set': s}
        yield {'kind': 'seq', 'set': s}


class First:
    """utility: the first reward dimension"""

    def __call__(self, r, data=None):
        r = np.asarray(r, dtype=float)
        return r[..., 0]


def softmax(y):
    y = np.asarray(y, dtype=float)
    e = np.exp(y - y.max())
    return e / e.sum()


def logistic(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


def user(cls, s, f=None):
    beta, sigma, k, b = SET_T[s]
    u = getattr(lop, cls)(f or First(), beta=beta, sigma=sigma)
    u.k, u.b = k, b
    return u


def noise(env):
    """the standard normal values behind the Gaussian draws, in order"""
    return [float(v) for e in env.log if e[0] == 'normal' for v in e[4]]


def rewards(vals):
    return np.array([[v, 0.3 * i - 0.2] for i, v in enumerate(vals)], dtype=float)


def measure(ctx, body_of, K=64):
    """distribution over outcomes of a randomised call, by exploring its draw tree with probability weights"""
    dist = {}

    def body(ch):
        with Env(ch, u=tuple((i + 0.5) / K for i in range(K)), z=Z) as env:
            out = body_of()
        w, ps = 1.0, [e for e in env.log if e[0] == 'choice_p']
        for (n, c, lab) in ch.points:
            if lab.startswith('choice') and ps:
                p = ps.pop(0)[2]
                w *= p[np.flatnonzero(p > 0)[c]]
            else:
                w /= n
        dist[out] = dist.get(out, 0.0) + w
        ctx.step()
    n = ctx.explore(body)
    return dist, 1e-9 if n <= 8 else 1.5 / K


def run(case, ctx):
    {'choose': run_choose, 'perfect': run_perfect, 'rate': run_rate, 'prob': run_prob, 'util': run_util, 'seq': run_seq}[case['kind']](case, ctx)


def run_choose(case, ctx):
    lev = LEV_T[:case['lev']] if case['lev'] > len(LEV) else LEV[:case['lev']]
    beta, sigma, k, b = SET_T[case['set']]
    for rest in itertools.product(lev, repeat=case['n'] - 1):
        vals = (lev[case['first']],) + rest
        R = rewards(vals)
        keep = R.copy()
        best = [i for i, v in enumerate(vals) if v == max(vals)]
        if case['set'] == 0:
            pu = lop.PerfectUser(First())
            i = int(pu.choose(R))
            ctx.check(i in best, lambda: 'the perfect user chose option %d of %s' % (i, vals))
            judge_pairs(ctx, pu.choose_pairs(R), best, len(vals), 'perfect user on %s' % (vals,))
            ctx.step(2)
        want = softmax([beta * (k * v + b) for v in vals])
        for cls in ('HumanChoiceUser', 'HumanChoiceUser2'):
            u = user(cls, case['set'])
            dist, tol = measure(ctx, lambda: int(u.choose(R)))
            ctx.check(set(dist) <= set(range(len(vals))), lambda: '%s chose %s among %d options' % (cls, sorted(dist), len(vals)))
            for i in range(len(vals)):
                ctx.check(abs(dist.get(i, 0.0) - want[i]) <= tol + 1e-9,
                          lambda: '%s (beta=%g, k=%g, b=%g) chooses option %d of %s with probability %r, the softmax gives %r' % (cls, beta, k, b, i, vals, dist.get(i, 0.0), want[i]))
            pd, tol = measure(ctx, lambda: tuple(tuple(int(x) for x in p) for p in u.choose_pairs(R)))
            for pairs, w in pd.items():
                judge_pairs(ctx, pairs, [i for i in range(len(vals)) if want[i] > 1e-300] or best, len(vals), '%s on %s' % (cls, vals))
                if len(vals) > 1:
                    c = winner(pairs)
                    ctx.check(abs(w - want[c]) <= tol + 1e-9, lambda: '%s reports option %d of %s as chosen with probability %r, the softmax gives %r' % (cls, c, vals, w, want[c]))
        ctx.check(np.array_equal(R, keep), 'the rewards of the query were changed')
        ctx.state((vals, case['set']))


def run_perfect(case, ctx):
    """several utilities far from zero, and differences of every size"""
    u = lop.PerfectUser(First())
    for n in range(2, case['n'] + 1):
        for rest in itertools.product(BIG, repeat=n - 1):
            vals = (BIG[case['first']],) + rest
            R = rewards(vals)
            best = [i for i, v in enumerate(vals) if v == max(vals)]
            i = int(u.choose(R))
            ctx.check(i in best, lambda: 'the perfect user chose option %d of %s' % (i, vals))
            judge_pairs(ctx, u.choose_pairs(R), best, n, 'perfect user on %s' % (vals,))
            ctx.step(2)
        ctx.state((case['first'], n))


def winner(pairs):
    d, u, v = pairs[0]
    return u if d == -1 else v


def judge_pairs(ctx, pairs, may, n, what):
    pairs = [tuple(int(x) for x in p) for p in pairs]
    if n == 1:
        ctx.check(pairs == [], lambda: '%s: comparisons %s for a single option' % (what, pairs))
        return
    ctx.check(len(pairs) == n - 1 and all(len(p) == 3 and p[0] in (-1, 1) for p in pairs), lambda: '%s: comparisons %s' % (what, pairs))
    won = [(u, v) if d == -1 else (v, u) for d, u, v in pairs]
    c = won[0][0]
    ctx.check(c in may and sorted(won) == sorted((c, i) for i in range(n) if i != c), lambda: '%s: the (winner, loser) pairs %s are not one chosen option against each other option' % (what, won))


def run_rate(case, ctx):
    beta, sigma, k, b = SET_T[case['set']]
    for v in LEV_T[:6] + [-2.5, 150.0, -150.0]:
        for cls in ('PerfectUser', 'HumanChoiceUser', 'HumanChoiceUser2'):
            for batch in (False, True):
                R = rewards([v, 0.2, -0.6, 1.1]) if batch else rewards([v])[0]
                keep = R.copy()
                ys = [v, 0.2, -0.6, 1.1] if batch else [v]
                if cls == 'PerfectUser':
                    u = lop.PerfectUser(First())
                    got = np.ravel(u.rate(R))
                    ctx.close(got, [logistic(4 * y) for y in ys], 1e-12, 'rating of the perfect user for utilities %s' % ys)
                    ctx.step()
                    continue
                u = user(cls, case['set'])

                def body(ch):
                    with Env(ch, z=Z) as env:
                        got = np.ravel(u.rate(R))
                    zz = noise(env)
                    ctx.check(len(zz) == len(ys), lambda: '%s: %d noise values drawn for %d ratings' % (cls, len(zz), len(ys)))
                    want = [logistic(k * y + b + sigma * z) for y, z in zip(ys, zz)]
                    what = '%s rating of utilities %s (k=%g b=%g sigma=%g) with standard normal draws %s' % (cls, ys, k, b, sigma, zz)
                    ctx.close(got, want, 1e-9, what)
                    ctx.check(((got >= 0) & (got <= 1)).all(), lambda: '%s is %s' % (what, got))
                    ctx.step()
                ctx.explore(body)
                ctx.check(np.array_equal(R, keep), 'the rewards of the query were changed')
                ctx.state((case['set'], v, cls, batch))
    grid = np.array([-3.0, -1.2, -0.4, 0.0, 0.3, 0.9, 2.0])
    r = np.ravel(lop.PerfectUser(First()).rate(np.stack([grid, grid], axis=1)))
    ctx.check((np.diff(r) > 0).all() and (r > 0).all() and (r < 1).all(), lambda: 'the perfect ratings %s of increasing utilities %s do not increase within (0,1)' % (r, grid))


def run_prob(case, ctx):
    beta = SET_T[case['set']][0]
    single = [list(c) for n in (1, 2, 3) for c in itertools.product([-2.0, 0.0, 0.7, 300.0], repeat=n)] + [[0.1, 0.2, 0.3, 0.4, 0.5, 1e4], [-1e4, -1e4 + 1], [5e3, -5e3, 5e3]]
    for r in single:
        a = np.array(r)
        want = softmax([beta * v for v in r])
        for arr in (a,):
            got = lop.p_human_choice(arr, p=beta)
            ctx.close(got, want, 1e-12, 'choice probabilities of %s with p=%g' % (r, beta))
            ctx.check(np.array_equal(arr, a), 'the rewards were changed')
        for sh in (3.5, -120.0, 1e4):
            ctx.close(lop.p_human_choice(a + sh, p=beta), want, 1e-6, 'choice probabilities of %s shifted by %g with p=%g' % (r, sh, beta))
        ctx.check(abs(float(np.sum(got)) - 1) < 1e-9 and (got >= 0).all(), lambda: 'choice probabilities %s of %s are no distribution' % (got, r))
        ctx.step()
        ctx.state((tuple(r), beta))
        dist, tol = measure(ctx, lambda: int(lop.sample_human_choice(a, p=beta)))
        for i in range(len(r)):
            ctx.check(abs(dist.get(i, 0.0) - want[i]) <= tol + 1e-9, lambda: 'sampled choice %d of %s (p=%g) has probability %r instead of %r' % (i, r, beta, dist.get(i, 0.0), want[i]))
    for n in (2, 3):
        rows = [c for c in itertools.product([-1.0, 0.3, 60.0, -2000.0], repeat=n)]
        for k in range(0, len(rows), 3):
            B = np.array([rows[k], rows[(k * 7 + 1) % len(rows)], rows[(k * 3 + 5) % len(rows)]])
            got = lop.p_human_choice(B, p=beta)
            ctx.close(got, np.array([softmax(beta * q) for q in B]), 1e-9, 'choice probabilities of the queries %s with p=%g' % (B.tolist(), beta))
            ctx.step()

    def body(ch):
        with Env(ch) as env:
            s = lop.sample_human_choice(np.array([0.1, 0.9, -0.3]), p=beta, samples=4)
        ctx.check(len(s) == 4 and all(0 <= int(i) < 3 for i in s), lambda: 'four sampled choices: %s' % (s,))
        for e in env.log:
            if e[0] == 'choice_p':
                ctx.close(e[2], softmax(beta * np.array([0.1, 0.9, -0.3])), 1e-12, 'probabilities of repeated choices')
        ctx.step()
    ctx.explore(body)


def utils(dim=2):
    from mc.core import seeded
    seeded(3)
    return [lop.FakeLinear(dim), lop.FakeSquared(dim), lop.FakeLogistic(dim), lop.FakeWeightedMin(dim), lop.FakeWeightedMax(dim), lop.FakeSinExp(dim)]


def run_util(case, ctx):
    beta, sigma, k, b = SET_T[case['set']]
    for dim in (2, 3):
        for f in utils(dim):
            for ids in itertools.permutations(range(4), 3):
                R = np.array([[0.1, 0.9, 0.4], [0.7, 0.3, 0.2], [0.5, 0.52, 0.95], [0.98, 0.05, 0.6]])[list(ids), :dim]
                y = np.array([float(f(r)) for r in R])
                i = int(lop.PerfectUser(f).choose(R))
                ctx.check(y[i] >= y.max() - 1e-12, lambda: 'the perfect user with %s chose %d of utilities %s' % (f, i, y))
                ctx.close(float(np.ravel(lop.PerfectUser(f).rate(R[0]))[0]), logistic(4 * y[0]), 1e-12, 'perfect rating with %s' % f)
                u = user('HumanChoiceUser', case['set'], f)
                dist, tol = measure(ctx, lambda: int(u.choose(R)))
                want = softmax(beta * (k * y + b))
                for j in range(3):
                    ctx.check(abs(dist.get(j, 0) - want[j]) <= tol + 1e-9, lambda: 'choice %d of utilities %s (%s) has probability %r instead of %r' % (j, y, f, dist.get(j, 0), want[j]))
                ctx.step(2)
                ctx.state((case['set'], dim, str(f), ids))


def run_seq(case, ctx):
    """answers do not depend on what the user was asked before"""
    beta, sigma, k, b = SET_T[case['set']]
    Q = [rewards([0.2, 0.5]), rewards([0.9, -0.1, 0.3]), rewards([0.4])]
    for h in itertools.product('crp', repeat=3):
        for cls in ('HumanChoiceUser', 'HumanChoiceUser2'):
            u = user(cls, case['set'])

            def body(ch):
                for t, op in enumerate(h):
                    R = Q[t]
                    y = R[:, 0]
                    with Env(ch, z=(-1.0, 0.5)) as env:
                        if op == 'c':
                            u.choose(R)
                        elif op == 'p':
                            judge_pairs(ctx, u.choose_pairs(R), range(len(R)), len(R), 'history %s' % (h,))
                        else:
                            got = np.ravel(u.rate(R[0]))
                            zz = noise(env)
                            ctx.check(len(zz) == 1, 'noise draws')
                            ctx.close(got, [logistic(k * y[0] + b + sigma * zz[0])], 1e-9, '%s history %s step %d: rating' % (cls, h, t))
                    for e in env.log:
                        if e[0] == 'choice_p' and len(R) > 1:
                            ctx.close(e[2], softmax(beta * (k * y + b)), 1e-9, '%s history %s step %d: choice probabilities' % (cls, h, t))
                    ctx.check((u.beta, u.sigma, u.k, u.b) == (beta, sigma, k, b), lambda: '%s history %s: the parameters of the user changed' % (cls, h))
                    ctx.step()
                ctx.state((case['set'], h, cls))
            ctx.explore(body)
