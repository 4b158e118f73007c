"""P18: user calibration reaches the requested accuracy."""
import itertools

import numpy as np
from scipy.special import ndtr, ndtri
from scipy.optimize import brentq

import lop
from mc.core import Env, raises
from mc.checks.p17 import First, utils

TECHNIQUE = 'exhaustive enumeration of small calibration problem sets x requested accuracies x subset draws x calibration histories on the real user; accuracies recomputed pair by pair from the definition'
LEVEL_NOTE = 'all problem sets, accuracies and histories of the alphabet and every subset draw within the bounds on the real calibration'
RULE = ('calibration sets: every arrangement of utility levels (ties included) into 1-2 environments of 1-3 problems with 2-5 paths, equally sized or ragged x requested choice accuracy x requested rating accuracy (or '
        'the same) x rating range x every answer of the subset draws; after every calibration of a history of up to three the accuracies of the user are recomputed from the definition over all pairs; '
        'first noisy user: utility levels x query size x requested accuracies x spread of the simulated answers, each calibration either refused or near the request')
BOUNDS = {'quick': '330 problem sets x 5 accuracy requests, histories of 2, subset draws with one deviation; first user: 8 utility vectors x 2 query sizes x 5 requests x 4 spreads',
          'thorough': '1100 problem sets x 11 accuracy requests, histories of 3, subset draws with two deviations; first user: 24 utility vectors x 2 query sizes x 5 requests x 8 spreads'}
ASSUMPTIONS = ['utilities of the calibration problems are not all equal', 'a request is attainable when some beta in [0.01, 200] / sigma in [0.001, 5] reaches it; tolerance 0.01', 'the first noisy user accepts a simulated accuracy within sqrt(0.02) = 0.14 of the requested one: judged with 0.18 (0.25 when it draws its own queries), the vectors of simulated draws being evenly spread']
LEV = [0.0, 0.3, 0.35, 1.0, -0.8, 0.5]
ASK = [(0.95, 0.8), (0.75, None), (0.6, 0.95), (0.99, 0.65), (0.85, 0.7)]
ASK_T = ASK + [(0.55, 0.9), (0.9, 0.55), (0.97, 0.97), (0.65, 0.75), (0.8, 0.99), (0.7, 0.6)]
RANGES = [(0.1, 0.9), (0.02, 0.7), (0.3, 0.99)]


def shapes():
    return [[[2]], [[3]], [[4]], [[2, 2]], [[2], [2]], [[3, 3], [3, 3]], [[2, 3]], [[3], [2]], [[4, 2], [3, 3]], [[2, 2], [2]], [[2], [2, 2]], [[5]], [[2, 2, 2]], [[3, 2], [2, 4]], [[3, 3], [3]], [[3], [3, 3]]]


def problem(shape, code):
    """utility levels laid out deterministically from the code"""
    out, i = [], 0
    for env in shape:
        e = []
        for n in env:
            e.append(np.array([[LEV[(code * (i + j + 1) + 3 * i + j * (1 + code % 5)) % len(LEV)] + 0.001 * (code % 3) * j, 0.1 * j] for j in range(n)], dtype=float))
            i += n
        out.append(e)
    return out


def cases(tier):
    t = tier == 'thorough'
    for code in range(70 if t else 21):
        for s in range(len(shapes())):
            yield {'kind': 'one', 'shape': s, 'code': code}
    for code in range(12 if t else 4):
        for s in range(len(shapes())):
            for h in itertools.product(range(3), repeat=3 if t else 2):
                yield {'kind': 'hist', 'shape': s, 'code': code, 'h': list(h)}
    for code in range(24 if t else 8):
        for q in (2, 3):
            for a in range(5):
                for shift in range(8 if t else 4):
                    yield {'kind': 'first', 'code': code, 'q': q, 'a': a, 'shift': shift}
    for s in (0, 2, 5, 6):
        for f in range(6):
            yield {'kind': 'util', 'shape': s, 'f': f}


class Pick(Env):
    """remembers which paths of each problem were taken"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.taken = []

    def choice(self, a, size=None, replace=True, p=None):
        out = super().choice(a, size, replace, p)
        self.taken.append((int(a) if np.ndim(a) == 0 else len(a), np.ravel(out).tolist()))
        return out


class Spread(Env):
    """vector draws are evenly spread over their distribution: simulated frequencies are close to the probabilities"""

    def __init__(self, ch, shift, **k):
        super().__init__(ch, **k)
        self.shift = shift
        self.fixed = np.random.RandomState(7 + shift)      # which calibration queries are drawn: one fixed sequence

    def choice(self, a, size=None, replace=True, p=None):
        return self.fixed.choice(a, size, replace, p)

    def _u(self, size=None):
        if size is None or size == ():
            return super()._u(size)
        n = int(np.prod(size))
        return ((np.arange(n) * 0.6180339887498949 + self.shift / 8.0 + 1e-4) % 1.0).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
        n, m = int(np.prod(shape[:1])), int(np.prod(shape[1:]))
        g = 1.22074408460575947536 if m == 3 else 1.32471795724474602596
        rows = np.random.RandomState(3).permutation(n)     # no relation between a query's place and its noise
        u = np.array([[(0.5 + self.shift / 8.0 + (i + 1) * g ** -(j + 1)) % 1.0 for j in range(m)] for i in rows])
        return np.asarray(loc) + np.asarray(scale) * ndtri(np.clip(u, 1e-9, 1 - 1e-9)).reshape(shape)

    def standard_normal(self, size=None):
        return self.normal(size=size)


SCALES = [0.35, 1.0, 3.0, 0.07]


def levels(n, code):
    v = np.array([((i * 5 + code * 3) % 11) * (1 + 0.05 * ((i + code) % 3)) for i in range(n)]) / 10.0
    return SCALES[code % 4] * (v + 0.003 * np.arange(n))


def first_user(case, ctx):
    """the first noisy user calibrates on simulated answers: whatever it accepts is near the requested accuracy"""
    code, q = case['code'], case['q']
    p, ps = [(0.9, 0.8), (0.75, 0.85), (0.85, None), (0.95, 0.6), (0.62, 0.95)][case['a']]
    if q == 3:
        p, ps = [(0.85, 0.7), (0.65, 0.8), (0.75, None), (0.92, 0.5), (0.5, 0.9)][case['a']]
    n = 8
    v = levels(n, code)
    R = np.stack([v, 0.1 * np.arange(n)], axis=1)
    f = First()
    pairs = np.array(list(itertools.combinations(range(n), q)))
    many = np.array([pairs[i % len(pairs)] for i in range(20 * len(pairs))])
    n2 = 40 if q == 2 else 16
    v2 = levels(n2, code)
    R2 = np.stack([v2, 0.1 * np.arange(n2)], axis=1)
    pairs2 = np.array(list(itertools.combinations(range(n2), q)))

    def judge_user(u, v, Qs, p, ps, tol, what):
        y = 4.0 * v[Qs]
        e = np.exp(u.beta * (y - y.max(axis=1, keepdims=True)))
        a = float(np.mean(e.max(axis=1) / e.sum(axis=1)))
        if p is not None:
            ctx.check(abs(a - p) < tol, lambda: '%s: beta=%r gives the choice accuracy %.3f instead of %g' % (what, u.beta, a, p))
        if ps is not None:
            # quadrature over the winner's noise: P(every other rating is below it)
            z = np.linspace(-6, 6, 601)
            w = np.exp(-z * z / 2)
            w /= w.sum()
            acc = []
            for row in np.sort(y, axis=1):
                t = np.ones_like(z)
                for o in row[:-1]:
                    t *= ndtr((row[-1] - o) / u.sigma + z)
                acc.append(float(t @ w))
            r = float(np.mean(acc))
            ctx.check(abs(r - ps) < tol, lambda: '%s: sigma=%r gives the rating accuracy %.3f instead of %g' % (what, u.sigma, r, ps))
            ctx.outcome((round(u.beta, 2), round(u.sigma, 2)))

    def attempt(call, R, Qs, p, ps, tol, what):
        u = lop.HumanChoiceUser(f)
        R0 = R.copy()

        def body(ch):
            with Spread(ch, case['shift']):
                raised, r = raises(call, u)
            ctx.step()
            ctx.check(np.array_equal(R, R0), what + ': the calibration samples were changed')
            if raised:
                ctx.check(type(r) is Exception, lambda: '%s: failed with %r' % (what, r))
                ctx.outcome('refused')
                return
            judge_user(u, R[:, 0], Qs, p, ps, tol, what)
        ctx.explore(body, max_dev=0, fair_after=0)
        ctx.state((case, what))
    what = 'first noisy user, utilities %s, queries of %d' % (v.round(3).tolist(), q)
    attempt(lambda u: u.learn_beta_pairwise(R, p, q, Qs=many), R, many, p, None, 0.18, what + ', choice accuracy %g' % p)
    attempt(lambda u: u.learn_sigma(R, ps or p, q, Qs=many), R, many, None, ps or p, 0.18, what + ', rating accuracy %g' % (ps or p))
    what = 'first noisy user, utilities %s, queries of %d' % (v2.round(3).tolist(), q)
    attempt(lambda u: u.learn_beta(R2, p, q, p_sigma=ps) if ps else u.learn_beta(R2, p, q), R2, pairs2, p, ps or p, 0.25, what + ', accuracies %s/%s' % (p, ps))


def accuracy(diffs, beta):
    d = np.abs(diffs[diffs != 0])
    return float(np.mean(1 / (1 + np.exp(-np.minimum(d * beta, 700)))))


def rate_accuracy(diffs, sigma):
    d = np.abs(diffs[diffs != 0])
    return float(np.mean(ndtr(d / (np.sqrt(2) * sigma))))


def calibrate(ctx, u, f, P, p, ps, rng, ch, what):
    keep = [[x.copy() for x in e] for e in P]
    with Pick(ch, max_enum=6) as env:
        u.learn_beta(P, p, 2, p_sigma=ps) if ps is not None else u.learn_beta(P, p)
    ctx.step()
    ctx.check(all(np.array_equal(a, b) for x, y in zip(P, keep) for a, b in zip(x, y)), what + ': the calibration problems were changed')
    flat = [np.array([float(np.ravel(f(r))[0]) for r in x]) for e in P for x in e]
    lo, hi = min(v.min() for v in flat), max(v.max() for v in flat)
    l0, l1 = (np.log(q / (1 - q)) for q in rng)
    k = (l1 - l0) / (hi - lo)
    b = l0 - k * lo
    ctx.check(abs(u.k - k) < 1e-9 * (1 + abs(k)) and abs(u.b - b) < 1e-9 * (1 + abs(b)),
              lambda: '%s: utility scaling %r, %r; mapping the range [%g, %g] onto the rating range %s needs %r, %r' % (what, u.k, u.b, lo, hi, rng, k, b))
    m = min(len(v) for v in flat)
    if all(len(v) == m for v in flat):
        sub = flat
    else:
        q = [i for n, i in env.taken if n > m]          # of a problem of the smallest size every path is used
        ctx.check(len(q) == sum(len(v) > m for v in flat) and all(len(set(i)) == m for i in q), lambda: '%s: the paths taken from the larger problems are %s' % (what, env.taken))
        sub = [v[q.pop(0)] if len(v) > m else v for v in flat]
    diffs = k * np.concatenate([[a - c for a, c in itertools.combinations(v, 2)] for v in sub])
    if not (np.abs(diffs) > 1e-12).any():
        return
    diffs = np.where(np.abs(diffs) < 1e-12, 0.0, diffs)
    ps = p if ps is None else ps
    if accuracy(diffs, 0.02) < p < accuracy(diffs, 190.0):
        a = accuracy(diffs, u.beta)
        ctx.check(abs(a - p) < 0.01, lambda: '%s: beta=%r gives the choice accuracy %.4f instead of %g' % (what, u.beta, a, p))
    if rate_accuracy(diffs, 4.8) < ps < rate_accuracy(diffs, 0.0012):
        a = rate_accuracy(diffs, u.sigma)
        ctx.check(abs(a - ps) < 0.01, lambda: '%s: sigma=%r gives the rating accuracy %.4f instead of %g' % (what, u.sigma, a, ps))
    ctx.outcome((round(u.beta, 3), round(u.sigma, 3)))


def uniform(P):
    v = np.concatenate([x[:, 0] for e in P for x in e])
    return v.max() == v.min()


def run(case, ctx):
    if case['kind'] == 'first':
        return first_user(case, ctx)
    ask = ASK_T if ctx.tier == 'thorough' else ASK
    shape = shapes()[case['shape']]
    ragged = len({n for e in shape for n in e}) > 1
    dev = 2 if ctx.tier == 'thorough' else 1
    if case['kind'] == 'one':
        P = problem(shape, case['code'])
        if uniform(P):
            return
        for (p, ps) in ask:
            rng = RANGES[case['code'] % 3]
            what = 'calibration on %s (problems %s, range %s) to %s/%s' % (shape, [[x[:, 0].tolist() for x in e] for e in P], rng, p, ps)
            f = First()

            def body(ch):
                u = lop.HumanChoiceUser2(f, bot_range=rng[0], top_range=rng[1])
                calibrate(ctx, u, f, P, p, ps, rng, ch, what)
            ctx.explore(body, max_dev=dev if ragged and p == ask[0][0] else 0)
            ctx.state((case, p, ps))
    elif case['kind'] == 'hist':
        f = First()

        def body(ch):
            u = lop.HumanChoiceUser2(f)
            for t, i in enumerate(case['h']):
                P = problem(shapes()[(case['shape'] + i) % len(shapes())], case['code'] + 5 * i)
                if uniform(P):
                    continue
                p, ps = ASK[(i + case['code']) % len(ASK)]
                calibrate(ctx, u, f, P, p, ps, (0.1, 0.9), ch, 'calibration %d of history %s (code %d) to %s/%s' % (t + 1, case['h'], case['code'], p, ps))
                ctx.state((case, t))
        ctx.explore(body, max_dev=0)
    else:
        f = utils(2)[case['f']]
        for code in range(6):
            P = [[np.abs(x) for x in e] for e in problem(shape, code)]
            y = np.concatenate([[float(f(r)) for r in x] for e in P for x in e])
            if y.max() - y.min() < 1e-6:
                continue
            for (p, ps) in ask[:3]:
                def body(ch):
                    u = lop.HumanChoiceUser2(f)
                    calibrate(ctx, u, f, P, p, ps, (0.1, 0.9), ch, 'calibration with %s to %s/%s on %s' % (f, p, ps, [[x.tolist() for x in e] for e in P]))
                ctx.explore(body, max_dev=0)
            ctx.state((case, code))
