"""P26: probability helpers equal their definitions."""
import itertools
import math

import numpy as np
from scipy import special as sp
from scipy import integrate as si

import lop
from mc.core import seeded

TECHNIQUE = 'exhaustive enumeration of grids of means, variances, correlations, dimensions, shapes, scales and data arrangements on the real helpers against the definitions evaluated independently'
LEVEL_NOTE = 'every point of the grids on the real code; the reference is the definition (product of normal probabilities, the bivariate normal integral by one dimensional quadrature, the gamma density)'
RULE = ('(a) below-zero probabilities: every assignment of the mean and variance levels to 1-4 independent components x every method, every mean pair x variance pair x correlation in two dimensions x full, pairing and general methods, block '
        'correlated vectors x pairing; (b) gamma density, log density and derivative at every x x shape x scale, scalars and arrays; (c) range normalisation of every data set over the levels, in every order')
BOUNDS = {'quick': '6 mean levels, 4 variances, dimensions 1-4, 9 correlations; 9 shapes x 7 scales x 17 points; data of up to 5 values over 5 levels',
          'thorough': '8 mean levels, 6 variances, dimensions 1-5, 13 correlations; 15 shapes x 11 scales x 29 points; data of up to 6 values over 6 levels'}
ASSUMPTIONS = ['positive variances; the covariance in two dimensions is non-singular', 'the general method is evaluated with the optional approxcdf library replaced by the exact distribution when it is not installed',
               'the numerical cubature of the full method in more than two dimensions is compared to 1e-4']
MU = [-2.0, -0.4, 0.0, 0.7, 1.5, 4.0, -6.0, 0.05]
VAR = [0.3, 1.0, 2.5, 1e-3, 40.0, 0.09]
RHO = [-0.95, -0.6, -0.2, -1e-3, 0.0, 0.1, 0.5, 0.8, 0.97, -0.99, 0.3, -0.4, 0.999]


def cases(tier):
    t = tier == 'thorough'
    nm, nv = (8, 6) if t else (6, 4)
    for n in range(1, 6 if t else 5):
        for v in itertools.product(range(nv), repeat=min(n, 2)):
            yield {'kind': 'ind', 'n': n, 'v': v, 'nm': nm if n < 4 else 4 if n < 5 else 3}
    for i in range(nm):
        for j in range(nm):
            yield {'kind': 'two', 'm': (i, j), 'nv': nv, 'nr': 13 if t else 9}
    for n in (3, 4, 5):
        for r in range(13 if t else 9):
            yield {'kind': 'block', 'n': n, 'r': r, 'nm': nm}
    for k in range(15 if t else 9):
        yield {'kind': 'gamma', 'k': k, 't': t}
    for n in range(1, 7 if t else 6):
        for first in range(6 if t else 5):
            yield {'kind': 'norm', 'n': n, 'first': first, 'lev': 6 if t else 5}


def run(case, ctx):
    {'ind': run_ind, 'two': run_two, 'block': run_block, 'gamma': run_gamma, 'norm': run_norm}[case['kind']](case, ctx)


def ask(ctx, mu, cov, method, what):
    a, b = np.array(mu, dtype=float), np.array(cov, dtype=float)
    seeded(7)
    p = lop.calc_cdf(a, b, method=method) if method else lop.calc_cdf(a, b)
    ctx.check(np.array_equal(a, np.array(mu, dtype=float)) and np.array_equal(b, np.array(cov, dtype=float)), what + ': the arguments were changed')
    ctx.check(np.size(p) == 1, lambda: '%s: result %r' % (what, p))
    ctx.step()
    return float(np.ravel(p)[0])


def below(mu, var):
    return float(np.prod([sp.ndtr(-m / math.sqrt(v)) for m, v in zip(mu, var)]))


def run_ind(case, ctx):
    n = case['n']
    var = [VAR[case['v'][i % len(case['v'])]] for i in range(n)]
    for m in itertools.product(MU[:case['nm']], repeat=n):
        want = below(m, var)
        for method in ('independent', 'switch', 'full', 'mvn', 'auto', None):
            if n > 2 and method in ('full', 'mvn', 'auto', None) and (n > 3 or sum(MU.index(x) for x in m) % 5):
                continue
            got = ask(ctx, m, np.diag(var), method, 'below-zero probability of independent components by %r' % method)
            tol = 1e-9 if method in ('independent',) else 2e-5 if n <= 2 or method == 'switch' else 3e-4
            ctx.check(abs(got - want) <= tol, lambda: 'independent components with means %s and variances %s are all below zero with probability %r by %r, the product is %r' % (m, var, got, method, want))
            ctx.outcome(round(got, 5))
        if n > 1:
            # the independent method only uses the variances
            C = np.diag(var) + 0.4 * math.sqrt(min(var)) ** 2 * (np.ones((n, n)) - np.eye(n)) * 0.5
            got = ask(ctx, m, C, 'independent', 'independent method')
            ctx.check(abs(got - want) <= 1e-9, lambda: 'the independent method gives %r for means %s and variances %s, the product is %r' % (got, m, var, want))
    ctx.state((n, var))


def bvn(m, v, r):
    """P(x<0, y<0) by integrating the conditional probability over x"""
    a, b = -m[0] / math.sqrt(v[0]), -m[1] / math.sqrt(v[1])
    if r == 0:
        return float(sp.ndtr(a) * sp.ndtr(b))
    s = math.sqrt(1 - r * r)
    f = lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi) * sp.ndtr((b - r * x) / s)
    lo = max(-9.0, -9.0)
    pts = [p for p in (b / r, b / r - 3 * s, b / r + 3 * s) if lo < p < a]
    return float(si.quad(f, lo, a, points=pts or None, limit=200, epsabs=1e-10)[0]) if a > lo else 0.0


def run_two(case, ctx):
    m = [MU[i] for i in case['m']]
    for v in itertools.product(VAR[:case['nv']], repeat=2):
        for r in RHO[:case['nr']]:
            c = r * math.sqrt(v[0] * v[1])
            cov = [[v[0], c], [c, v[1]]]
            want = bvn(m, v, r)
            for method in ('full', 'switch', 'mvn', 'auto', None):
                got = ask(ctx, m, cov, method, 'below-zero probability of two components by %r' % method)
                ctx.check(abs(got - want) <= 2e-5, lambda: 'two components with means %s and covariance %s are both below zero with probability %r by %r, the definition gives %r' % (m, cov, got, method, want))
            ctx.outcome(round(want, 6))
        ctx.state((m, v))


def run_block(case, ctx):
    """blocks of two correlated components and single ones, in every order: the pairing method is exact, and so is the general one"""
    n, r = case['n'], RHO[case['r']]
    perms = list(itertools.permutations(range(n)))
    for k, p in enumerate(perms if n < 5 else perms[::11]):
        m = [MU[(k + 2 * i) % case['nm']] for i in range(n)]
        v = [VAR[(k + i) % 3] for i in range(n)]
        C = np.diag(v)
        rr = [r, -0.7 * r]
        want = 1.0
        for b in range(n // 2):
            i, j = 2 * b, 2 * b + 1
            C[i, j] = C[j, i] = rr[b] * math.sqrt(v[i] * v[j])
            want *= bvn((m[i], m[j]), (v[i], v[j]), rr[b])
        if n % 2:
            want *= below(m[-1:], v[-1:])
        q = list(p)
        mm, CC = np.array(m)[q], C[np.ix_(q, q)]
        got = ask(ctx, mm, CC, 'switch', 'pairing method')
        ctx.check(abs(got - want) <= 3e-5, lambda: 'components with means %s and covariance %s are all below zero with probability %r by the pairing method, the blocks give %r' % (mm, CC.tolist(), got, want))
        if k % 6 == 0 and n <= 4:
            for method in ('full', 'mvn'):
                got = ask(ctx, mm, CC, method, 'general method')
                ctx.check(abs(got - want) <= 5e-4, lambda: 'components with means %s and covariance %s are all below zero with probability %r by %r, the blocks give %r' % (mm, CC.tolist(), got, method, want))
        ctx.state((n, r, q, m))


def run_gamma(case, ctx):
    t = case['t']
    k = [0.5, 1.0, 1.7, 2.0, 3.0, 4.0, 10.0, 0.9, 25.0, 0.1, 1.05, 6.5, 14.0, 40.0, 2.9][case['k']]
    thetas = [0.1, 0.25, 0.4, 1.0, 3.0, 25.0, 0.7, 0.02, 8.0, 100.0, 1.6][:11 if t else 7]
    base = [1e-4, 0.003, 0.02, 0.1, 0.35, 0.7, 1.0, 1.3, 2.0, 3.1, 5.0, 8.0, 13.0, 21.0, 34.0, 80.0, 150.0] + ([2e-5, 1e-3, 0.05, 0.21, 0.5, 0.88, 1.7, 4.0, 6.6, 10.0, 50.0, 300.0] if t else [])
    for th in thetas:
        xs = np.array(sorted(base))
        keep = xs.copy()
        P, L, D = (np.asarray(f(xs, k, th), dtype=float) for f in (lop.pdf_gamma, lop.log_pdf_gamma, lop.d_log_pdf_gamma))
        ctx.check(np.array_equal(xs, keep), 'the arguments were changed')
        want = np.array([(k - 1) * math.log(x) - x / th - math.lgamma(k) - k * math.log(th) for x in xs])
        ctx.close(L, want, 1e-8, 'log density of Gamma(%g, %g)' % (k, th), rel=True)
        ctx.close(P, np.exp(want), 1e-9, 'density of Gamma(%g, %g)' % (k, th), rel=True)
        ctx.close(D, (k - 1) / xs - 1 / th, 1e-8, 'derivative of the log density of Gamma(%g, %g)' % (k, th), rel=True)
        for i, x in enumerate(xs):
            x = float(x)
            a = (lop.pdf_gamma(x, k, th), lop.log_pdf_gamma(x, k, th), lop.d_log_pdf_gamma(x, k, th))
            for nm, s, arr in zip(('density', 'log density', 'derivative'), a, (P, L, D)):
                ctx.check(abs(float(s) - arr[i]) <= 1e-9 * (1 + abs(arr[i])), lambda: '%s of Gamma(%g, %g) at %g: %r alone, %r in an array' % (nm, k, th, x, float(s), arr[i]))
            h = 1e-6 * x
            num = (float(lop.log_pdf_gamma(x + h, k, th)) - float(lop.log_pdf_gamma(x - h, k, th))) / (2 * h)
            if x > 1e-3:
                ctx.check(abs(num - D[i]) <= 1e-3 * (1 + abs(D[i]) + abs(L[i])), lambda: 'Gamma(%g, %g) at %g: the log density has slope %r, the derivative says %r' % (k, th, x, num, D[i]))
            ctx.step()
        ctx.check(float(lop.log_pdf_gamma(-0.3, k, th)) == -np.inf, 'log density of a negative value')
        if k >= 1:
            tot = si.quad(lambda x: float(lop.pdf_gamma(x, k, th)), 0, k * th + 60 * th * max(1, math.sqrt(k)), limit=400, points=[k * th])[0]
            ctx.check(abs(tot - 1) < 1e-5, lambda: 'the density of Gamma(%g, %g) integrates to %r' % (k, th, tot))
        ctx.state((k, th))
        ctx.outcome((np.round(L, 5), th))


def run_norm(case, ctx):
    lev = [0.3, -1.5, 0.0, 7.0, 0.3001, 250.0][:case['lev']]
    for rest in itertools.product(lev, repeat=case['n'] - 1):
        for kind in range(3):
            v = (lev[case['first']],) + rest
            x = np.array(v) if kind == 0 else np.array(v).reshape(-1, 1) if kind == 1 else np.array([int(round(4 * z)) for z in v])
            keep = x.copy()
            for eps in (None, 0.01, 1e-6):
                y = lop.normalize_0_1(x) if eps is None else lop.normalize_0_1(x, eps)
                y = np.asarray(y, dtype=float)
                what = 'normalisation of %s' % (x.ravel().tolist(),)
                ctx.check(np.array_equal(x, keep), what + ': the data were changed')
                ctx.check(y.shape == x.shape and (y > 0).all() and (y < 1).all(), lambda: '%s is %s, not within (0, 1)' % (what, y.ravel()))
                a, b = x.ravel(), y.ravel()
                for i in range(len(a)):
                    for j in range(len(a)):
                        ctx.check((a[i] < a[j]) == (b[i] < b[j]), lambda: '%s is %s: order not kept' % (what, b))
                e = 0.0001 if eps is None else eps
                w = np.max(a) - np.min(a)
                ctx.close(b, (a - np.min(a) + e) / (w + 2 * e), 1e-9, what)
            ctx.step()
        ctx.outcome(v)
        ctx.state((case['n'], v))
