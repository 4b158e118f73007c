"""P25: test utility functions are pure and evaluate batches pointwise."""
import itertools
import math

import numpy as np

import lop
from mc.core import Env, Chooser

TECHNIQUE = 'exhaustive enumeration of reward grids, batch arrangements, random draws and evaluate/randomise sequences on the real functions against the closed formulas'
LEVEL_NOTE = 'every point of the grid alone and at every position of the batches, every answer of the construction draws, every evaluate/randomise sequence up to the depth bound, on the real code; the reference is the formula with the weights the function holds'
RULE = ('utility function x dimension x every answer of the construction draws x (a) every grid point alone, in batches at every position, in batches of queries, as lists, integers and differently laid out arrays; (b) every sequence over {evaluate a point, '
        'evaluate a batch, describe, randomise, evaluate or randomise another instance}, all values compared after every step with the formula for the weights held, which must only change on its own randomisation')
BOUNDS = {'quick': '10 functions, dimensions 1-4, grid of 5 levels per dimension (up to 60 points), 6-16 draws, sequences of length 3',
          'thorough': '10 functions, dimensions 1-5, grid of 7 levels per dimension (up to 200 points), all draws, sequences of length 4'}
ASSUMPTIONS = ['non-negative rewards; in more than one dimension rewards are arrays']
NAMES = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeSinExp', 'FakeMixtureGaussian', 'FakeStaticSin', 'FakeMinLog']


def make(name, dim):
    if name == 'FakeStaticSin':
        return lop.FakeStaticSin()
    if name == 'FakeMinLog':
        return lop.FakeMinLog(dim, alpha=0.3)
    if name == 'FakeMinLogDefault':
        return lop.FakeMinLog(dim)
    return getattr(lop, name)(dim)


def weights(f):
    """plain copy of what the function holds"""
    out = {}
    for k, v in sorted(vars(f).items()):
        out[k] = weights(v) if isinstance(v, lop.FakeFunction) else np.array(v, dtype=float).tolist() if not callable(v) else None
    return out


def value(name, f, r):
    """the documented value of one reward vector"""
    r = np.atleast_1d(np.asarray(r, dtype=float))
    one = len(r) == 1
    if name == 'FakeLinear':
        return float(sum(a * b for a, b in zip(r, f.w)))
    if name == 'FakeSquared':
        return float(sum(a * a * b for a, b in zip(r, f.w)))
    if name == 'FakeLogistic':
        wx = float(sum(a * b for a, b in zip(r, f.w))) - (0 if one else f.M)
        return f.A + (f.K - f.A) / (f.C + f.Q * math.exp(-wx / f.v))
    if name in ('FakeWeightedMax', 'FakeWeightedMin'):
        v = [float(r[0])] if one else [a * b for a, b in zip(r, f.w)]
        return float(max(v) if name == 'FakeWeightedMax' else min(v))
    if name == 'FakeSquaredMinMax':
        if one:
            return float(r[0])
        v = [a * b for a, b in zip(r, f.w)]
        return math.sqrt(max(v)) + min(v) ** 2
    if name == 'FakeSinExp':
        return math.sin(float(np.dot(r, f.k)) + f.phase) * math.exp(-float(np.dot(r, f.w)))
    if name == 'FakeMixtureGaussian':
        t = 0.0
        for m, s in zip(f.means, f.sigs):
            q = 1.0
            for a, b, c in zip(r, np.atleast_1d(m), np.atleast_1d(s)):
                q *= math.exp(-(a - b) ** 2 / (2 * c)) / math.sqrt(2 * math.pi * c)
            t += q
        return t
    if name == 'FakeStaticSin':
        x = 10 - float(r[0])
        return 2 * math.cos(math.pi * (x - 2) / 3) * math.exp(-0.99 * x)
    if name == 'FakeMinLog':
        return f.alpha * value('FakeWeightedMin', f.min, r) + (1 - f.alpha) * value('FakeLogistic', f.logistic, r)
    raise KeyError(name)


def check_weights(ctx, name, f, dim, what):
    """the documented normalisation"""
    ok = True
    if name in ('FakeLinear', 'FakeSquared', 'FakeSquaredMinMax'):
        ok = len(f.w) == dim and min(f.w) >= 0 and abs(sum(f.w) - 1) < 1e-9
    elif name in ('FakeWeightedMax', 'FakeWeightedMin'):
        ok = len(f.w) == dim and min(f.w) >= 0 and abs(max(f.w) - 1) < 1e-9
    elif name == 'FakeLogistic':
        ok = len(f.w) == dim and min(f.w) >= 0 and max(f.w) <= 1.5 and 1.2 <= f.Q <= 5.2 and 0 <= f.M <= 1.5 and 2 <= f.v <= 3
    elif name == 'FakeSinExp':
        ok = len(f.w) == dim and min(f.w) >= 0 and max(f.w) <= 1 and abs(sum(f.k) - 1) < 1e-9 and min(f.k) >= 0 and 0 <= f.phase <= math.pi
    elif name == 'FakeMixtureGaussian':
        ok = 2 <= f.num_kerns < 10 and np.shape(f.means) == np.shape(f.sigs) == (f.num_kerns, dim) and np.min(f.sigs) > 0 and np.min(f.means) >= 0 and np.max(f.means) <= 3
    elif name == 'FakeMinLog':
        check_weights(ctx, 'FakeWeightedMin', f.min, dim, what)
        check_weights(ctx, 'FakeLogistic', f.logistic, dim, what)
    ctx.check(ok, lambda: '%s: weights %s are outside the documented range' % (what, weights(f)))


def grid(dim, t):
    lv = [0.0, 0.3, 0.75, 1.0, 2.5] if not t else [0.0, 0.1, 0.3, 0.5, 0.75, 1.0, 2.5]
    pts = list(itertools.product(lv, repeat=dim))
    lim = 200 if t else 60
    if len(pts) > lim:
        st = len(pts) // lim + 1
        while math.gcd(st, len(lv)) != 1:
            st += 1
        pts = pts[::st]
    return pts


def cases(tier):
    t = tier == 'thorough'
    for name in NAMES:
        for dim in range(1, 6 if t else 5):
            if name == 'FakeStaticSin' and dim > 1:
                continue
            yield {'kind': 'values', 'name': name, 'dim': dim}
            for h in itertools.product('pbsrRo', repeat=4 if t and dim < 3 else 3 if dim < 4 else 2):
                yield {'kind': 'hist', 'name': name, 'dim': dim, 'h': ''.join(h)}


def run(case, ctx):
    {'values': run_values, 'hist': run_hist}[case['kind']](case, ctx)


def env(ch, few=False):
    return Env(ch, vec=('mid', 'up'), u=(0.02, 0.97), max_enum=4) if few else Env(ch, vec=('mid', 'low', 'up', 'down'), u=(0.02, 0.5, 0.97))


def col(name, pts, dim):
    a = np.array(pts, dtype=float)
    return a[:, 0] if dim == 1 else a


def run_values(case, ctx):
    name, dim, t = case['name'], case['dim'], ctx.tier == 'thorough'
    G = grid(dim, t)

    def body(ch):
        with env(ch):
            f = make(name, dim)
        w0 = weights(f)
        what = '%s in %d dimensions' % (name, dim)
        check_weights(ctx, name, f, dim, what)
        B = col(name, G, dim)
        want = np.array([value(name, f, r) for r in G])
        keep = B.copy()
        with env(Chooser([])):
            got = np.asarray(f(B))
        ctx.close(got, want, 1e-9, what + ' on a batch', rel=True)
        ctx.check(np.array_equal(B, keep), what + ': evaluating changed the rewards')
        for i, r in enumerate(G):
            one = float(B[i]) if dim == 1 else B[i].copy()
            v = f.calc(one)
            ctx.check(np.size(v) == 1 and abs(float(np.ravel(v)[0]) - want[i]) <= 1e-9 * (1 + abs(want[i])), lambda: '%s of %s alone is %r, the formula gives %r' % (what, r, v, want[i]))
            ctx.check(dim == 1 or np.array_equal(one, B[i]), what + ': evaluating changed the reward vector')
        # arrangements of batches
        n = len(G)
        for k in range(0, n, max(1, n // (20 if t else 8))):
            for ids in ([k], [k, (k + 1) % n], [(k + 3) % n, k, k], [(k * j + 2) % n for j in range(7)], [i % n for i in range(k, k + dim)]):
                Z = col(name, [G[i] for i in ids], dim)
                got = np.asarray(f(Z))
                ctx.close(got, want[ids], 1e-9, '%s on the batch %s' % (what, [G[i] for i in ids]), rel=True)
                if dim > 1:
                    ctx.close(f(np.asfortranarray(Z)), want[ids], 1e-9, what + ' on a column major batch', rel=True)
                    ctx.close(f(np.repeat(Z, 2, axis=0)[::2]), want[ids], 1e-9, what + ' on a strided batch', rel=True)
                else:
                    ctx.close(np.asarray(f([float(z) for z in Z])), want[ids], 1e-9, what + ' on a list', rel=True) if name not in ('FakeStaticSin', 'FakeMixtureGaussian') else None
                if len(ids) in (2, 3, 7):
                    # queries of options, as the simulated people are calibrated on
                    for q in ([ids], [ids, ids[::-1]], [[i, k, ids[-1]] for i in ids] , [[i] for i in ids]):
                        a = col(name, [G[i] for r in q for i in r], dim)
                        a = a.reshape((len(q), len(q[0])) + a.shape[1:])
                        if dim == 1 and a.shape[-1] == 1:
                            continue
                        o = np.asarray(f(a))
                        ctx.check(o.shape == (len(q), len(q[0])), lambda: what + ' on the queries %s: result of shape %s' % (q, o.shape))
                        ctx.close(o, [[want[i] for i in r] for r in q], 1e-9, what + ' on the queries %s of the options %s' % (q, G), rel=True)
                Z2 = np.round(Z).astype(int)
                ctx.close(np.asarray(f(Z2)), [value(name, f, z) for z in Z2], 1e-9, what + ' on whole numbers', rel=True)
        ctx.check(weights(f) == w0, what + ': evaluating changed the weights')
        ctx.state((name, dim, w0))
        ctx.outcome((name, want))
        ctx.step()
    ctx.explore(body, max_dev=None if name not in ('FakeSinExp', 'FakeMixtureGaussian', 'FakeMinLog', 'FakeLogistic') or t else 2, max_paths=2000)


def run_hist(case, ctx):
    name, dim = case['name'], case['dim']
    G = grid(dim, False)[::7][:6]
    B = col(name, G, dim)

    def body(ch):
        with env(ch, True):
            f, g = make(name, dim), make(name, dim)
        for pos, op in enumerate(case['h']):
            w, wg = weights(f), weights(g)
            what = '%s in %d dimensions after %s' % (name, dim, case['h'][:pos + 1])
            if op == 'p':
                i = pos % len(G)
                v = f(float(B[i]) if dim == 1 else B[i])
                ctx.close(np.ravel(v), [value(name, f, G[i])], 1e-9, what + ': value', rel=True)
            elif op == 'b':
                out = np.asarray(f(B))
                want = [value(name, f, r) for r in G]
                ctx.close(out, want, 1e-9, what + ': batch', rel=True)
                if out.flags.writeable and not np.shares_memory(out, B):
                    out += 3.0              # the caller changes the result
                ctx.close(np.asarray(f(B)), want, 1e-9, what + ': batch again', rel=True)
            elif op == 's':
                str(f)
            elif op == 'r':
                with env(ch, True):
                    f.randomize()
                check_weights(ctx, name, f, dim, what)
                ctx.check(weights(g) == wg, what + ': randomising changed another function')
                w = weights(f)
            elif op == 'R':
                with env(ch, True):
                    g.randomize()
            elif op == 'o':
                g(B)
            ctx.check(weights(f) == w, what + ': the weights changed')
            ctx.close(np.asarray(f(B)), [value(name, f, r) for r in G], 1e-9, what + ': values', rel=True)
            ctx.close(np.asarray(g(B)), [value(name, g, r) for r in G], 1e-9, what + ': values of the other function', rel=True)
            ctx.step()
        ctx.state((name, dim, case['h'], weights(f)))
    ctx.explore(body, max_dev=1)
