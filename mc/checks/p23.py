"""P23: samplers return valid samples of what they were asked for."""
import itertools
import math

import numpy as np

import lop
from mc.core import Env, Chooser

TECHNIQUE = 'exhaustive exploration of every answer of the random draws (set draws, acceptance draws) of the real samplers, the chain judged by the exact distribution over accept/reject histories'
LEVEL_NOTE = 'every draw sequence within the bounds on the real code; redraw loops are explored up to the stated number of draws and then continue with a fixed fair sequence'
RULE = ('(a) source size and kind (count, array, list, unordered and non-consecutive members) x set size x every feasible number of sets x every answer of every draw; (b) chain length x burn-in x dimension x proposal tables x '
        'likelihood tables (zero likelihood included) x every acceptance draw on a grid on which the acceptance probabilities are exact; (c) the default proposal')
BOUNDS = {'quick': 'sources of up to 5 members, all set sizes, all feasible set counts, the first 1-8 draws explored (every ordered selection each); chains of up to 4 steps, 4 acceptance values, 40 tables',
          'thorough': 'sources of up to 6 members, the first 1-13 draws explored; chains of up to 5 steps, 160 tables'}
ASSUMPTIONS = ['as many sets as requested exist; the members of the source are pairwise different numbers']
SRC = ['int', 'array', 'list', 'gaps', 'unsorted', 'float']


def source(kind, n):
    if kind == 'int':
        return n, list(range(n))
    m = {'array': list(range(n)), 'list': list(range(n)), 'gaps': [3 * i + 4 for i in range(n)], 'unsorted': [(5 * i + 3) % 7 - 2 for i in range(n)], 'float': [0.25 + 0.5 * i for i in range(n)]}[kind]
    return (m if kind == 'list' else np.array(m)), m


def cases(tier):
    t = tier == 'thorough'
    for n in range(1, 7 if t else 6):
        for k in range(1, n + 1):
            total = math.comb(n, k)
            for num in range(1, total + 1):
                for kind in SRC:
                    if n >= 5 and not t and (num + len(kind)) % 2:
                        continue
                    yield {'kind': 'sets', 'n': n, 'k': k, 'num': num, 'src': kind}
    for c in range(160 if t else 40):
        for steps in range(1, 6 if t else 5):
            for burn in range(0, steps):
                yield {'kind': 'chain', 'c': c, 'steps': steps, 'burn': burn, 'dim': 1 + c % 3}
    for dim in (1, 2, 3):
        for burn in (0, 1, 2):
            yield {'kind': 'default', 'dim': dim, 'burn': burn}


def run(case, ctx):
    {'sets': run_sets, 'chain': run_chain, 'default': run_default}[case['kind']](case, ctx)


def run_sets(case, ctx):
    n, k, num = case['n'], case['k'], case['num']
    arg, members = source(case['src'], n)
    menu = math.perm(n, k)
    limit = 14000 if ctx.tier == 'thorough' else 400
    fair = max(1, int(math.log(limit) / math.log(max(menu, 2)) + 1e-9))

    def body(ch):
        keep = np.array(arg)
        with Env(ch, max_enum=800):
            got = lop.sample_unique_sets(arg, num, k)
        got = np.asarray(got)
        what = '%d sets of %d from %s' % (num, k, members)
        ctx.check(got.shape == (num, k), lambda: '%s: shape %s' % (what, got.shape))
        rows = [tuple(sorted(float(v) for v in r)) for r in got]
        for r in rows:
            ctx.check(len(set(r)) == k and set(r) <= set(float(m) for m in members), lambda: '%s: %s is not a set of %d members' % (what, r, k))
        ctx.check(len(set(rows)) == num, lambda: '%s: not pairwise different: %s' % (what, rows))
        ctx.check(np.array_equal(np.array(arg), keep), what + ': the source was changed')
        ctx.outcome((case['src'], n, k, rows))
        ctx.step()

    def body2(ch):
        what = 'sets of %d from %s' % (k, members)
        with Env(ch, max_enum=800):
            loose = np.asarray(lop.sample_nonunique_sets(arg, 2, k))
        ctx.check(loose.shape == (2, k), lambda: '%s: sets that may repeat: shape %s' % (what, loose.shape))
        for r in loose:
            ctx.check(len(set(r)) == k and set(float(v) for v in r) <= set(float(m) for m in members), lambda: '%s: %s is not a set of %d members' % (what, r, k))
    if num == 1 and menu < 100:
        ctx.explore(body2)
    ctx.explore(body, fair_after=fair)
    ctx.state((n, k, num, case['src']))


K = 4


def run_chain(case, ctx):
    """the proposal of step i is table[i]; likelihood ratios are multiples of 1/K, so that with acceptance draws
    (j+1/2)/K every accept/reject history has exactly its probability"""
    c, steps, burn, dim = case['c'], case['steps'], case['burn'], case['dim']
    lev = [0, 1, 2, 3, 4, 6][:5 if c % 4 else 6]                  # likelihood levels / 4
    props = [lev[(c * (i + 2) + c // 5 + i * i * 3 + (c >> i)) % len(lev)] for i in range(steps)]
    start = 1 + c % 4
    pts = [np.arange(dim) + 10.0 * (i + 1) for i in range(steps)]
    starts = []
    dist = {}

    def body(ch):
        calls = []
        cur_seen = []

        def ll(x):
            x = np.asarray(x)
            for i, p in enumerate(pts):
                if np.array_equal(x, p):
                    v = props[i]
                    return math.log(v / 4.0) if v else -np.inf
            starts.append(x)
            return math.log(start / 4.0)

        def prop(x):
            cur_seen.append(np.array(x))
            calls.append(1)
            return pts[len(calls) - 1].copy()
        with Env(ch, u=tuple((i + 0.5) / K for i in range(K)), vec=('mid', 'low', 'high') if steps == 1 else ('mid',)):
            out = lop.metropolis_hastings(ll, steps - burn, dim=dim, num_to_burn=burn, prop_distribution=prop)
        out = np.asarray(out)
        ctx.check(out.shape == (steps - burn, dim), lambda: 'the chain returned shape %s for %d samples of dimension %d' % (out.shape, steps - burn, dim))
        ctx.check(len(calls) == steps, lambda: '%d proposals for %d samples after %d of burn-in' % (len(calls), steps - burn, burn))

        def name(x):
            for i, p in enumerate(pts):
                if np.array_equal(x, p):
                    return i
            return -1
        ctx.check(all(np.shape(x) == (dim,) and (np.abs(x) <= 1).all() for x in starts), lambda: 'start states %s' % starts[:3])
        hist = tuple(name(x) for x in cur_seen[1:]) + (name(out[-1]),)
        ctx.check(name(cur_seen[0]) == -1, 'the first proposal does not start from the initial state')
        ctx.check([name(x) for x in out] == list(hist[burn:]), lambda: 'the chain went through %s and returned %s after a burn-in of %d' % (hist, [name(x) for x in out], burn))
        w = 1.0
        for n, _, _ in ch.points:
            w /= n
        dist[hist] = dist.get(hist, 0.0) + w
        ctx.step(steps)
    ctx.explore(body)
    want = {}

    def rec(i, cur, cl, w, h):
        if w == 0:
            return
        if i == steps:
            want[h] = want.get(h, 0) + w
            return
        a = min(1.0, props[i] / cl)
        rec(i + 1, i, props[i], w * a, h + (i,))
        rec(i + 1, cur, cl, w * (1 - a), h + (cur,))
    rec(0, -1, start, 1.0, ())
    exact = all((K * min(1.0, p / q)) % 1 == 0 for p in props for q in [start] + props if q)
    tol = 1e-9 if exact else 1.01 * steps / K / 2
    for h in set(want) | set(dist):
        ctx.check(abs(want.get(h, 0) - dist.get(h, 0)) <= tol,
                  lambda: 'likelihoods %s from %s: the history of states %s has probability %r instead of %r' % ([p / 4 for p in props], start / 4, h, dist.get(h, 0), want.get(h, 0)))
        ctx.outcome((props, start, h))
    if not exact:
        # per step: acceptance probability rounded to the draw grid
        grid = {}

        def rec2(i, cur, cl, w, h):
            if i == steps:
                grid[h] = grid.get(h, 0) + w
                return
            r = props[i] / cl
            a = sum(1 for j in range(K) if r > (j + 0.5) / K) / K
            if a:
                rec2(i + 1, i, props[i], w * a, h + (i,))
            if a < 1:
                rec2(i + 1, cur, cl, w * (1 - a), h + (cur,))
        rec2(0, -1, start, 1.0, ())
        for h in set(grid) | set(dist):
            ctx.check(abs(grid.get(h, 0) - dist.get(h, 0)) <= 1e-9, lambda: 'likelihoods %s from %s: the states %s are reached for a share %r of the acceptance draws instead of %r' % ([p / 4 for p in props], start / 4, h, dist.get(h, 0), grid.get(h, 0)))
    ctx.state((props, start, steps, burn, dim))


def run_default(case, ctx):
    """the default proposal is symmetric around the current state; lop uses it with these defaults"""
    dim, burn = case['dim'], case['burn']
    steps = {}

    def body(ch):
        seen = []
        with Env(ch, u=(0.02, 0.6), z=(-1.0, 1.0)):
            def ll(x):
                seen.append(np.array(x, dtype=float))
                return -0.5 * float(np.sum(np.square(x)))
            out = np.asarray(lop.metropolis_hastings(ll, 2, dim=dim, num_to_burn=burn))
        ctx.check(out.shape == (2, dim), lambda: 'shape %s' % (out.shape,))
        ctx.check(all(any(np.allclose(x, s) for s in seen) for x in out), 'a returned state was never evaluated')
        d = tuple(np.round(seen[1] - seen[0], 9))
        steps[d] = steps.get(d, 0) + 1
        ctx.step()
    ctx.explore(body)
    for d in steps:
        ctx.check(tuple(-v for v in d) in steps and any(v for v in d), lambda: 'proposal steps %s are not symmetric' % sorted(steps))
    ctx.check(all(len(set(np.abs(d))) == 1 or dim > 1 for d in steps), 'proposal')
    ctx.state((dim, burn, tuple(sorted(steps))))
    ch = Chooser([])
    with Env(ch):
        n = len(np.asarray(lop.metropolis_hastings(lambda x: 0.0, 3, dim=dim)))
    ctx.check(n == 3, lambda: '%d samples with the default burn-in' % n)
