"""P21: pruning unreferenced samples keeps every judgement attached to its sample."""
import itertools

import numpy as np

import lop
from mc import ref, hist
from mc.core import Env, seeded

TECHNIQUE = 'explicit-state exploration of submission / pruning / prior-point histories on the real models, against a plain record after every step and a new model at the end'
LEVEL_NOTE = 'all histories up to the depth bound over the alphabet and all reference patterns of one batch, executed on the real code'
RULE = ('(a) every history up to the depth bound over {comparisons skipping samples, category ratings, bounded ratings, explicit-index ratings of held samples, label-free samples, '
        'prune, add prior points (exact or random, every pattern of the draw), reset, predict}, both models, with and without Pareto comparisons; (b) one batch of n samples x every '
        'set of referenced samples x judgement type carrying the reference, pruned once or twice, alone or after other data; after every operation the samples, judgements, data fit and prior points '
        'are compared with a record; at the end the predictions with those of a new model holding the record')
BOUNDS = {'quick': 'histories of depth 4 over 10 operations (5 for the pruning core); single batches of up to 6 samples, all subsets; 33 samples in 12 patterns',
          'thorough': 'histories of depth 5 over 10 operations (6 for the pruning core); single batches of up to 8 samples, all subsets; 33 samples in 12 patterns'}
ASSUMPTIONS = ['pruning and adding prior points is asked for only when the model holds samples, respectively uses Pareto comparisons']
KERN = ['rbf', 0.8, 0.6, 0.02]
TOL = 5e-3
BOUND = np.array([[-0.5, 1.5], [0.25, 2.0], [0.0, 1.0]])


def ops(ch, k, nx):
    """operation for letter ch given the pool cursor and the number of samples held"""
    if ch == 'P':
        return ['P', [k, k + 1, k + 2, k + 3], [[-1, 1, 3], [1, 3, 1]]]          # samples 0 and 2 unreferenced
    if ch == 'p':
        return ['P', [k, k + 1, k + 2], [[1, 2, 0]]]                            # the middle one unreferenced
    if ch == 'O':
        return ['O', [k, k + 1], [2, 4]]
    if ch == 'A':
        return ['A', [k, k + 1], [0.35, 0.7]]
    if ch == 'o':                       # new samples, ratings of the last new one and of the first held
        return ['Oi', [k, k + 1], [[3, nx + 1], [1, 0]]]
    if ch == 'a':
        return ['Ai', [k, k + 1, k + 2], [[0.6, nx + 1], [0.2, 0], [0.8, nx + 1]]]
    if ch == 'U':
        return ['P', [k, k + 1], []]
    raise KeyError(ch)


def cases(tier):
    t = tier == 'thorough'
    for n in range(1, (8 if t else 6) + 1):
        for refd in range(1 << n):
            for carrier in ('P', 'O', 'A', 'mix'):
                for pre in ('', 'A', 'P'):
                    if n > 5 and pre and (refd % 3):
                        continue
                    yield {'kind': 'batch', 'n': n, 'ref': refd, 'carrier': carrier, 'pre': pre, 'twice': refd % 2}
    for pat in range(12):
        yield {'kind': 'big', 'pat': pat}
    i = 0
    for d in range(2, (5 if t else 4) + 1):
        for h in itertools.product('PpOAoaUXRq', repeat=d - 1):
            if h[0] in 'XRq' or any(a == b and a in 'XRq' for a, b in zip(h, h[1:])):
                continue
            i += 1
            yield {'kind': 'hist', 'h': ''.join(h) + 'X', 'dim': (2, 0, 3, 1)[i % 4], 'lin': False, 'pareto': i % 5 == 0}
    for d in range(3, (6 if t else 5) + 1):
        for h in itertools.product('PaUX', repeat=d - 1):
            if h[0] in 'X' or 'XX' in ''.join(h):
                continue
            i += 1
            yield {'kind': 'hist', 'h': ''.join(h) + 'Xq', 'dim': (2, 3)[i % 2], 'lin': i % 3 == 0, 'pareto': i % 4 == 0}
    for d in range(1, (4 if t else 3) + 1):
        for h in itertools.product('PoAUXErR', repeat=d):
            if not set(h) & set('Er') or h[0] == 'X':
                continue
            i += 1
            s = ''.join(h)
            yield {'kind': 'hist', 'h': s, 'dim': (2, 3, 1)[i % 3], 'lin': i % 4 == 0, 'pareto': True, 'draw': 'r' in s}
            if d <= 2:
                for tail in ('A', 'o', 'X', 'E', 'Aq', 'PX', 'EX'):
                    yield {'kind': 'hist', 'h': s + tail, 'dim': (2, 3)[i % 2], 'lin': False, 'pareto': True, 'draw': False}


def make(case):
    if case.get('lin'):
        return lop.PreferenceLinear(pareto_pairs=case.get('pareto', False))
    return lop.PreferenceGP(ref.build_kernel(KERN), pareto_pairs=case.get('pareto', False))


def add_pareto(data, base):
    """the comparisons a Pareto-exploiting model adds when samples base.. arrive"""
    n = len(data.X)
    data.pairs = data.pairs + [(-1, i, j) for i in range(n) for j in range(n)
                               if max(i, j) >= base and i != j and ref.strictly_better(data.X[i], data.X[j])]


def compare(ctx, m, data, prior, what):
    hist.check_held(ctx, m, data, what)
    hist.check_fit(ctx, m, data, what)
    if prior == 'none':
        ctx.check(m.get_prior_pts() is None, lambda: what + ': prior points reported: %s' % (m.get_prior_pts(),))
    else:
        want = [data.X[i] for i in prior]
        got = m.get_prior_pts()
        got = [] if got is None else [hist.row(x) for x in got]
        ctx.check(got == want, lambda: '%s: prior points are %s, surviving prior points %s' % (what, got, want))


def do_prune(data, prior):
    data, keep = hist.prune(data)
    if prior != 'none':
        prior = [keep.index(i) for i in prior if i in keep] if data.X else 'none'
    return data, prior


def run(case, ctx):
    k = case['kind']
    if k == 'batch':
        return run_batch(case, ctx)
    if k == 'big':
        return run_big(case, ctx)
    if case.get('draw'):
        ctx.explore(lambda ch: play(case, ctx, ch), max_dev=2)
    else:
        play(case, ctx, None)


def same_predictions(ctx, m, data, dim, make_, what, lin=False):
    if lin or not data.X:
        return
    Q = np.vstack([np.array(data.X), hist.xs(max(dim, 1), [25, 26, 27])])
    Q = Q[:, 0] if dim == 0 else Q
    st = np.random.get_state()
    seeded(5)
    f = hist.fresh(make_, data, dim)
    mu, var = f.predict(Q)
    seeded(6)
    g, gv = m.predict(Q)
    np.random.set_state(st)
    ctx.close(g, mu, TOL, what + ': mean vs a new model holding the remaining data', rel=True)
    ctx.close(gv, var, TOL, what + ': variance vs a new model holding the remaining data', rel=True)
    ctx.outcome(np.round(g, 2))


def play(case, ctx, chooser):
    dim, pareto, lin = case['dim'], case['pareto'], case['lin']
    m = make(case)
    data = ref.Data()
    prior = 'none'
    k = 0
    d = max(dim, 1)
    for t, ch in enumerate(case['h']):
        what = '%s history %s, operation %d (%s)' % ('linear' if lin else 'gp', case['h'], t + 1, ch)
        base = len(data.X)
        if ch == 'R':
            m.reset()
            data, prior = ref.Data(), 'none'
        elif ch == 'X':
            if not data.X:
                continue
            m.remove_without_reference()
            data, prior = do_prune(data, prior)
        elif ch == 'q':
            if not lin and data.X:
                m.predict(hist.xs(dim, [28, 29]))
        elif ch == 'E':
            pts = hist.xs(d, [k + 4, k, k + 7, k + 1, k + 9]) - 0.3
            k += 2
            p0 = pts.copy()
            m.add_prior(bounds=BOUND[:d], num_pts=77, method='exact', pts=pts)
            ctx.check(np.array_equal(p0, pts), what + ': the prior points passed in were changed')
            data.X = data.X + [hist.row(x) for x in pts]
            prior = list(range(base, base + 5))
            add_pareto(data, base)
            data, prior = do_prune(data, prior)
        elif ch == 'r':
            n = (2, 4, 6)[t % 3]
            b0 = BOUND[:d].copy()
            b = b0.copy()
            if chooser is not None:
                with Env(chooser, vec=('mid', 'up', 'low', 'down')) as env:
                    m.add_prior(bounds=b, num_pts=n)
            else:
                seeded(40 + t)
                m.add_prior(bounds=b, num_pts=n)
            ctx.check(np.array_equal(b, b0), what + ': the bounds passed in were changed')
            # which of the random points survive shows in the model: they must be in bounds, no more than asked for,
            # and the record continues from the model's own samples
            got = [] if m.X_train is None else [hist.row(x) for x in m.X_train]
            old, _ = hist.prune(record_with(data, []))
            pp = m.get_prior_pts()
            pp = [] if pp is None else [hist.row(x) for x in pp]
            ctx.check(len(pp) <= n, lambda: '%s: %d prior points, %d asked for' % (what, len(pp), n))
            for x in pp:
                ctx.check(all(lo - 1e-12 <= v <= hi + 1e-12 for v, (lo, hi) in zip(x, b0)), lambda: '%s: prior point %s outside the bounds %s' % (what, x, b0))
            if n > 2:
                lo, hi = tuple(b0[:, 0]), tuple(b0[:, 1])
                ctx.check(lo in pp and hi in pp, lambda: '%s: prior points %s lack the corners of the bounds' % (what, pp))
            # rebuild: earlier samples + prior points + dominance comparisons, pruned (pruned points take no part in any)
            full = record_with(data, pp)
            add_pareto(full, base)
            prior = list(range(base, base + len(pp)))
            data, prior = do_prune(full, prior)
            if prior == 'none' and data.X:
                prior = []
            ctx.check(len(pp) == (0 if prior == 'none' else len(prior)), lambda: '%s: prior points %s without any comparison' % (what, pp))
        else:
            op = ops(ch, k, base)
            if op[0] in ('Oi', 'Ai') and base == 0:
                op[2] = [q for q in op[2] if q[1] != 0] or op[2]
            k += len(op[1])
            X, y, typ = hist.call_args(dim, op)
            m.add(X, y, type=typ)
            hist.expect_add(data, dim, op)
            if pareto:
                add_pareto(data, base)
        compare(ctx, m, data, prior, what)
        ctx.step()
        ctx.state((lin, pareto, dim, data.key(), prior))
    same_predictions(ctx, m, data, dim, lambda: lop.PreferenceGP(ref.build_kernel(KERN)), 'history %s' % case['h'], lin)


def record_with(data, extra):
    out = ref.Data()
    out.X = list(data.X) + list(extra)
    out.pairs, out.ords, out.abss = list(data.pairs), list(data.ords), list(data.abss)
    return out


def run_batch(case, ctx):
    n, refd, carrier = case['n'], [i for i in range(case['n']) if case['ref'] >> i & 1], case['carrier']
    dim = 2
    m = make({})
    data = ref.Data()
    k = 0
    for ch in case['pre']:
        op = ops(ch, k, 0)
        k += len(op[1])
        m.add(*hist.call_args(dim, op)[:2], type=hist.call_args(dim, op)[2])
        hist.expect_add(data, dim, op)
    base = len(data.X)
    ids = list(range(k, k + n))
    todo = []
    if carrier == 'P' or (carrier == 'mix' and len(refd) > 2):
        part = refd if carrier == 'P' else refd[::2]
        prs = [[(-1) ** i, a, part[(i + 1) % len(part)]] for i, a in enumerate(part)] if len(part) > 1 else []
        todo.append(['P', ids, prs])
        rest = [i for i in refd if i not in part] if len(part) > 1 else refd
    else:
        todo.append(['P', ids, []])
        rest = refd
    if rest and carrier in ('O', 'mix'):
        todo.append(['Oi', [], [[1 + i % 5, base + r] for i, r in enumerate(rest[::-1])]])
    elif rest and carrier == 'A':
        todo.append(['Ai', [], [[0.15 + 0.1 * i, base + r] for i, r in enumerate(rest[::-1])]])
    what = 'batch %s' % case
    for op in todo:
        X, y, typ = hist.call_args(dim, op)
        m.add(X, y, type=typ)
        hist.expect_add(data, dim, op)
    for r in range(1 + case['twice']):
        if not data.X:
            break
        m.remove_without_reference()
        data, prior = do_prune(data, 'none')
        compare(ctx, m, data, prior, what + ' pruned')
        ctx.step()
        ctx.state((data.key(), carrier, r))
    # later submissions refer to the right samples
    op = ['P', [28, 29], [[-1, 1, 0]]]
    X, y, typ = hist.call_args(dim, op)
    m.add(X, y, type=typ)
    hist.expect_add(data, dim, op)
    compare(ctx, m, data, 'none', what + ' followed by a comparison')
    op = ['A', [30], [0.9]]
    X, y, typ = hist.call_args(dim, op)
    m.add(X, y, type=typ)
    hist.expect_add(data, dim, op)
    compare(ctx, m, data, 'none', what + ' followed by a rating')
    if n <= 4:
        same_predictions(ctx, m, data, dim, lambda: make({}), what)


def run_big(case, ctx):
    p = case['pat']
    n = 33
    refd = [i for i in range(n) if [i % 2, i % 3, i > 16, i < 16, i in (0, 32), i in (15, 16, 17), 1, i != 16, i not in (0, 32), i % 5 == 0, i % 11 == 10, i in (1, 31)][p]]
    data = ref.Data()
    m = make({})
    op = ['P', list(range(n)), [[(-1) ** i, a, refd[(i + 1) % len(refd)]] for i, a in enumerate(refd)]]
    if p % 2:
        op = ['Ai', list(range(n)), [[0.1 + 0.02 * i, a] for i, a in enumerate(refd)]]
    X, y, typ = hist.call_args(2, op)
    m.add(X, y, type=typ)
    hist.expect_add(data, 2, op)
    m.remove_without_reference()
    data, _ = do_prune(data, 'none')
    compare(ctx, m, data, 'none', 'big batch %s pruned' % case)
    ctx.state(case)
    ctx.step()
