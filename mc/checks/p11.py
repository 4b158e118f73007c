"""P11: a query holds the asked number of distinct, new, preferred-first candidates."""
import itertools

import numpy as np

import lop
from lop.active_learning import ActiveLearner
from mc import ref, hist, learn
from mc.core import Chooser, Env, PdbTrap, raises, seeded

TECHNIQUE = 'exhaustive exploration of the real selection loop under scripted sub-choices (every answer of every greedy or pair pick), over all small option combinations; all draws for the real learners'
LEVEL_NOTE = 'all option combinations within the bounds and, in each, every sequence of greedy / pair picks, executed on the real selection loop'
RULE = ('(a) every number of candidates, number asked for, previous selection, preference (none, count, list, set, Pareto, default Pareto), best-first flag, set-aside flag, pair-first flag and '
        'limit on the query size x every sequence of greedy/pair picks a learner could make; (b) each real learner x model x the same options on 4-5 candidates x every random draw; '
        'every mixing learner around real sub learners with the same options and with set-aside reporting; (c) pair picking from every small metric matrix (ties included) x allowed set x earlier picks x draw; (d) best-point choice over all score vectors')
BOUNDS = {'quick': 'candidates <= 4, all previous selections and preferences; real learners on 4 candidates, one non-default draw; metric matrices 2x2 and 3x3 over 3 values',
          'thorough': 'candidates <= 5, all previous selections and preferences; real learners on 5 candidates, two non-default draws; metric matrices up to 3x3 over 4 values, 4x4 symmetric over 2'}
ASSUMPTIONS = ['preferred counts and indices name existing candidates; scores are finite']
MU = [0.3, 0.9, 0.3, -0.4, 0.7]


def prefs(n, t):
    out = [['none'], ['int', 0]] + [['int', c] for c in range(1, n + 1)] + [['pareto']]
    for r in range(0, n + 1):
        for s in itertools.combinations(range(n), r):
            out.append(['set', list(s)])
            out.append(['list', list(reversed(s))])
    return out


def cases(tier):
    t = tier == 'thorough'
    for n in range(1, (5 if t else 4) + 1):
        for r in range(0, n + 1):
            for prev in itertools.combinations(range(n), r):
                for pref in prefs(n, t):
                    yield {'kind': 'loop', 'n': n, 'prev': list(prev), 'pref': pref}
    n = 5 if t else 4
    for L in LEARNERS:
        for model in ('pref', 'empty', 'gp', 'lin'):
            if not allowed(L, model):
                continue
            for pv, pref in itertools.product(([], [1], [2, 0], list(range(1, n))), (['none'], ['int', 2], ['list', [3]], ['set', [1, 3]], ['pareto'], ['list', []])):
                light = not t and (model == 'lin' or L == 'Abs' and model == 'pref')       # the slow ones: fewer option sets
                if light and (pref[0] in ('set', 'pareto') or len(pv) > 1):
                    continue
                yield {'kind': 'real', 'L': L, 'model': model, 'n': n, 'prev': pv, 'pref': pref, 'light': light}
    for n, vals in ((2, 3), (3, 4 if t else 3)):
        m = n * (n - 1)
        for i in range(vals ** m):
            if n == 3 and not t and i % 3:
                continue
            yield {'kind': 'pick', 'n': n, 'code': i, 'vals': vals}
    for i in range(2 ** 6):
        yield {'kind': 'pick', 'n': 4, 'code': i, 'vals': 2, 'sym': True}
    yield {'kind': 'best'}
    for L in MIXED:
        for pv, pref in itertools.product(([], [1], [2, 0]), (['none'], ['int', 2], ['list', [3]], ['set', [1, 3]], ['pareto'], ['list', []])):
            yield {'kind': 'mixed', 'L': L, 'n': 5 if t else 4, 'prev': pv, 'pref': pref}
    for L in ('ProbabilityLearner', 'AbsBayesInfo'):
        yield {'kind': 'unfinished', 'L': L}
    for pref in (['none'], ['int', 3], ['set', [0, 7, 30]], ['pareto']):
        yield {'kind': 'many', 'pref': pref}


LEARNERS = ['Best', 'Worst', 'Random', 'UCB', 'GV', 'Mutual', 'Bayes', 'Acq', 'AcqLL', 'Abs']


MIXED = ['RateChooseLearner', 'MixedComparision', 'MixedComparisionEqualChecking', 'MixedComparisionSetFixed', 'MixedAlternating', 'MixedStrategy', 'MixedStrategyPeak',
         'MixedStrategyPeak2', 'MixedStrategyPeak3', 'MixedStrategyRevPeak', 'MixedDecision', 'MixedDecision2']


def build_mixed(L, best):
    pl, al, comp = build('Acq', always_select_best=best), build('Abs'), build('Abs')      # a rating learner that must take the best has no benefit to report
    cls = getattr(lop, L)
    if L in ('MixedComparision', 'MixedComparisionEqualChecking'):
        return cls(pl, build('UCB'), comp)
    if L in ('MixedDecision', 'MixedDecision2'):
        return cls(pl, al, comp, 0.4)
    if L == 'MixedComparisionSetFixed':
        return cls(pl, al, 2)
    if L in ('RateChooseLearner', 'MixedAlternating'):
        return cls(pl, al)
    return cls(pl, al, 0.4)


def allowed(L, model):
    if L in ('Bayes', 'Acq', 'AcqLL', 'Abs') and model == 'gp':
        return False                      # need a preference model's likelihood
    if L in ('Mutual', 'UCB', 'GV', 'Acq', 'AcqLL', 'Abs', 'Bayes') and model == 'lin':
        return True
    return True


def build(L, **kw):
    A = lop
    rep = {'num_pts': 4, 'num_Q': 3}
    if L == 'Best':
        return A.BestLearner(**kw)
    if L == 'Worst':
        return A.WorstLearner(**kw)
    if L == 'Random':
        return A.RandomLearner(**kw)
    if L == 'UCB':
        return A.UCBLearner(0.7, **kw)
    if L == 'GV':
        return A.GV_UCBLearner(0.7, **kw)
    if L == 'Mutual':
        l = A.MutualInfoLearner(**kw)
        l.M = 5
        return l
    if L == 'Bayes':
        return A.BayesInfoGain(**kw)
    if L == 'Acq':
        return A.AcquisitionSelection(M=5, rep_Q_data=rep, **kw)
    if L == 'AcqLL':
        return A.AcquisitionSelection(M=5, rep_Q_data=rep, alignment_f='loglikelihood', **kw)
    return A.AbsAcquisition(M=4, rep_Q_data=rep, **kw)


def arg(spec):
    k = spec[0]
    return {'none': lambda: None, 'int': lambda: spec[1], 'pareto': lambda: 'pareto',
            'set': lambda: set(spec[1]), 'list': lambda: list(spec[1])}[k]()


def preferred(spec, X, default_pareto):
    n = len(X)
    k = spec[0]
    if k in ('set', 'list'):
        return set(spec[1])
    if k == 'pareto' or (k == 'none' and default_pareto):
        rows = [hist.row(x) for x in X]
        return {i for i in range(n) if not any(ref.dominates(rows[j], rows[i]) for j in range(n) if j != i)}
    if k == 'none' or spec[1] == 0:
        return set(range(n))
    return set(range(spec[1]))


def judge(ctx, ok, val, n, k, prev, P, mu, best_first, setaside, what, picks=None):
    """the contract of one selection"""
    left = [i for i in range(n) if i not in prev]
    if k > len(left):
        ctx.check(not ok and not isinstance(val, PdbTrap), lambda: '%s: returned %s although only %d candidates remain' % (what, val, len(left)))
        return
    ctx.check(ok, lambda: '%s: failed with %r although %d candidates remain' % (what, val, len(left)))
    if setaside:
        ctx.check(isinstance(val, tuple) and len(val) == 2, lambda: '%s: returned %s' % (what, val))
        sel, aside = [int(i) for i in val[0]], [int(i) for i in val[1]]
    else:
        sel, aside = [int(i) for i in val], []
    ctx.check(len(sel) == k, lambda: '%s: %d candidates %s for %d asked' % (what, len(sel), sel, k))
    ctx.check(len(set(sel)) == len(sel), lambda: '%s: repeated candidate in %s' % (what, sel))
    ctx.check(all(i in left for i in sel), lambda: '%s: %s holds an invalid or previously selected candidate' % (what, sel))
    pl = [i for i in left if i in P]
    for t, i in enumerate(sel):
        if i not in P:
            ctx.check(set(pl) <= set(sel[:t]), lambda: '%s: %s takes candidate %d before the preferred %s are used up' % (what, sel, i, pl))
    if best_first and not prev:
        pool = pl or left
        ctx.check(sel[0] in pool and mu[sel[0]] == max(mu[i] for i in pool), lambda: '%s: %s does not start with the best of %s (predictions %s)' % (what, sel, pool, list(mu)))
    ctx.check(len(set(aside)) == len(aside) and not set(aside) & set(sel) and all(i in left for i in aside), lambda: '%s: set aside %s with selection %s' % (what, aside, sel))
    if setaside:
        ctx.check(not set(aside) & P, lambda: '%s: preferred candidates among the set aside %s' % (what, aside))
        if picks is not None:
            ctx.check(set(picks) == (set(sel) | set(aside)) - ({sel[0]} if best_first and not prev else set()) or set(picks) == set(sel) | set(aside),
                      lambda: '%s: the learner passed over %s, reported set aside %s' % (what, sorted(set(picks) - set(sel)), aside))
    ctx.outcome((tuple(sel), tuple(aside)))


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def run_loop(case, ctx):
    n, prev, spec = case['n'], case['prev'], case['pref']
    X = learn.cands(n)
    X0 = X.copy()
    model = learn.TabGP(learn.Table(X, MU[:n], np.eye(n)))
    left = n - len(prev)
    for cls, dp, best, setaside, pf, cap in itertools.product((learn.Scripted, learn.ScriptedPair), (False, True), (False, True), (False, True), (True, False), (None, 1, 2)):
        if cls is learn.Scripted and not pf:
            continue
        if dp and spec[0] not in ('none', 'int', 'set') or (dp and spec[0] == 'int' and spec[1] > 1) or (dp and spec[0] == 'set' and len(spec[1]) != 1):
            continue
        if cap and (spec[0] != 'none' or dp):
            continue
        P = preferred(spec, X, dp)
        for k in range(1, n + 2):
            if k > left + 1:
                continue
            what = '%s n=%d asked=%d previous=%s prefer=%s default_pareto=%s best_first=%s set_aside=%s pair_first=%s limit=%s' % (cls.__name__, n, k, prev, spec, dp, best, setaside, pf, cap)
            kk = min(k, cap) if cap else k

            def body(ch):
                L = cls(ch, default_to_pareto=dp, always_select_best=best)
                if cap:
                    L.max_num_alts = cap
                L.set_model(model)
                pv = [list, tuple, set][k % 3](prev)
                bad, val = raises(L.select, X, k, pv, arg(spec), setaside, pf)
                picks = []
                for c in L.calls:
                    picks += list(c[3]) if c[0] == 'pair' else [c[3]]
                judge(ctx, not bad, val, n, kk, set(prev), P, MU, best, setaside, what + ' picks=%s' % (picks,), picks)
                ctx.step()
            ctx.explore(body)
            ctx.state((n, tuple(prev), str(spec), cls.__name__, dp, best, setaside, pf, cap, k))
    ctx.check(np.array_equal(X, X0), 'the candidates were changed')


def model_for(kind, X):
    n = len(X)
    mu = np.array(MU[:n])
    B = np.array([[1.0 if i == j else 0.35 * ((i * j) % 3 - 0.7) for j in range(n)] for i in range(n)])
    # training samples are part of the table: the acquisition learners predict at them too
    T = hist.xs(2, [0, 1, 2, 3, 4])
    XA = np.vstack([X, T])
    mua = np.concatenate([mu, [0.1, -0.3, 0.5, 0.2, 0.0]])
    C = np.eye(len(XA)) * 0.3
    C[:n, :n] = 0.25 * (B @ B.T)
    C[:n, n:] = 0.05
    C[n:, :n] = 0.05
    if kind == 'gp':
        return learn.TabGP(learn.Table(XA, mua, C))
    if kind == 'lin':
        m = lop.PreferenceLinear()
        m.add(T, [(-1, 0, 1), (-1, 0, 1), (1, 0, 1), (-1, 2, 3), (1, 2, 3), (-1, 4, 3)])
        seeded(4)
        m.predict(X)
        return m
    m = learn.TabPref(learn.Table(XA, mua, C))
    if kind == 'pref':
        m.add(T, [(-1, 0, 1), (1, 2, 3), (-1, 4, 0)])
    return m


def run_real(case, ctx):
    n, prev, spec = case['n'], case['prev'], case['pref']
    X = learn.cands(n)
    left = n - len(prev)
    model = model_for(case['model'], X)
    slow = case['model'] == 'lin'
    for best, setaside in itertools.product((False, True), (False, True)):
        for k in range(1, min(n, left + 1) + 1):
            if case['light'] and (k in (1, 3) or (case['L'] == 'Abs' and k > 2)):
                continue
            L = build(case['L'], always_select_best=best)
            L.set_model(model)
            P = preferred(spec, X, False)
            kk = 1 if case['L'] == 'Abs' else k
            what = '%s learner on %s model, n=%d asked=%d previous=%s prefer=%s best_first=%s set_aside=%s' % (case['L'], case['model'], n, k, prev, spec, best, setaside)

            def body(ch):
                with learn.LEnv(ch, u=(0.02, 0.5, 0.97), z=(-1.0, 1.0, 0.3), patterns=(0, 1), vec=('mid',), max_enum=6):
                    bad, val = raises(L.select, X, k, list(prev), arg(spec), setaside)
                mu = MU if not slow else list(model.predict(X)[0])
                judge(ctx, not bad, val, n, kk, set(prev), P, mu, best, setaside, what)
                ctx.step()
            ctx.explore(body, max_dev=0 if case['light'] else 1 if ctx.tier != 'thorough' else 2, max_paths=400, fair_after=2 if slow else 8)
            ctx.state((case, best, setaside, k))


def run_mixed(case, ctx):
    """learners that mix query types, with real sub learners: whichever type they return is a proper query"""
    n, prev, spec = case['n'], case['prev'], case['pref']
    X = learn.cands(n)
    left = n - len(prev)
    P = preferred(spec, X, False)
    mu = MU[:n] if n <= len(MU) else None
    for best, setaside in itertools.product((False, True), (False, True)):
        k = min(2, left)
        what = '%s n=%d asked=%d previous=%s prefer=%s best_first=%s set_aside=%s' % (case['L'], n, k, prev, spec, best, setaside)

        def body(ch):
            L = build_mixed(case['L'], best)
            L.set_model(model_for('pref', X))
            for call in range(7 if 'Decision' in case['L'] else 3):
                with learn.LEnv(ch, u=(0.02, 0.5, 0.97), z=(-1.0, 1.0, 0.3), patterns=(0, 1), vec=('mid',), max_enum=6):
                    bad, val = raises(L.select, X, k, list(prev), arg(spec), setaside)
                w = '%s call %d' % (what, call + 1)
                ctx.check(not bad, lambda: '%s: failed with %r' % (w, val))
                sel = val[0] if setaside else val
                judge(ctx, not bad, val, n, 1 if len(sel) == 1 else k, set(prev), P, mu, best and len(sel) > 1, setaside, w)
                ctx.step()
        ctx.explore(body, max_dev=0 if ctx.tier != 'thorough' else 1, max_paths=200, fair_after=8)
        ctx.state((case, best, setaside, k))


def run_pick(case, ctx):
    n, vals, code = case['n'], case['vals'], case['code']
    off = [(i, j) for i in range(n) for j in range(n) if (i < j if case.get('sym') else i != j)]
    M = np.full((n, n), 5.0)
    for (i, j) in off:
        M[i, j] = code % vals
        if case.get('sym'):
            M[j, i] = M[i, j]
        code //= vals
    L = ActiveLearner()
    for r in range(2, n + 1):
        for ids in itertools.combinations(range(n), r):
            for prev in [()] + [c for q in range(1, n - 1) for c in itertools.combinations(range(n), q)]:
                free = [(i, j) for i in ids for j in ids if i != j and not (i in prev and j in prev)]
                if not free:
                    continue
                reach = set()

                def body(ch):
                    with Env(ch):
                        got = L.pick_pair_from_metric(M.copy(), set(prev), None if len(ids) == n and len(prev) % 2 else ids)
                    got = (int(got[0]), int(got[1]))
                    what = 'metric %s, allowed %s, earlier %s: picked %s' % (M.tolist(), ids, prev, got)
                    ctx.check(got in [(i, j) for i in ids for j in ids if i != j], what)
                    top = max(M[p] for p in [(i, j) for i in ids for j in ids if i != j])
                    ctx.check(got in free, what + ': both were picked earlier')
                    ctx.check(M[got] == top or M[got] == max(M[p] for p in free), lambda: what + ': not a best pair')
                    reach.add(got)
                    ctx.step()
                ctx.explore(body)
                ctx.outcome(tuple(sorted(reach)))
                ctx.state((n, case['code'], ids, prev))


def run_unfinished(case, ctx):
    """exported learners whose selection is unfinished upstream (recorded findings)"""
    import lop.active_learning.AbsBayesInfo as mod
    from scipy.integrate import quad_vec
    X = learn.cands(4)
    model = model_for('pref', X)
    keep = getattr(mod, 'quad_vec', None)
    if keep is not None:
        mod.quad_vec = lambda *a, **k: quad_vec(*a, **dict(k, workers=1))      # no process pool
    try:
        for k in (1, 2):
            L = getattr(lop, case['L'])(M=5) if case['L'] == 'AbsBayesInfo' else getattr(lop, case['L'])()
            L.set_model(model)
            with learn.LEnv(Chooser([], fair_after=0), u=(0.5,), z=(0.3,), patterns=(0,), vec=('mid',), max_enum=6):
                bad, val = raises(L.select, X, k)
            kk = 1 if case['L'] == 'AbsBayesInfo' else k
            ok = not bad and val is not None and len(np.ravel(val)) == kk and len(set(np.ravel(val).tolist())) == kk and all(v in range(4) for v in np.ravel(val).tolist())
            ctx.check(ok, lambda: '%s.select of %d of 4 candidates: %s' % (case['L'], k, '%s: %s' % (type(val).__name__, val) if bad else val), key=case['L'])
            ctx.step()
            ctx.state((case['L'], k))
    finally:
        if keep is not None:
            mod.quad_vec = keep


def run_best(case, ctx):
    L = ActiveLearner()
    for n in range(1, 5):
        for mu in itertools.product((-1.0, 0.5, 0.7), repeat=n):
            for r in range(0, n + 1):
                for P in itertools.combinations(range(n), r):
                    for q in range(0, n + 1):
                        for prev in itertools.combinations(range(n), q):
                            pool = [i for i in P if i not in prev] or [i for i in range(n) if i not in prev]
                            bad, i = raises(L.select_best, np.array(mu), set(P), [set, list][q % 2](prev))
                            what = 'best point of %s, preferred %s, earlier %s' % (mu, P, prev)
                            if not pool:
                                ctx.check(bad, lambda: '%s: returned %s' % (what, i))
                            else:
                                ctx.check(not bad and i in pool and mu[i] == max(mu[j] for j in pool), lambda: '%s: returned %s' % (what, i))
                            ctx.step()
            ctx.state(mu)


def run_many(case, ctx):
    """more candidates than any chunk, every learner once per option set"""
    n = 33
    X = learn.cands(n)
    mu = [0.01 * ((i * 17) % 33) for i in range(n)]
    model = learn.TabGP(learn.Table(X, mu, np.eye(n) * 0.3 + 0.1))
    for prev in ([], [0], list(range(0, 33, 2)), list(range(30))):
        for k in (1, 2, 3, 5, 17, 33):
            for best, setaside, L in itertools.product((False, True), (False, True), ('Best', 'Worst', 'UCB', 'Random')):
                P = preferred(case['pref'], X, False)
                l = build(L, always_select_best=best)
                l.set_model(model)
                seeded(3)
                bad, val = raises(l.select, X, k, list(prev), arg(case['pref']), setaside)
                judge(ctx, not bad, val, n, k, set(prev), P, mu, best, setaside, '%s n=33 asked=%d previous=%s prefer=%s best=%s aside=%s' % (L, k, prev, case['pref'], best, setaside))
                ctx.step()
                ctx.state((L, len(prev), k, best, setaside, str(case['pref'])))
