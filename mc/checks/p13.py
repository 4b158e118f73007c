"""P13: information-based learners pick the query of maximal expected information."""
import itertools

import numpy as np
from scipy.stats import beta, multivariate_normal
from scipy.special import ndtr

import lop
from lop.utilities import metropolis_hastings
from mc import ref, hist, learn
from mc.core import Env, seeded
from mc.checks.p11 import arg, preferred

TECHNIQUE = 'exhaustive enumeration of reward-sample matrices, eligible sets and options on the real learners with the sampling replaced by the enumerated matrices; every outcome judged against the definition'
LEVEL_NOTE = 'all sample matrices of the alphabet within the bounds on the real learners; the definition is evaluated by brute force over every query'
RULE = ('reward samples: every assignment of orderings of 3 rewards to 3 sampled reward functions and structured sets of 2-12 functions over 3-5 candidates (the large ones take the compiled path) x alignment measure x '
        'number asked x eligible set / preference / previous selection x set-aside; samples handed over by the sharing interface or drawn through a scripted Gaussian draw (whose mean and covariance must be the '
        'joint prediction of candidates and representative points) or by the Markov chain of the linear model; mutual information incl. magnitudes at which choices lose all probability; '
        'Bayesian information with each of its answer models')
BOUNDS = {'quick': '216 sample matrices x 4 measures for pairs and sets, 2-5 candidates, M in {2,3,5,12}; ratings: 40 matrices; mutual and Bayesian information: 64 score settings',
          'thorough': '216 sample matrices x 5 measures x all options, 2-6 candidates, M in {2,3,5,12,40}; ratings: 216 matrices; mutual and Bayesian information: 400 score settings'}
ASSUMPTIONS = ['finite samples; ties within 1e-7 relative (3e-3 for the integrated rating value, which the library integrates to 1e-3)']
PERM = list(itertools.permutations([-0.6, 0.15, 0.8]))
KINDS = ['rho', 'spearman', 'epic', 'loglikelihood', 'one']


def warmup():
    from mc.core import Ctx
    c = Ctx()
    run_acq({'kind': 'acq', 'gen': ['perm', [0, 1, 2]], 'n': 3, 'M': 3, 'f': 'rho', 'opt': 0}, c)
    run_acq({'kind': 'acq', 'gen': ['wave', 0], 'n': 4, 'M': 12, 'f': 'rho', 'opt': 0}, c)
    run_abs({'kind': 'abs', 'gen': ['perm', [0, 1, 2]], 'n': 3, 'M': 3, 'f': 'rho', 'opt': 0}, c)


OPTS = [(2, [], ['none']), (3, [], ['none']), (2, [0], ['none']), (1, [1], ['none']), (2, [], ['set', [0, 2]]), (3, [], ['int', 2]), (2, [1], ['list', [2]]), (1, [], ['none']), (1, [0, 1], ['none']),
        (2, [], ['list', []]), (3, [3], ['pareto'])]


def cases(tier):
    t = tier == 'thorough'
    i = 0
    for code in itertools.product(range(6), repeat=3):
        for f in (KINDS if t else KINDS[:4]):
            for o in (range(len(OPTS)) if t else [i % len(OPTS), (i * 5 + 3) % len(OPTS)]):
                i += 1
                yield {'kind': 'acq', 'gen': ['perm', list(code)], 'n': 3, 'M': 3, 'f': f, 'opt': o}
    for n, M in [(2, 2), (4, 3), (4, 5), (5, 3), (4, 12), (5, 12)] + ([(6, 12), (5, 40)] if t else []):
        for g in range(6 if t else 3):
            for f in KINDS:
                for o in range(len(OPTS)):
                    i += 1
                    if not t and M == 12 and (o + g) % 3:
                        continue
                    yield {'kind': 'acq', 'gen': ['wave', g], 'n': n, 'M': M, 'f': f, 'opt': o}
    for g in range(4):
        for f in ('rho', 'spearman', 'loglikelihood'):
            for o in range(len(OPTS)):
                yield {'kind': 'draw', 'g': g, 'f': f, 'opt': o, 'few': g % 2}
    for j, code in enumerate(itertools.product(range(6), repeat=3)):
        if not t and j % 6:
            continue
        yield {'kind': 'abs', 'gen': ['perm', list(code)], 'n': 3, 'M': 3, 'f': KINDS[j % 4], 'opt': j}
    for n, M in ((2, 2), (5, 5)):
        for g in range(3):
            for o in range(5):
                yield {'kind': 'abs', 'gen': ['wave', g], 'n': n, 'M': M, 'f': KINDS[(g + o) % 4], 'opt': o}
    for g in range(12 if t else 6):
        for n in (2, 3, 4):
            for scale in (0.05, 0.5, 30.0, 400.0):
                yield {'kind': 'mutual', 'g': g, 'n': n, 'scale': scale}
    for h in range(4):
        yield {'kind': 'linear', 'h': h}
    for h in range(4):
        for n in (2, 3, 5):
            for meth in ('probit', '999', '99'):
                yield {'kind': 'linbayes', 'h': h, 'n': n, 'meth': meth}
    for g in range(20 if t else 8):
        for n in (2, 3, 4):
            for meth in ('probit', '999', '99'):
                yield {'kind': 'bayes', 'g': g, 'n': n, 'meth': meth}


def samples(gen, n, M):
    """(sampled rewards of the candidates [M,n], of the representative points [M,r])"""
    if gen[0] == 'perm':
        A = np.array([PERM[c] for c in gen[1]])
        # representative rewards: another ordering per function, all different so that every measure is defined
        R = np.array([PERM[(c * 5 + 2 * i + 1) % 6] for i, c in enumerate(gen[1])]) * np.array([1.0, 0.7, 1.3])[:len(gen[1]), None]
        return A, R
    g = gen[1]
    i, j = np.meshgrid(np.arange(M), np.arange(n), indexing='ij')
    A = 0.9 * np.sin(1.3 * i * (j + 1) + g + 0.7 * j) + 0.2 * np.cos(j * (g + 1.0))
    i, j = np.meshgrid(np.arange(M), np.arange(5), indexing='ij')
    return A, 0.8 * np.cos(0.9 * i + 1.1 * j * (i % 3 + 1) + 0.5 * g)


def rep_queries(r, size):
    return np.array(list(itertools.combinations(range(r), size))[:6], dtype=int)


def options(o, n):
    k, prev, spec = OPTS[o % len(OPTS)]
    prev = [i for i in prev if i < n][:n - 1]
    if spec[0] in ('set', 'list'):
        spec = [spec[0], [i for i in spec[1] if i < n]]
    if spec[0] == 'int':
        spec = ['int', min(spec[1], n)]
    return max(1, min(k, n - len(prev))), prev, spec


def judge(ctx, learner, val, allowed, aside, what, tol):
    sel = sorted(int(i) for i in (val[0] if aside else val))
    asd = tuple(int(i) for i in val[1]) if aside else ()
    ok = [a for a in allowed if sorted(a[0]) == sel and (not aside or sorted(a[1]) == sorted(asd))]
    ctx.check(ok, lambda: '%s: selected %s (set aside %s); by the definition: %s' % (what, sel, asd, sorted(set((tuple(sorted(a[0])), a[1], round(a[2] or 0, 6)) for a in allowed))[:6]))
    last = [a[2] for a in ok if a[2] is not None]
    if last:
        m = float(learner.sel_metric)
        ctx.check(any(abs(m - v) <= tol * (1 + abs(v)) for v in last), lambda: '%s: reports %r, the definition gives %s' % (what, m, last))
    ctx.outcome((tuple(sel), asd))
    ctx.step()


def held_model(X, mu=None):
    n = len(X)
    T = hist.xs(2, [0, 1, 2, 3, 4])
    XA = np.vstack([X, T])
    mu = np.array([0.2, 0.5, -0.1, 0.4, 0.0, 0.3][:n]) if mu is None else mu
    C = 0.3 * np.exp(-2 * np.abs(XA[:, :1] - XA[:, :1].T)) + 0.1 * np.eye(len(XA))
    m = learn.TabPref(learn.Table(XA, np.concatenate([mu, [0.1, -0.3, 0.5, 0.2, 0.0]]), C))
    return m, T


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


def acq_values(A, f, sigma=0.5):
    B = [pair for pair in (learn.pair_probs(w, sigma) for w in A)]
    memo = {}

    def val(Q):
        Q = tuple(Q)
        if Q not in memo:
            memo[Q] = learn.expected_alignment(f, [learn.choice_probs(b, list(Q)) for b in B])
        return memo[Q]
    return (lambda i, chosen: None if not chosen else val(sorted(chosen) + [i])), (lambda a, b: val(sorted((a, b))))


def run_acq(case, ctx):
    n, M, kind = case['n'], case['M'], case['f']
    k, prev, spec = options(case['opt'], n)
    X = learn.cands(n)
    A, R = samples(case['gen'], n, M)
    model, T = held_model(X)
    model.add(T, [(-1, 0, 1), (1, 2, 3)])
    sizes = 2 if k == 1 else k
    Qr = rep_queries(R.shape[1], min(sizes, R.shape[1]))
    f = learn.sim_matrix(kind, R, Qr)
    setval, pairval = acq_values(A, f)
    P = preferred(spec, X, False)
    for aside, best in ((False, False), (True, False), (False, True)):
        if aside and k > 3:
            continue
        L = lop.AcquisitionSelection(M=M, alignment_f=kind, rep_Q_data={'num_pts': 3, 'num_Q': 2}, always_select_best=best)
        L.set_model(model)
        L.get_representative_Q = lambda c=None: (np.zeros((R.shape[1], 2)), Qr)
        A0, R0 = A.copy(), R.copy()
        L.set_samples(R0, A0)
        what = 'alignment %s, samples %s, asked %d, previous %s, prefer %s, set_aside=%s, best_first=%s' % (kind, A.round(3).tolist() if n < 4 else case['gen'], k, prev, spec, aside, best)
        mu = model.table.mu[:n]
        allowed = learn.outcomes(n, k, set(prev), P, mu, best, aside, setval, pairval, 1e-7)

        def body(ch):
            with learn.LEnv(ch, max_enum=4):
                val = L.select(X, k, list(prev), arg(spec), aside)
            judge(ctx, L, val, allowed, aside, what, 1e-7)
            ctx.check(np.array_equal(A, A0) and np.array_equal(R, R0), what + ': the shared samples were changed')
        ctx.explore(body)
    ctx.state((case['gen'], n, M, kind, k, prev, spec))


def run_draw(case, ctx):
    """samples drawn by the learner itself"""
    n, M, kind = 4, 4, case['f']
    k, prev, spec = options(case['opt'], n)
    X = learn.cands(n)
    model, T = held_model(X)
    model.add(T[:3] if case['few'] else T, [(-1, 0, 1), (1, 2, 0)])
    L = lop.AcquisitionSelection(M=M, alignment_f=kind, rep_Q_data={'num_pts': 4, 'num_Q': 3})
    L.set_model(model)
    sets = []
    orig = L.get_representative_Q

    def rec(c=None):
        r = orig(c)
        sets.append(r)
        return r
    L.get_representative_Q = rec
    P = preferred(spec, X, False)
    pool = [hist.row(x) for x in model.X_train] + ([hist.row(x) for x in X] if case['few'] else [])
    what = 'drawn samples, alignment %s, asked %d, previous %s, prefer %s' % (kind, k, prev, spec)

    def body(ch):
        del sets[:]
        model.queries[:] = []
        with learn.LEnv(ch, patterns=(case['g'] % 4, (case['g'] + 1) % 4), max_enum=4) as env:
            val = L.select(X, k, list(prev), arg(spec), False)
        vals = []
        for (mean, cov, out), (xr, Qr) in zip(env.draws, sets):
            ctx.check(all(hist.row(x) in pool for x in xr), what + ': representative points are not samples of the model: %s' % (xr,))
            ctx.check(len(set(hist.row(x) for x in xr)) == len(xr), what + ': repeated representative point')
            ctx.check(len(xr) == min(4, len(pool)), lambda: what + ': %d representative points' % len(xr))
            ctx.check(Qr.shape[1] == max(2, k) and len(set(map(tuple, Qr.tolist()))) == len(Qr) and all(0 <= v < len(xr) for q in Qr for v in q) and all(len(set(q)) == len(q) for q in Qr.tolist()),
                      lambda: what + ': representative queries %s' % (Qr,))
            mu, C = model.table.at(np.vstack([X, xr]))
            ctx.close(mean, mu, 1e-9, what + ': mean of the drawn rewards')
            ctx.close(cov, C, 1e-9, what + ': covariance of the drawn rewards')
            f = learn.sim_matrix(kind, out[:, n:], Qr)
            vals.append(acq_values(out[:, :n], f))
        # every step uses its own draw: judge step by step (the first entry of sets belongs to the first informed step)
        step = {'i': 0}
        sel = [int(i) for i in val]
        chosen = list(prev)
        left = [i for i in range(n) if i not in prev]
        it = iter(vals)
        t = 0
        last = None
        while t < len(sel):
            ids = [i for i in left if i in P and i not in chosen] or [i for i in left if i not in chosen]
            if t == 0 and k > 1 and len(ids) > 1:
                _, pv = next(it)
                best = max(pv(a, b) for a in ids for b in ids if a != b)
                ctx.check(set(sel[:2]) <= set(ids) and pv(*sel[:2]) >= best - 1e-7 * (1 + abs(best)), lambda: what + ': pair %s, worth %s, best is %s' % (sel[:2], pv(*sel[:2]), best))
                last = pv(*sel[:2])
                chosen += sel[:2]
                t += 2
                continue
            ctx.check(sel[t] in ids, lambda: what + ': %s not eligible' % (sel,))
            if chosen:
                sv, _ = next(it)
                best = max(sv(i, frozenset(chosen)) for i in ids)
                last = sv(sel[t], frozenset(chosen))
                ctx.check(last >= best - 1e-7 * (1 + abs(best)), lambda: what + ': %s adds %d worth %s, best is %s' % (sel, sel[t], last, best))
            chosen.append(sel[t])
            t += 1
        if last is not None:
            ctx.check(abs(float(L.sel_metric) - last) <= 1e-7 * (1 + abs(last)), lambda: what + ': reports %r, definition %r' % (L.sel_metric, last))
        ctx.outcome(tuple(sel))
        ctx.step()
    ctx.explore(body, max_dev=1, fair_after=10)
    ctx.state(case)


Q01 = np.concatenate([np.linspace(0.0001, 0.9999, 6001)])


def rating_values(A, f, v=80.0, sigma=1.0):
    M = len(A)
    vals = []
    h = Q01[1] - Q01[0]
    w = np.ones(len(Q01))
    w[1:-1:2], w[2:-1:2] = 4, 2                     # Simpson
    w *= h / 3
    for j in range(A.shape[1]):
        ml = ndtr(A[:, j] / (np.sqrt(2) * sigma))
        pw = np.array([beta.pdf(Q01, v * m, v * (1 - m)) for m in ml])
        pb = pw.mean(axis=0)
        num = np.einsum('ij,iq,jq->q', f, pw, pw)
        y = np.where(pb > 0, num / np.where(pb > 0, pb, 1), 0) / M ** 2
        vals.append(float(np.sum(w * y)))
    return vals


def run_abs(case, ctx):
    n, M, kind = case['n'], case['M'], case['f']
    A, R = samples(case['gen'], n, M)
    X = learn.cands(n)
    model, T = held_model(X)
    model.add(T, [(-1, 0, 1), (1, 2, 3)])
    Qr = rep_queries(R.shape[1], 2)
    vals = rating_values(A, learn.sim_matrix(kind, R, Qr), model.probits[2].v, model.probits[2].sigma)
    prev, spec = [([], ['none']), ([0], ['none']), ([], ['set', [1]]), ([1], ['int', 2]), ([], ['list', [0, n - 1]])][case['opt'] % 5]
    P = preferred(spec, X, False)
    for asked, aside in ((1, False), (2, False), (1, True)):
        L = lop.AbsAcquisition(M=M, alignment_f=kind, rep_Q_data={'num_pts': 3, 'num_Q': 2})
        L.set_model(model)
        L.get_representative_Q = lambda c=None: (np.zeros((R.shape[1], 2)), Qr)
        L.set_samples(R.copy(), A.copy())
        allowed = learn.outcomes(n, 1, set(prev), P, None, False, aside, lambda i, c: vals[i], None, 3e-3)
        what = 'rating query, alignment %s, samples %s, previous %s, prefer %s, set_aside=%s' % (kind, A.round(3).tolist(), prev, spec, aside)

        def body(ch):
            with learn.LEnv(ch, max_enum=4):
                val = L.select(X, asked, list(prev), arg(spec), aside)
            judge(ctx, L, val, allowed, aside, what, 3e-3)
        ctx.explore(body)
    ctx.state(case)


def run_mutual(case, ctx):
    n = case['n']
    X = learn.cands(n)
    i = np.arange(n)
    mu = case['scale'] * 0.4 * np.sin(1.7 * i + case['g'])
    C = case['scale'] ** 2 * (0.2 * np.exp(-np.abs(i[:, None] - i[None, :]) * (0.3 + 0.2 * case['g'])) + 0.02 * np.diag(1 + i))
    for o in range(len(OPTS)):
        k, prev, spec = options(o, n)
        P = preferred(spec, X, False)
        model = learn.TabGP(learn.Table(X, mu, C)) if o % 2 else learn.TabPref(learn.Table(X, mu, C))
        L = lop.MutualInfoLearner()
        L.M = 6
        L.set_model(model)
        what = 'mutual information, scores %s, asked %d, previous %s, prefer %s' % (mu.round(3).tolist(), k, prev, spec)

        def body(ch):
            with learn.LEnv(ch, patterns=(0, 1, 2)) as env:
                val = L.select(X, k, list(prev), arg(spec), False)
            sel = [int(v) for v in val]
            ctx.check(len(env.draws) == len(sel), lambda: what + ': %d draws for %d picks' % (len(env.draws), len(sel)))
            chosen = list(prev)
            left = [a for a in range(n) if a not in prev]
            for s, (mean, cov, W) in zip(sel, env.draws):
                ctx.close(mean, mu, 1e-9, what + ': mean of the drawn rewards', rel=True)
                ctx.close(cov, C, 1e-9, what + ': covariance of the drawn rewards', rel=True)
                ids = [a for a in left if a in P and a not in chosen] or [a for a in left if a not in chosen]

                def info(a):
                    Q = chosen + [a]
                    E = W[:, Q] * L.peakiness
                    E = np.exp(E - E.max(axis=1, keepdims=True))
                    return learn.mutual_info(E / E.sum(axis=1, keepdims=True))
                vals = {a: info(a) for a in ids}
                best = max(vals.values())
                ctx.check(s in ids and vals[s] >= best - 1e-9, lambda: what + ': picked %s; information of each candidate next to %s: %s' % (s, chosen, vals))
                last = vals[s]
                chosen.append(s)
            ctx.check(abs(float(L.sel_metric) - last) <= 1e-9, lambda: what + ': reports %r, definition %r' % (L.sel_metric, last))
            ctx.outcome(tuple(sel))
            ctx.step()
        ctx.explore(body, max_dev=1)
        ctx.state((case, o))


def lin_model(h):
    m = lop.PreferenceLinear()
    m.add(hist.xs(2, range(5)), [(-1, 0, 1), (-1, 0, 1), (1, 0, 1), (-1, 2, 3), (1, 2, 3), (-1, 4, 3)][:6 if h % 2 else 5])
    if h > 1:
        m.add(hist.xs(2, [8, 9]), [(-1, 0, 1), (1, 0, 1)])
    return m


def run_linear(case, ctx):
    X = learn.cands(5)
    m = lin_model(case['h'])
    seeded(2)
    m.predict(X)
    for M in (6, 20):
        L = lop.AcquisitionSelection(M=M)
        L.set_model(m)
        xr = hist.xs(2, [11, 12, 13])
        seeded(8)
        R, A = L.get_samples_from_model(X, xr)
        seeded(8)
        w = metropolis_hastings(m.loss_func, M, dim=2)
        ctx.close(A, w @ X.T, 1e-9, 'rewards of the candidates under the sampled linear weights')
        ctx.close(R, w @ xr.T, 1e-9, 'rewards of the representative points under the sampled linear weights')
        ctx.step()
        for k, prev in ((2, []), (3, []), (2, [1]), (1, [0, 3])):
            L = lop.MutualInfoLearner()
            L.M = M
            L.set_model(m)
            seeded(14)
            sel = [int(v) for v in L.select(X, k, list(prev))]
            seeded(14)
            chosen = list(prev)
            for s in sel:
                W = metropolis_hastings(m.loss_func, M, dim=2) @ X.T
                ids = [a for a in range(5) if a not in chosen]

                def info(a):
                    E = W[:, chosen + [a]] * L.peakiness
                    E = np.exp(E - E.max(axis=1, keepdims=True))
                    return learn.mutual_info(E / E.sum(axis=1, keepdims=True))
                vals = {a: info(a) for a in ids}
                ctx.check(s in ids and vals[s] >= max(vals.values()) - 1e-9, lambda: 'linear model, mutual information, asked %d, previous %s: picked %s of %s' % (k, prev, s, vals))
                last = vals[s]
                chosen.append(s)
            ctx.check(abs(L.sel_metric - last) <= 1e-9, lambda: 'linear model, mutual information: reports %r, definition %r' % (L.sel_metric, last))
            ctx.step()
            ctx.outcome(tuple(sel))
        ctx.state((case['h'], M))


def entropy(p):
    return -sum(v * np.log(v) for v in p if v > 1e-17)


def bayes_value(Q, pB, B, meth, pair):
    """expected reduction of the entropy of the best candidate when the query is answered"""
    n = len(pB)
    pq = np.array([np.prod([B[q, r] for r in Q if r != q]) for q in Q])
    like = np.zeros((len(Q), n))
    c = {'999': 0.999, '99': 0.99}.get(meth)
    for a, q in enumerate(Q):
        for b in range(n):
            others = [r for r in Q if r != q]
            if b == q:
                like[a, b] = np.prod([c if c else max(B[q, r], 1 - B[q, r]) for r in others])
            elif b in Q and pair:
                like[a, b] = 1 - c if c else min(B[q, b], B[b, q])
            else:
                like[a, b] = pq[a]
    if not pair:
        pq = pq / pq.sum()
        like = like / like.sum(axis=0)
    post = like * pB / pq[:, None]
    post = post / post.sum(axis=1, keepdims=True)
    return entropy(pB) - sum(pq[a] * entropy(post[a]) for a in range(len(Q)))


def run_bayes(case, ctx):
    n, meth = case['n'], case['meth']
    X = learn.cands(n)
    i = np.arange(n)
    mu = 0.5 * np.sin(2.1 * i + case['g'] * 0.8)
    model, T = held_model(X, mu)
    model.add(T, [(-1, 0, 1), (1, 2, 3)])
    C = model.table.C[:n, :n]
    pB = np.zeros(n)
    for a in range(n):
        o = [b for b in range(n) if b != a]
        D = np.array([[C[a, a] + C[b, c] - C[a, b] - C[a, c] for c in o] for b in o])
        pB[a] = ndtr((mu[a] - mu[o[0]]) / np.sqrt(D[0, 0])) if len(o) == 1 else multivariate_normal(mean=mu[o] - mu[a], cov=D, seed=1).cdf(np.zeros(len(o)))
    pB = pB / pB.sum()
    B = learn.pair_probs(mu)
    setval = lambda a, chosen: None if not chosen else bayes_value(sorted(chosen) + [a], pB, B, meth, False)
    pairval = lambda a, b: bayes_value([a, b], pB, B, meth, True)
    for o in range(len(OPTS)):
        k, prev, spec = options(o, n)
        P = preferred(spec, X, False)
        L = lop.BayesInfoGain(p_q_B_method=meth)
        L.set_model(model)
        allowed = learn.outcomes(n, k, set(prev), P, mu, False, False, setval, pairval, 1e-4)
        what = 'Bayesian information (%s), scores %s, asked %d, previous %s, prefer %s' % (meth, mu.round(3).tolist(), k, prev, spec)

        def body(ch):
            L.sel_metric = 0.0
            with learn.LEnv(ch):
                val = L.select(X, k, list(prev), arg(spec), False)
            judge(ctx, L, val, allowed, False, what, 1e-4)
        ctx.explore(body, max_dev=1)
        ctx.state((case, o))


def run_linbayes(case, ctx):
    """linear model: the best candidate's distribution comes from sampled weights"""
    n, meth = case['n'], case['meth']
    X = learn.cands(n)
    m = lin_model(case['h'])
    seeded(2)
    mu = np.array(m.predict(X)[0], dtype=float)
    B = learn.pair_probs(mu)
    mask = np.arange(n)
    for k, prev in ((2, []), (1, [0]), (1, [n - 1, 0]), (2, [1])):
        if k + len(prev) > n:
            continue
        L = lop.BayesInfoGain(p_q_B_method=meth)
        L.set_model(m)
        seeded(31)
        sel = [int(v) for v in L.select(X, k, list(prev))]
        seeded(31)
        W = metropolis_hastings(m.loss_func, 2000, dim=2) @ X.T
        pB = (np.argmax(W, axis=1)[:, None] == mask).mean(axis=0)
        setval = lambda a, chosen: None if not chosen else bayes_value(sorted(chosen) + [a], pB, B, meth, False)
        pairval = lambda a, b: bayes_value([a, b], pB, B, meth, True)
        allowed = learn.outcomes(n, k, set(prev), set(range(n)), mu, False, False, setval, pairval, 1e-6)
        judge(ctx, L, sel, allowed, False, 'linear model, Bayesian information (%s), %d candidates, asked %d, previous %s' % (meth, n, k, prev), 1e-6)
        ctx.step()
        ctx.outcome(tuple(sel))
    ctx.state((case['h'], n, meth))
