"""P15: query-type comparisons return the query type with the larger benefit."""
import itertools

import numpy as np

import lop
from mc import ref, hist, learn
from mc.core import Env, seeded
from mc.stubs import Sub, TagModel

TECHNIQUE = 'exhaustive enumeration of call sequences x benefit orderings x tie draws on the real comparing learners with recording sub learners; alignment decisions on real preference models with enumerated reward samples'
LEVEL_NOTE = 'all benefit orderings, ties and call sequences within the bounds on the real comparing learners; decisions judged against an independent refit of the restricted judgements'
RULE = ('(a) each comparing learner x every pair of benefits of the menu (ties, near ties, negative, zero, integer and float) x weight x every tie draw x option tuple, in sequences of calls with different candidate '
        'sets: with and without set-aside reporting: the answer, the sharing of the samples and what each sub learner was asked; (b) equal-check: pairs sharing no / one / all features x sample matrices around the effect size limit x limits; '
        '(c) alignment decision: histories of submissions and selections on a real preference model x every pattern of the reward draws: the draws must come from the fits to all / comparison-only / rating-only '
        'judgements and the larger mean alignment decides; the model is as before')
BOUNDS = {'quick': 'benefit menus of 7x7, 5 weights, sequences of 3 calls over 3 candidate sets; 4 datasets x 2 measures x 27 draw patterns x 2 call limits',
          'thorough': 'benefit menus of 11x11, 9 weights, sequences of 4 calls over 3 candidate sets; 9 datasets x 3 measures x 64 draw patterns x 3 call limits'}
ASSUMPTIONS = ['the number of reward functions drawn does not matter for the decision rule (5 are drawn instead of 8000)', 'the model holds comparisons and ratings in the decision phase']

BEN = [0, 0.4, 1.0, 1, -0.7, 1.0 + 1e-12, 2.5]
BEN_T = BEN + [-1e-9, -2.0, 0.7, 1e-9]
ALPHA = [0.5, 0.2, 0.8, 0.0, 1.0]
ALPHA_T = ALPHA + [0.35, 0.65, 0.05, 0.95]
SETS = [dict(n=4, num=2, prev=[], prefer=None, pf=True), dict(n=6, num=2, prev=[1], prefer=[0, 2], pf=True), dict(n=5, num=2, prev=[0], prefer=None, pf=False)]


def points(i):
    s = SETS[i]
    return np.array([[0.1 * k + 0.013 * i, 0.9 - 0.07 * k - 0.3 * i] for k in range(s['n'])])


def cases(tier):
    t = tier == 'thorough'
    ben = BEN_T if t else BEN
    for cls in ('RateChooseLearner', 'MixedComparision', 'MixedComparisionEqualChecking'):
        for a in ((ALPHA_T if t else ALPHA) if cls == 'MixedComparision' else [None]):
            for p in range(len(ben)):
                for q in range(len(ben)):
                    yield {'kind': 'one', 'cls': cls, 'alpha': a, 'ben': [p, q]}
        for order in itertools.product(range(3), repeat=4 if t else 3):
            for bens in itertools.product(((0, 2), (2, 1), (2, 2)), repeat=len(order)):
                if not t and (sum(order) + sum(sum(b) for b in bens)) % 2:
                    continue
                yield {'kind': 'seq', 'cls': cls, 'order': list(order), 'bens': [list(b) for b in bens]}
    for share in ('none', 'first', 'second', 'all'):
        for e in range(9 if t else 6):
            for lim in (0.06, 0.01, 0.3) + ((0.9,) if t else ()):
                for b in ((0, 1), (1, 0), (1, 1)):
                    yield {'kind': 'equal', 'share': share, 'e': e, 'limit': lim, 'ben': list(b)}
    for d in range(len(DATA) if t else 4):
        for f in ('spearman', 'epic') + (('one',) if t else ()):
            for lim in ((0, 2, 3) if t else (0, 3)):
                yield {'kind': 'align', 'data': d, 'f': f, 'limit': lim, 'pats': 4 if t else 3}
    for cls in ('MixedDecision', 'MixedDecision2'):
        for p, q in itertools.product(range(len(ben)), repeat=2):
            yield {'kind': 'check', 'cls': cls, 'ben': [p, q]}
    for g in range(12 if t else 6):
        yield {'kind': 'real', 'g': g}


# ------------------------------------------------------------------------------------ (a) comparing learners
def build(cls, alpha=None, **kw):
    subs = {'pair': Sub('pair'), 'abs': Sub('abs')}
    if cls == 'RateChooseLearner':
        return lop.RateChooseLearner(subs['pair'], subs['abs'], **kw), subs
    subs['comp'] = Sub('comp')
    if alpha is not None:
        kw['alpha'] = alpha
    return getattr(lop, cls)(subs['pair'], subs['abs'], subs['comp'], **kw), subs


def one_call(ctx, l, subs, cls, alpha, si, bp, ba, ch, what, aside=False):
    X, o = points(si), SETS[si]
    left = [i for i in range(o['n']) if i not in o['prev']]
    subs['pair'].metric = bp
    subs['abs'].metric = ba if cls == 'RateChooseLearner' else 77.7
    if 'comp' in subs:
        subs['comp'].metric = ba
    if cls == 'MixedComparision' or cls == 'MixedComparisionEqualChecking':
        subs['pair'].pick = left[:o['num']]
        subs['abs'].pick = [left[-1]]
    for s in subs.values():
        s.calls, s.answers, s.drawn = [], [], []
    with Env(ch, u=(0.1, 0.45, 0.55, 0.9)):
        got = l.select(X, o['num'], list(o['prev']), o['prefer'], aside, o['pf'])
    ctx.step()
    wp, wa = (bp, ba) if alpha is None else ((1 - alpha) * bp, alpha * ba)
    P, A = subs['pair'].answers, subs['abs'].answers
    ok = {'pair': any(list(got) == list(a) for a in P), 'abs': any(list(got) == list(a) for a in A)}
    if wp > wa:
        ctx.check(ok['pair'] and not ok['abs'], lambda: '%s: benefits %r > %r but returned %s (comparison %s, rating %s)' % (what, wp, wa, got, P, A))
    elif wp < wa:
        ctx.check(ok['abs'] and not ok['pair'], lambda: '%s: benefits %r < %r but returned %s (comparison %s, rating %s)' % (what, wp, wa, got, P, A))
    else:
        ctx.check(ok['pair'] or ok['abs'], lambda: '%s: equal benefits and returned %s (comparison %s, rating %s)' % (what, got, P, A))
    ctx.outcome((cls, ok['pair'], wp > wa, wp < wa))
    shared(ctx, subs, X, what, ('pair', 'abs') if cls == 'RateChooseLearner' else ('pair', 'comp'))
    for nm in ('pair', 'abs'):
        for c in subs[nm].calls:
            want = {'num': o['num'] if nm == 'pair' else 1, 'prefer': o['prefer'], 'aside': aside, 'pair_first': o['pf']}
            ctx.check(all(c[k] == v for k, v in want.items()) and sorted(c['prev']) == sorted(o['prev']) and np.array_equal(c['X'], X),
                      lambda: '%s: the %s sub learner was asked %s instead of %s' % (what, nm, {k: c[k] for k in list(want) + ['prev']}, want))
    for c in subs['comp'].calls if 'comp' in subs else []:
        query = A[-1][0] if aside else A[-1]
        ctx.check(c.get('greedy') == query, lambda: '%s: the rating benefit was computed for %s, the rating query is %s' % (what, c, query))
    return got


def shared(ctx, subs, X, what, names):
    """both benefits came from the same samples, drawn in this call for these candidates"""
    drawn = [d for s in subs.values() for d in s.drawn]
    used = []
    for nm in names:
        c = subs[nm].calls
        ctx.check(bool(c), lambda: '%s: the %s benefit was never computed' % (what, nm))
        used.append(c[-1]['samples'] if nm == 'comp' else c[0]['samples'])
    ctx.check(all(u is not None for u in used), lambda: '%s: a benefit was computed without the shared samples' % what)
    ctx.check(all(np.array_equal(u[0], used[0][0]) and np.array_equal(u[1], used[0][1]) for u in used), lambda: '%s: the two benefits were computed on different samples' % what)
    ctx.check(any(np.array_equal(d[0], X) and np.array_equal(d[1][1], used[0][1]) for d in drawn),
              lambda: '%s: the benefits were computed on samples that were not drawn in this call for its candidates' % what)


def run_one(case, ctx):
    ben = BEN_T
    p, q = ben[case['ben'][0]], ben[case['ben'][1]]
    for si in range(3):
        for conv, aside in ((float, False), (lambda v: v, False), (np.float64, False), (float, True)):
            what = '%s weight=%s benefits=%r/%r set %d%s' % (case['cls'], case['alpha'], conv(p), conv(q), si, ' with set-aside reporting' if aside else '')

            def body(ch):
                l, subs = build(case['cls'], case['alpha'])
                l.set_model(TagModel())
                one_call(ctx, l, subs, case['cls'], case['alpha'] if case['alpha'] is not None else (0.5 if case['cls'] == 'MixedComparision' else None), si, conv(p), conv(q), ch, what, aside)
                ctx.check(all(s.model is not None for s in subs.values()), lambda: '%s: a sub learner has no model' % what)
            ctx.explore(body)
            ctx.state(what)


def run_seq(case, ctx):
    def body(ch):
        l, subs = build(case['cls'])
        l.set_model(TagModel())
        for k, (si, b) in enumerate(zip(case['order'], case['bens'])):
            if k == 2:
                # a direct use of the sub learner in between must not leave its samples to the next comparison
                subs['pair'].set_samples(np.zeros((2, 2)) - 5, np.zeros((2, SETS[si]['n'])) - 5)
            one_call(ctx, l, subs, case['cls'], 0.5 if case['cls'] == 'MixedComparision' else None, si, [0.5, 1.0, 2.0][b[0]], [0.5, 1.0, 2.0][b[1]], ch,
                     '%s call %d of sets %s benefits %s' % (case['cls'], k + 1, case['order'], case['bens']))
            ctx.state((case['cls'], case['order'][:k + 1], case['bens'][:k + 1]))
    ctx.explore(body)


# ----------------------------------------------------------------------------------------- (b) equal checking
def eta2(x, y):
    """eta squared of the (average variance) standardised mean difference"""
    d = (x.mean() - y.mean()) / np.sqrt((x.var(ddof=1) + y.var(ddof=1)) / 2)
    return (d / 2) ** 2 / (1 + (d / 2) ** 2)


SHIFT = [0.0, 0.15, 0.45, 0.6, 1.2, 4.0, 0.2, 0.9, 2.2]


def run_equal(case, ctx):
    M = 12
    z = learn.zmat(M, 4, case['e'])
    z = (z - z.mean(axis=0)) / z.std(axis=0, ddof=1)
    z[:, 1] = 0.6 * z[:, 0] + 0.8 * z[:, 1]
    z = (z - z.mean(axis=0)) / z.std(axis=0, ddof=1)
    for a, b in ((0, 1), (2, 1), (1, 3)):
        S = 0.7 * z.copy()
        S[:, b] += 0.7 * SHIFT[case['e']]
        X = np.array([[0.1, 0.8], [0.35, 0.6], [0.5, 0.45], [0.9, 0.3]])
        if case['share'] in ('first', 'all'):
            X[b, 0] = X[a, 0]
        if case['share'] in ('second', 'all'):
            X[b, 1] = X[a, 1]
        e = eta2(S[:, a], S[:, b])
        if abs(e - case['limit']) < 1e-6:
            continue

        def body(ch):
            subs = {'pair': Sub('pair'), 'abs': Sub('abs'), 'comp': Sub('comp')}
            l = lop.MixedComparisionEqualChecking(subs['pair'], subs['abs'], subs['comp'], eta_2_limit=case['limit'])
            l.set_model(TagModel())
            subs['pair'].pick, subs['abs'].pick = [a, b], [({0, 1, 2, 3} - {a, b}).pop()]
            subs['pair'].metric, subs['comp'].metric = case['ben']
            subs['pair'].qsamples = lambda X: S.copy()
            aside = bool(ch.pick(2, 'set-aside'))
            with Env(ch, u=(0.1, 0.9)):
                got = l.select(X, 2, [], None, aside)
            if aside:
                ctx.check(isinstance(got, tuple) and len(got) == 2, lambda: 'equal check with set-aside reporting: returned %r' % (got,))
                got = got[0]
            got = list(got)
            ctx.step()
            p, q = case['ben']
            what = 'equal check: pair %s of %s, effect size %.4f, limit %g, benefits %s/%s' % ([a, b], X[[a, b]].tolist(), e, case['limit'], p, q)
            if case['share'] != 'none' and e < case['limit']:
                ctx.check(got == subs['abs'].pick, lambda: '%s: returned %s for an indistinguishable pair' % (what, got))
            elif p > q:
                ctx.check(got == [a, b], lambda: '%s: returned %s' % (what, got))
            elif p < q:
                ctx.check(got == subs['abs'].pick, lambda: '%s: returned %s' % (what, got))
            else:
                ctx.check(got in ([a, b], subs['abs'].pick), lambda: '%s: returned %s' % (what, got))
            ctx.state(what)
            ctx.outcome((case['share'], e < case['limit'], p > q, len(got)))
        ctx.explore(body)


# ------------------------------------------------------------------------------------ (c) alignment decisions
#  (sample ids, comparisons, ratings, category ratings)
DATA = [
    ([0, 1, 2, 3], [(-1, 0, 1), (1, 2, 3)], [(0.8, 1), (0.3, 2)], []),
    ([0, 1, 2, 3, 4], [(-1, 4, 0), (-1, 4, 1), (1, 0, 2)], [(0.9, 0)], []),
    ([5, 1, 2, 6], [(-1, 0, 1), (-1, 0, 1)], [(0.2, 0), (0.7, 3), (0.6, 1)], []),
    ([0, 1, 2, 3], [(-1, 0, 3), (-1, 0, 1)], [(0.9, 3), (0.15, 0)], [(3, 2)]),
    ([7, 3, 9, 4, 2], [(-1, 0, 1), (-1, 1, 2), (-1, 2, 3)], [(0.9, 3), (0.1, 0)], []),
    ([0, 1, 2], [(-1, 0, 1)], [(0.5, 2)], [(1, 0)]),
    ([8, 1, 2, 3], [(-1, 0, 1), (1, 0, 1)], [(0.45, 1), (0.8, 1)], []),
    ([0, 1, 2, 3, 4, 5], [(-1, 5, 0), (1, 1, 2)], [(0.95, 4), (0.25, 5), (0.6, 0)], []),
    ([2, 1, 0, 9], [(1, 2, 1)], [(0.35, 3), (0.65, 3)], [(5, 0)]),
]
SPEC = ['rbf', 0.8, 0.6, 0.05]


class FewDraws(learn.LEnv):
    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        return super().multivariate_normal(mean, cov, 5, *a, **k)


class FixedRep(lop.AcquisitionSelection):
    def set_script(self, rep):
        self.rep = rep
        self.asked = []

    def get_representative_Q(self, candidate_pts=None):
        return self.rep.copy(), np.array([[0, 1], [1, 2], [0, 3]])

    def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
        self.asked.append((np.array(candidate_pts), int(num_alts), list(prev_selection), prefer_pts, return_not_selected, select_pair_first, self.M, self.samples_set))
        return ['pair', len(self.asked)]


def fits(data):
    """(mean, covariance) predictors for all / comparisons without ratings / ratings without comparisons"""
    out = {}
    for nm in ('all', 'pref', 'rating'):
        d = data.copy()
        if nm == 'pref':
            d.abss = []
        if nm == 'rating':
            d.pairs = []
        X = np.array(d.X)
        sols = ref.map_fit(ref.kcov(SPEC, X, X), d)
        F = sols[0][1]
        out[nm] = (X, F, -d.ll(F)[2])
    return out


def run_align(case, ctx):
    ids, pairs, absr, ords = DATA[case['data']]
    dim = 2
    Xc = hist.xs(dim, [10, 11, 12])
    rep = hist.xs(dim, [ids[0], ids[1], 13, 14])
    both = np.append(Xc, rep, axis=0)
    data = ref.Data()
    data.X = [hist.row(hist.pool(dim, i)) for i in ids]
    data.pairs, data.abss, data.ords = list(pairs), list(absr), list(ords)
    want0 = {k: ref.laplace_predict(SPEC, X, F, W, both) for k, (X, F, W) in fits(data).items()}
    data2 = data.copy()
    hist.expect_add(data2, dim, ['P', [17, 18], [(1, 0, 1)]])
    hist.expect_add(data2, dim, ['Ai', [], [(0.6, 1)]])
    want2 = {k: ref.laplace_predict(SPEC, X, F, W, both) for k, (X, F, W) in fits(data2).items()}
    for w in (want0, want2):
        assert min(np.max(np.abs(w[a][0] - w[b][0])) for a, b in (('all', 'pref'), ('all', 'rating'), ('pref', 'rating'))) > 2e-2, 'the datasets of this check must separate the three fits'
    opts = (2, [1], [0, 2], False, False)

    def body(ch):
        seeded(5)
        m = lop.PreferenceGP(ref.build_kernel(SPEC))
        m.add(hist.xs(dim, ids), [tuple(p) for p in pairs])
        e = hist.xs(dim, ids)[:0]
        m.add(e, (np.array([a for a, _ in absr]), np.array([i for _, i in absr])), type='abs')
        if ords:
            m.add(e, np.array(ords), type='ordinal')
        pl, al = FixedRep(M=9, alignment_f=case['f']), Sub('abs')
        pl.set_script(rep)
        l = lop.AlignmentDecision(pl, al, case['limit'])
        l.set_model(m)
        X0 = Xc.copy()
        want, rec = want0, data
        for n in range(case['limit'] + 2):
            decide = n >= case['limit']
            if n == case['limit'] + 1:
                # new judgements between two decisions
                m.add(hist.xs(dim, [17, 18]), [(1, 0, 1)])
                m.add(e, (np.array([0.6]), np.array([1])), type='abs')
                want, rec = want2, data2
            what = 'alignment decision (%s) data %d call %d of limit %d' % (case['f'], case['data'], n, case['limit'])
            if decide:
                # samples left over from elsewhere must not be used
                pl.set_samples(np.full((3, 4), 9.0), np.full((3, 3), 9.0))
            with FewDraws(ch, patterns=tuple(range(case['pats'])) if n == case['limit'] else (1,)) as env:
                ret = l.select(Xc, opts[0], list(opts[1]), list(opts[2]), opts[3], opts[4])
            ctx.step()
            ctx.check(np.array_equal(Xc, X0), what + ': the candidates were changed')
            ctx.check(isinstance(ret, tuple) and len(ret) == 3, lambda: '%s: returned %r' % (what, ret))
            kind = 'pair' if ret[0][0] == 'pair' else 'abs'
            last = pl.asked[-1] if kind == 'pair' else None
            if kind == 'pair':
                ctx.check(ret[0] == ['pair', len(pl.asked)] and last[1] == opts[0] and list(last[2]) == opts[1] and last[3] == opts[2] and last[4] == opts[3] and last[5] == opts[4]
                          and np.array_equal(last[0], Xc), lambda: '%s: the comparison learner was asked %s' % (what, last[1:6]))
            else:
                c = al.calls[-1]
                ctx.check(ret[0] == al.answers[-1] and c['num'] == 1 and c['prev'] == opts[1] and c['prefer'] == opts[2] and c['pair_first'] == opts[4], lambda: '%s: the rating learner was asked %s' % (what, c))
            ctx.check(pl.M == 9, lambda: '%s: the comparison learner now draws %s samples' % (what, pl.M))
            if not decide:
                ctx.check(kind == ('pair' if n % 2 == 0 else 'abs'), lambda: '%s: returned a %s query' % (what, kind))
            else:
                got = {}
                for mean, cov, out in env.draws:
                    for nm, (mu, C) in want.items():
                        if mean.shape == mu.shape and np.allclose(mean, mu, rtol=0, atol=7e-3) and np.allclose(cov, C, rtol=0, atol=7e-3):
                            got[nm] = out[:, len(Xc):]
                for nm in want:
                    ctx.check(nm in got, lambda: '%s: no reward samples were drawn from the fit to %s judgements' % (what, {'all': 'all', 'pref': 'the comparison', 'rating': 'the rating'}[nm]))
                a = {nm: float(np.mean([[learn.similarity(case['f'], x, y) for y in got['all']] for x in got[nm]])) for nm in ('pref', 'rating')}
                ctx.check(abs(ret[1] - a['rating']) < 1e-6 and abs(ret[2] - a['pref']) < 1e-6,
                          lambda: '%s: reported alignments rating %r comparison %r, expected %r and %r' % (what, ret[1], ret[2], a['rating'], a['pref']))
                if abs(a['pref'] - a['rating']) > 1e-9:
                    k = 'pair' if a['pref'] > a['rating'] else 'abs'
                    ctx.check(kind == k, lambda: '%s: returned a %s query although the alignments are comparison %.6f rating %.6f' % (what, kind, a['pref'], a['rating']))
                ctx.outcome((case['data'], kind))
            hist.check_held(ctx, m, rec, what)
            mu, _ = m.predict(both)
            ctx.close(mu, want['all'][0], 5e-3, what + ': prediction afterwards')
            ctx.state((case['data'], case['f'], case['limit'], n, tuple(ch.choices)))
    ctx.explore(body)


# -------------------------------------------------------------------- decision schedules share samples as well
def run_check(case, ctx):
    p, q = BEN_T[case['ben'][0]], BEN_T[case['ben'][1]]
    for si in range(3):
        what = '%s checkpoint benefits %r/%r set %d' % (case['cls'], p, q, si)

        def body(ch):
            subs = {'pair': Sub('pair'), 'abs': Sub('abs'), 'comp': Sub('comp')}
            l = getattr(lop, case['cls'])(subs['pair'], subs['abs'], subs['comp'], 0.3)
            l.set_model(TagModel())
            with Env(learn_default(), u=(0.1, 0.9)):
                for k in range(5):
                    l.select(points(k % 3), 2)
            subs['pair'].set_samples(np.zeros((2, 2)) - 5, np.zeros((2, SETS[si]['n'])) - 5)
            for s in subs.values():
                s.calls, s.answers, s.drawn = [], [], []
            subs['pair'].metric, subs['comp'].metric, subs['abs'].metric = p, q, 55.0
            X, o = points(si), SETS[si]
            with Env(ch, u=(0.1, 0.9)):
                got = l.select(X, o['num'], list(o['prev']), o['prefer'], False, o['pf'])
            ctx.step()
            shared_dec(ctx, subs, X, what)
            ctx.check(any(got == a for nm in ('pair', 'abs') for a in subs[nm].answers), lambda: '%s: returned %s' % (what, got))
            ctx.state(what)
        ctx.explore(body)


def shared_dec(ctx, subs, X, what):
    drawn = [d for s in subs.values() for d in s.drawn]
    used = []
    for nm in ('pair', 'comp'):
        ctx.check(bool(subs[nm].calls), lambda: '%s: the %s benefit was never computed' % (what, nm))
        used.append(subs[nm].calls[0]['samples'])
    ctx.check(all(u is not None for u in used) and all(np.array_equal(u[1], used[0][1]) and np.array_equal(u[0], used[0][0]) for u in used), lambda: '%s: the two benefits were computed on different samples' % what)
    ctx.check(any(np.array_equal(d[0], X) and np.array_equal(d[1][1], used[0][1]) for d in drawn), lambda: '%s: the benefits were not computed on samples drawn in this call for its candidates' % what)


def learn_default():
    from mc.core import Chooser
    return Chooser([])


# -------------------------------------------------------------- real sub learners: benefits belong to this call
def run_real(case, ctx):
    """the comparison of real acquisition learners over successive calls with different candidates"""
    g = case['g']

    def body(ch):
        seeded(11 + g)
        m = lop.PreferenceGP(ref.build_kernel(SPEC))
        m.add(hist.xs(2, [0, 1, 2, 3, 4]), [(-1, 0, 1), (1, 2, 3), (-1, 4, 0)])
        m.add(hist.xs(2, [5]), np.array([0.7]), type='abs')
        rep = {'num_pts': 4, 'num_Q': 3}
        pl, al = lop.AcquisitionSelection(M=6, rep_Q_data=rep), lop.AbsAcquisition(M=6, rep_Q_data=rep)
        comp = lop.AbsAcquisition(M=6, rep_Q_data=rep)
        which = g % 3
        l = lop.RateChooseLearner(pl, al) if which == 0 else lop.MixedComparision(pl, lop.UCBLearner(1.0), comp, alpha=0.3 + 0.1 * (g % 4)) if which == 1 \
            else lop.MixedComparisionEqualChecking(pl, lop.UCBLearner(1.0), comp)
        l.set_model(m)
        for k, ids in enumerate(([10, 11, 12], [13, 14, 15, 16], [6, 7, 8])):
            X = hist.xs(2, ids)
            aside = (g // 3 + k) % 2 == 1
            with learn.LEnv(ch, patterns=(k,), u=(0.2, 0.8)) as env:
                got = l.select(X, 2, [], None, True) if aside else l.select(X, 2)
            if aside:
                ctx.check(isinstance(got, tuple) and len(got) == 2 and not set(got[0]) & set(got[1]), lambda: 'set-aside reporting of %s with real learners: returned %s' % (type(l).__name__, got))
                got = got[0]
            got = [int(i) for i in got]
            ctx.step()
            what = 'call %d of %s with real learners' % (k + 1, type(l).__name__)
            ctx.check(len(set(got)) == len(got) and all(0 <= i < len(ids) for i in got), lambda: '%s: returned %s for %d candidates' % (what, got, len(ids)))
            joint = [d for d in env.draws if len(d[0]) > len(ids)]
            ctx.check(len(joint) == 1 and np.allclose(joint[0][0][:len(ids)], m.predict(X)[0], atol=1e-6), lambda: '%s: %d draws of reward samples for its candidates' % (what, len(joint)))
            Q = joint[0][2][:, :len(ids)]
            R = joint[0][2][:, len(ids):]
            f = learn.sim_matrix('rho', R)
            pairs = {}
            for a, b in itertools.combinations(range(len(ids)), 2):
                P = np.array([[p, 1 - p] for p in (learn.pair_probs(q)[a, b] for q in Q)])
                pairs[a, b] = learn.expected_alignment(f, P)
            ctx.check(abs(float(pl.sel_metric) - max(pairs.values())) < 1e-6 * (1 + abs(max(pairs.values()))),
                      lambda: '%s: the comparison benefit is %r, on the samples of this call it is %r' % (what, pl.sel_metric, max(pairs.values())))
            pb = float(pl.sel_metric)
            ab = float((al if which == 0 else comp).sel_metric)
            if which == 1:
                pb, ab = (1 - l.alpha) * pb, l.alpha * ab
            if pb != ab:
                ctx.check(len(got) == (2 if pb > ab else 1), lambda: '%s: returned %s with benefits %r / %r' % (what, got, pb, ab))
            ctx.state((g, k, tuple(got)))
    ctx.explore(body, max_dev=0, fair_after=6)


def run(case, ctx):
    {'one': run_one, 'seq': run_seq, 'equal': run_equal, 'align': run_align, 'check': run_check, 'real': run_real}[case['kind']](case, ctx)
