"""P30: the reward samples and representative sets drawn for a query are what they claim."""
import itertools
import math
import os
import tempfile

import numpy as np

import lop
from mc import hist, learn
from mc.core import Chooser

TECHNIQUE = 'explicit-state exploration of submission/reset/selection histories with one learner on the real code, every random draw controlled, every drawn representative set and reward sample judged against the data held at that moment'
LEVEL_NOTE = 'all histories up to the depth bound on the real learners; draws from a menu with one deviation in the short histories'
RULE = ('one learner used over a whole history of {small submission, large submission, reset, query of 1, 2, 3 alternatives over small, large and one dimensional candidate sets}: the representative points of each query must be '
        'as many different samples as asked for out of those held then (and the candidates, when fewer than four are held), the representative queries as many different sets as asked for, each of as many '
        'different representative points as the query has alternatives, the reward samples those of the model\'s joint prediction at candidates and representative points, columns in that order; nothing may be left over from '
        'an earlier query; the same with points read from a file; shared samples are used until they are taken back')
BOUNDS = {'quick': 'histories up to 4 operations of 8 (plus a final query); 5 sizes of representative set; 2 learners; point files of 2-4 points per environment, 2-3 alternatives',
          'thorough': 'histories up to 5 operations of 8 (plus a final query); 7 sizes of representative set; 2 learners; point files of 2-5 points per environment, 2-4 alternatives'}
ASSUMPTIONS = ['at least as many representative points as alternatives are asked for', 'held samples and candidates are pairwise different']
SIZES = [(3, 2), (5, 4), (4, 100), (30, 50), (8, 3)]
SIZES_T = SIZES + [(6, 15), (10, 1)]
OPS = 'pPRabcdr'
NH = 30                       # most samples a history can hold


def cases(tier):
    t = tier == 'thorough'
    for d in range(0, (5 if t else 4) + 1):
        for n, h in enumerate(itertools.product(OPS, repeat=d)):
            h = ''.join(h)
            if 'RR' in h or h.startswith('R') and d > 1 or d > 2 and ('aa' in h or 'bb' in h or 'cc' in h or 'rr' in h or h[0] in 'abcdr'):
                continue
            sizes = SIZES_T if t else SIZES
            for q in 'abcdr':
                for i in range(len(sizes)) if d <= 2 else ((n + ord(q)) % len(sizes),):
                    yield {'kind': 'hist', 'h': h + q, 'size': i, 'menu': d <= (2 if t else 1), 'dims': [2, 0] if d <= 2 else [(2, 0)[n % 2]]}
    for per in (2, 3, 4, 5) if t else (2, 3, 4):
        for k in (2, 3, 4) if t else (2, 3):
            if k <= per:
                for held in (0, 3, 5):
                    yield {'kind': 'file', 'per': per, 'k': k, 'held': held}
    for k in (1, 2, 3):
        for n in (3, 5):
            for ids in itertools.combinations(range(n), 2):
                yield {'kind': 'share', 'k': k, 'n': n, 'ids': list(ids)}


def run(case, ctx):
    globals()['run_' + case['kind']](case, ctx)


class Draws(learn.LEnv):
    """orders drawn without replacement: the first ones from a menu, later ones (redraws) a fixed shuffled sequence"""
    ORDERS = ('first', 'last', 'mixed')

    def choice(self, a, size=None, replace=True, p=None):
        if size is None or p is not None:
            return super().choice(a, size, replace, p)
        arr = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
        if replace:
            return arr[[i // 2 % len(arr) for i in range(int(size))]]        # draws with replacement repeat
        if int(size) > len(arr):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        self.n_choice = getattr(self, 'n_choice', 0) + 1
        o = self.ORDERS[self.c.pick(3, 'order')] if self.n_choice <= 3 else 'mixed'
        if o == 'mixed':
            return arr[np.random.RandomState(self.n_choice).permutation(len(arr))[:int(size)]]
        return arr[:int(size)] if o == 'first' else arr[::-1][:int(size)]


class Watched:
    """a learner on a model with tabulated predictions; remembers what it drew"""

    def __init__(self, rating, size, model, M=3, **kw):
        rep = {'num_pts': size[0], 'num_Q': size[1]}
        cls = lop.AbsAcquisition if rating else lop.AcquisitionSelection
        self.l = cls(M=M, rep_Q_data=kw.pop('rep', rep), alignment_f='one', **kw)
        self.l.set_model(model)
        self.sets = []
        orig = self.l.get_representative_Q

        def rec(candidate_pts=None):
            r = orig(candidate_pts)
            self.sets.append(r)
            return r
        self.l.get_representative_Q = rec


def world(dim):
    """every sample and candidate that can occur, with predictions"""
    n = NH + 9
    i = np.arange(n)
    X = np.stack([0.05 + 0.047 * i, (0.61803 * i) % 1.0], axis=1)
    X = X[:, 0] if dim == 0 else X
    mu = 0.6 * np.sin(1.3 * i)
    C = 0.3 * np.exp(-0.2 * np.abs(i[:, None] - i[None, :])) + 0.05 * np.eye(n)
    return X, learn.Table(X, mu, C)


QUERY = {'a': (2, 3), 'b': (3, 6), 'c': (1, 4), 'd': (2, 8), 'r': (1, 5)}


def run_hist(case, ctx):
    sizes = SIZES_T if case['size'] >= len(SIZES) else SIZES
    for dim in case['dims']:
        body = lambda ch: play(case, ctx, ch, sizes[case['size']], dim)
        ctx.explore(body, max_dev=1 if case['menu'] else 0, fair_after=14)


def play(case, ctx, ch, size, dim):
    X, table = world(dim)
    model = learn.TabPref(table)
    rep = {'num_pts': size[0], 'num_Q': size[1]}
    W = {False: Watched(False, size, model, rep=rep), True: Watched(True, size, model)}
    held, k = [], 0
    for t, op in enumerate(case['h']):
        what = 'history %s operation %d (%s), asked for %d points and %d queries, %s samples' % (case['h'], t + 1, op, size[0], size[1], 'flat' if dim == 0 else '2-d')
        if op == 'R':
            model.reset()
            held, k = [], 0
        elif op in 'pP':
            m = 2 if op == 'p' else 5
            model.add(X[k:k + m], [(-1, 0, 1)])
            held += list(range(k, k + m))
            k += m
        else:
            num, n = QUERY[op]
            cand = X[NH:NH + n]
            w = W[op == 'r']
            del w.sets[:]
            with Draws(ch, patterns=(t % 4,), max_enum=3) as env:
                w.l.select(cand, num)
            judge(ctx, w, env, model, X, cand, held, num, size, what)
            ctx.check(rep == {'num_pts': size[0], 'num_Q': size[1]}, what + ': the learner changed the options it was given to %s' % (rep,))
        ctx.step()
        ctx.state((dim, size, len(held), case['h'][:t + 1]))


def judge(ctx, w, env, model, X, cand, held, num, size, what):
    pool = [hist.row(X[i]) for i in held] + ([hist.row(x) for x in cand] if len(held) < 4 else [])
    alts = max(num, 2)
    steps = [s for s in w.sets if s[0] is not None]
    if not held:
        ctx.check(not steps and not env.draws, what + ': reward samples without any data')
        return
    if not w.sets and num == 1 and not isinstance(w.l, lop.AbsAcquisition):
        return                         # a query of one alternative carries no comparison
    ctx.check(len(steps) == len(w.sets) == len(env.draws), lambda: '%s: %d representative sets and %d draws of reward samples' % (what, len(w.sets), len(env.draws)))
    for (P, Q), (mean, cov, out) in zip(w.sets, env.draws):
        rows = [hist.row(x) for x in P]
        ctx.check(all(r in pool for r in rows), lambda: '%s: representative points %s are not samples held' % (what, rows))
        ctx.check(len(set(rows)) == len(rows) == min(size[0], len(pool)), lambda: '%s: representative points %s out of %d samples' % (what, rows, len(pool)))
        q = [tuple(int(v) for v in r) for r in Q]
        ctx.check(all(len(set(r)) == alts == len(r) and all(0 <= v < len(rows) for v in r) for r in q), lambda: '%s: representative queries %s over %d points' % (what, q, len(rows)))
        ctx.check(len(set(tuple(sorted(r)) for r in q)) == len(q) == min(size[1], math.comb(len(rows), alts)), lambda: '%s: %d representative queries over %d points' % (what, len(q), len(rows)))
        n = len(mean) - len(rows)
        ctx.check(n >= 1 and np.shape(out) == (3, len(mean)), lambda: '%s: reward samples of shape %s for %d representative points' % (what, np.shape(out), len(rows)))
        # the columns: candidates (all, or those still to be chosen from), then the representative points
        mu, C = model.table.at(np.concatenate([cand[:n], P], axis=0))
        if n == len(cand):
            ctx.close(mean, mu, 1e-9, what + ': mean of the reward samples')
            ctx.close(cov, C, 1e-9, what + ': covariance of the reward samples')
        else:
            ctx.close(mean[n:], mu[n:], 1e-9, what + ': mean of the reward samples at the representative points')
        ctx.outcome((len(rows), len(q), alts))


def run_file(case, ctx):
    """representative points read from a file of ten environments"""
    per, k = case['per'], case['k']
    X, table = world(2)
    pts = np.arange(20 * per, dtype=float).reshape(10 * per, 2) * 0.013
    what = 'file of %d points per environment, %d alternatives, %d samples held' % (per, k, case['held'])
    d = tempfile.mkdtemp(prefix='p30')
    try:
        f = os.path.join(d, 'pts.npy')
        np.save(f, pts)
        model = learn.TabPref(table)
        if case['held']:
            model.add(X[:case['held']], [(-1, 0, 1)])
        l = lop.AcquisitionSelection(M=3, rep_Q_method='stable', rep_Q_data={'filename': f})
        l.set_model(model)
        for alts in (k, 2, k):
            l.num_alts = alts
            for again in range(2):
                P, Q = l.get_representative_Q(X[NH:NH + 4])
                ctx.check(np.array_equal(P, pts), what + ': representative points differ from the file')
                want = set()
                for e in range(10):
                    want |= set(tuple(e * per + i for i in c) for c in itertools.combinations(range(per), alts))
                got = [tuple(sorted(int(v) for v in r)) for r in Q]
                ctx.check(len(got) == len(set(got)) and set(got) == want, lambda: '%s: representative queries %s' % (what, got))
                ctx.step()
            ctx.outcome((per, alts, len(got)))
    finally:
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        os.rmdir(d)
    l = lop.AcquisitionSelection(M=3, rep_Q_method='no such method')
    l.set_model(learn.TabPref(table))
    try:
        l.get_representative_Q(X[:3])
    except ValueError:
        pass
    else:
        ctx.fail('an unknown way to get representative queries is accepted')
    ctx.state((per, k, case['held']))


def run_share(case, ctx):
    """samples handed to a learner are used as they are until they are taken back"""
    n, ids = case['n'], case['ids']
    X, table = world(2)
    model = learn.TabPref(table)
    model.add(X[:6], [(-1, 0, 1)])
    for cls in (lop.AcquisitionSelection, lop.AbsAcquisition):
        l = cls(M=4)
        l.set_model(model)
        cand, rep = X[NH:NH + n], X[:3]
        R = 0.1 * np.arange(12.0).reshape(4, 3)
        A = 0.3 * np.cos(np.arange(4.0 * n)).reshape(4, n)
        what = '%s, %d candidates, positions %s' % (cls.__name__, n, ids)

        def drawn(tag):
            def body(ch):
                model.predict(cand)                # as a selection does first
                with learn.LEnv(ch, patterns=(0, 1)) as env:
                    r, a = l.get_samples_from_model(cand, rep)
                ctx.check(len(env.draws) == 1, what + tag + ': reward samples are not drawn')
                mean, cov, out = env.draws[0]
                mu, C = table.at(np.concatenate([cand, rep], axis=0))
                ctx.close(mean, mu, 1e-9, what + tag + ': mean')
                ctx.close(cov, C, 1e-9, what + tag + ': covariance')
                ctx.close(a, out[:, :n], 1e-12, what + tag + ': rewards of the candidates')
                ctx.close(r, out[:, n:], 1e-12, what + tag + ': rewards of the representative points')
                ctx.step()
            ctx.explore(body)
        drawn(' before sharing')
        for round_ in range(2):
            l.set_samples(R + round_, A - round_)
            for i in (None, ids, ids[::-1], [ids[1]]):
                r, a = l.get_samples_from_model(cand if i is None else cand[i], rep, indicies=i)
                ctx.close(r, R + round_, 0, what + ': shared rewards of the representative points')
                ctx.close(a, (A - round_) if i is None else (A - round_)[:, i], 0, what + ': shared rewards of the candidates %s' % (i,))
                ctx.step()
            l.unset_samples()
            drawn(' after the samples were taken back')
            with learn.LEnv(Chooser([])):
                r, a = l.get_samples_from_model(cand, None)
            ctx.check(np.shape(a) == (4, n) and np.shape(r) == (4, 0), what + ': samples without representative points have shapes %s %s' % (np.shape(a), np.shape(r)))
        ctx.outcome((n, tuple(ids)))
    ctx.state(case)
