"""P14: query-type schedules follow their documented probabilities at every call count."""
import copy
import math

import numpy as np

import lop
from mc.core import Env, canon
from mc.stubs import Sub, TagModel

TECHNIQUE = 'explicit-state exploration of the real schedule learners: every reachable schedule state (merged on all the learner\'s own state) x every coin answer of a fine grid x every checkpoint benefit, compared with a reference automaton'
LEVEL_NOTE = 'all reachable schedule states up to the stated number of calls; the probability of a rating is measured by enumerating the coin on a grid at every state'
RULE = ('breadth first search over the calls to one learner: every outcome of the coin, every menu of benefits at the checkpoints, re-attaching to a model at any time; states are the complete internal state of the '
        'learner together with the state of the reference automaton; at every state every option tuple and every coin value of the grid is executed on a copy of the real learner; the measured share of rating '
        'answers is the probability')
BOUNDS = {'quick': '14 learner configurations, up to 18 calls (one option tuple: 9 configurations up to 60 calls), coin grid of 160 values (24 at the checkpoints), 9 benefit pairs, 4 option tuples',
          'thorough': '22 learner configurations, up to 26 calls (one option tuple: 9 configurations up to 60 calls), coin grid of 1000 values (120 at the checkpoints), 17 benefit pairs, 4 option tuples'}
ASSUMPTIONS = ['the two sub learners are recording stand-ins: what the schedule does with their answers does not depend on what they are']

METRICS = [(1, 1), (3.0, 1.0), (1.0, 3.0), (2.0, 1.0), (2.2, 1.0), (1.0, 2.2), (0, 0), (0.0, 1.0), (1.0, 0.0)]
METRICS_T = METRICS + [(1.0, 2.0), (-1.0, -3.0), (-3.0, -1.0), (-1.0, -1.5), (-1.0, 2.0), (0.02, 0.05), (0.05, 0.02), (40.0, 30.0)]
OPTS = [dict(num=2, prev=[], prefer=None, aside=False, pf=True, n=4), dict(num=3, prev=[1], prefer=[0, 2], aside=True, pf=False, n=5),
        dict(num=2, prev=[0, 2], prefer='pareto', aside=False, pf=False, n=4), dict(num=4, prev=[], prefer={1, 3}, aside=True, pf=True, n=6)]


def make(cfg):
    A = lop
    pair, ab, comp = Sub('pair'), Sub('abs'), Sub('comp')
    k, p = cfg[0], cfg[1] if len(cfg) > 1 else None
    cls = {'const': 'MixedStrategy', 'peak': 'MixedStrategyPeak', 'peak2': 'MixedStrategyPeak2', 'peak3': 'MixedStrategyPeak3', 'rev': 'MixedStrategyRevPeak',
           'dec': 'MixedDecision', 'dec2': 'MixedDecision2', 'fixed': 'MixedComparisionSetFixed', 'alt': 'MixedAlternating', 'align': 'AlignmentDecision'}[k]
    C = getattr(A, cls)
    if k in ('dec', 'dec2'):
        return C(pair, ab, comp, p)
    if k in ('fixed', 'alt'):
        return C(pair, ab)
    return C(pair, ab, p)


def prob(cfg, n):
    """documented probability of a rating at the n-th call (from 0) when following the coin"""
    k = cfg[0]
    p = cfg[1] if len(cfg) > 1 else None
    if k == 'const':
        return p
    if k in ('peak', 'peak2', 'peak3', 'dec'):
        if n < 3:
            return (0.1, 0.5, 0.9)[n]
        if k == 'peak':
            return 0.8 * math.exp((2 - n) * 0.2) + 0.1
        return 0.9 * math.exp((2 - n) * (0.2 if k == 'peak2' else p))
    if k in ('rev', 'dec2'):
        return (0.9, 0.1)[n] if n < 2 else p
    if k == 'fixed':
        return 1.0 if n <= 7 else 0.0
    if k == 'alt':
        return float(n % 2)
    if k == 'align':
        return float(n % 2)
    raise KeyError(k)


CFG = [['const', 0.5], ['const', 0.0], ['const', 1.0], ['peak', 0.3], ['peak2', 0.3], ['peak3', 0.2], ['peak3', 0.45], ['rev', 0.3], ['rev', 0.6], ['dec', 0.2], ['dec2', 0.3], ['fixed'], ['alt'], ['align', 6]]
CFG_T = CFG + [['const', 0.17], ['const', 0.93], ['peak3', 0.05], ['rev', 0.85], ['dec', 0.05], ['dec', 0.5], ['dec2', 0.55], ['align', 17]]


def cases(tier):
    for c in (CFG_T if tier == 'thorough' else CFG):
        yield {'cfg': c, 'depth': 26 if tier == 'thorough' else 18, 'grid': 1000 if tier == 'thorough' else 160, 'cgrid': 120 if tier == 'thorough' else 24, 'wide': tier == 'thorough'}
    # a long session: only the deterministic continuation of the schedule
    for c in (['const', 0.4], ['peak', 0.3], ['peak2', 0.2], ['peak3', 0.1], ['rev', 0.35], ['fixed'], ['alt'], ['dec', 0.2], ['dec2', 0.3]):
        yield {'cfg': c, 'depth': 60, 'grid': 80, 'cgrid': 24, 'long': True}


def own_state(l):
    d = {k: v for k, v in vars(l).items() if not isinstance(v, (Sub, TagModel))}
    subs = sorted((k, v.name, v.samples is None, v.M) for k, v in vars(l).items() if isinstance(v, Sub))
    return repr(canon(d)), repr(subs)


def subs_of(l):
    return {v.name: v for v in vars(l).values() if isinstance(v, Sub)}


def call(l, o, X):
    """(rating?, answer) of one real call; judged against what the sub learners were asked and answered"""
    return l.select(X, o['num'], copy.deepcopy(o['prev']), copy.deepcopy(o['prefer']), o['aside'], o['pf'])


def judge(ctx, cfg, subs, ret, o, X, what):
    if cfg[0] == 'align':
        ctx.check(isinstance(ret, tuple) and len(ret) == 3, lambda: '%s: returned %r' % (what, ret))
        ret = ret[0]
    kinds = [nm for nm in ('pair', 'abs') if any(ret is a or ret == a for a in subs[nm].answers)]
    ctx.check(len(kinds) == 1, lambda: '%s: returned %r, which is no selection of a sub learner (%s)' % (what, ret, {k: s.answers for k, s in subs.items()}))
    kind = kinds[0]
    sub = subs[kind]
    c = sub.calls[[i for i, a in enumerate(sub.answers) if a == ret][-1]]
    want = {'num': 1 if kind == 'abs' else o['num'], 'prev': o['prev'], 'prefer': o['prefer'], 'aside': o['aside'], 'pair_first': o['pf']}
    got = {k: c[k] for k in want}
    ok = all(got[k] == want[k] for k in ('num', 'aside', 'pair_first', 'prefer')) and sorted(got['prev']) == sorted(want['prev']) and np.array_equal(c['X'], X)
    ctx.check(ok, lambda: '%s: the %s sub learner was asked %s instead of %s' % (what, kind, got, want))
    return kind


CHECKPOINT = (5, 10, 15)


def run(case, ctx):
    cfg, depth = case['cfg'], case['depth']
    dec = cfg[0] in ('dec', 'dec2')
    metrics = METRICS_T if case.get('wide') else METRICS
    Xs = [np.array([[0.1 * i + 0.01 * j, 0.9 - 0.07 * i] for i in range(o['n'])]) for j, o in enumerate(OPTS)]
    l0 = make(cfg)
    l0.set_model(TagModel())
    # node: learner, expected n, mode, depth
    seen = set()
    frontier = [(l0, 0, 'coin', ())]
    seen.add((own_state(l0), 0, 'coin'))
    while frontier:
        nxt = []
        for l, n, mode, path in frontier:
            ctx.state((cfg, n, mode, own_state(l)))
            if n >= depth or (cfg[0] == 'align' and n >= cfg[1]):
                continue
            check = dec and n in CHECKPOINT
            succ = {}
            for oi, o in enumerate(OPTS):
                for mi, m in enumerate(metrics if check else metrics[:1]):
                    if oi != n % len(OPTS) and (mi % 3 or case.get('long')):
                        continue
                    full = oi == n % len(OPTS)
                    K = (case['cgrid'] if check else case['grid']) if full else 8
                    u = [(i + 0.5) / K for i in range(K)]
                    tally = {'abs': 0.0, 'pair': 0.0}
                    draws = [0]

                    def body(ch):
                        c = copy.deepcopy(l)
                        subs = subs_of(c)
                        for s in subs.values():
                            s.calls, s.answers, s.drawn = [], [], []
                        subs['pair'].metric = m[0]
                        for nm in subs:
                            if nm != 'pair':
                                subs[nm].metric = m[1]
                        what = '%s call %d (after %s) options %d benefits %s' % (cfg, n, list(path), oi, m)
                        with Env(ch, u=tuple(u)) as env:
                            ret = call(c, o, Xs[oi])
                        w = 1.0
                        for (k, _, _) in ch.points:
                            w /= k
                        for e in env.log:
                            if e[0] == 'choice_p':
                                ctx.fail('%s: biased choice is not supported by this check' % what)
                        kind = judge(ctx, cfg, subs, ret, o, Xs[oi], what)
                        tally[kind] += w
                        if check and 'comp' in subs:
                            ctx.check(all(s.samples is None for s in subs.values()), lambda: '%s: the shared samples are still set afterwards' % what)
                        ctx.step()
                        succ.setdefault((kind, mi), c)
                    ctx.explore(body, max_paths=4 * K * K)
                    total = tally['abs'] + tally['pair']
                    if abs(total - 1) > 1e-9:
                        ctx.fail('%s call %d: the coin outcomes do not add up (%g)' % (cfg, n, total))
                    # what the reference automaton says
                    commit = None
                    if check:
                        p, a = m
                        big = max(abs(p), abs(a))
                        same = p * a > 0 or (p == 0) != (a == 0)
                        r = float('nan') if big == 0 else (float('inf') if min(abs(p), abs(a)) == 0 else max(p / a, a / p))
                        if same and r > 2:
                            commit = 'pair' if p > a else 'abs'
                    if commit:
                        want = 1.0 if commit == 'abs' else 0.0
                    elif check or mode == 'coin':
                        want = prob(cfg, n)
                    else:
                        want = 0.95 if mode == 'abs' else 0.05
                    tol = 1.01 / K
                    ctx.check(abs(tally['abs'] - want) <= tol,
                              lambda: '%s call %d (earlier: %s, phase %s, benefits %s): a rating is asked with probability %.4f, the schedule says %.4f' % (cfg, n, list(path), mode, m if check else '-', tally['abs'], want))
                    if full:
                        for (kind, mj), c in list(succ.items()):
                            if mj != mi:
                                continue
                            nm = (commit or 'coin') if check else mode
                            key = (own_state(c), n + 1, nm)
                            if key not in seen:
                                seen.add(key)
                                nxt.append((c, n + 1, nm, path + (kind[0] + ('%g/%g' % m if check else ''),)))
                    succ.clear()
            # attached again (to another model): the schedule starts from the beginning
            r = copy.deepcopy(l)
            r.set_model(TagModel('again'))
            ctx.step()
            key = (own_state(r), 0, 'coin')
            if key not in seen:
                seen.add(key)
                nxt.append((r, 0, 'coin', path + ('attach',)))
            ctx.check(all(s.model is not None and s.model.name == 'again' for s in subs_of(r).values()), lambda: '%s: re-attaching did not reach every sub learner' % cfg)
        frontier = nxt
    ctx.outcome((cfg, len(seen)))
