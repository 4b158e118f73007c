"""python -m mc.run PROPERTY            run a check (tier from VERIF_TIER, seed from VERIF_SEED)
python -m mc.run --replay FILE        re-execute one recorded violation without the explorer
"""
import concurrent.futures
import concurrent.futures.process
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from mc import core
from mc.core import Ctx, Violation, Hang

CPU_LIMIT = float(os.environ.get('MC_CASE_CPU', '120'))
# a check has to answer in 900 s: past this many seconds the remaining cases are reported as not covered
DEADLINE = float(os.environ.get('MC_DEADLINE', '780'))


def _on_prof(sig, frame):
    raise Hang()


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-5:]))


def run_case(mod, case, ctx):
    """None, or (message, key, choices)"""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT * getattr(mod, 'CPU_FACTOR', 1))
    core.seeded(ctx.seed * 7919 + 17)
    ctx.last_choices = None
    core.quiet()
    try:
        before = ctx.traces
        mod.run(case, ctx)
        if ctx.traces == before:
            ctx.traces += 1
        return None
    except Violation as v:
        return (str(v), v.key, ctx.last_choices)
    except Hang:
        return ('no answer within %g s of CPU time' % CPU_LIMIT, 'hang', ctx.last_choices)
    except Exception as e:
        return ('%s: %s  [%s]' % (type(e).__name__, e, short_tb(e)), 'exc:' + type(e).__name__, ctx.last_choices)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        core.loud()


def load_known(prop):
    try:
        d = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    except FileNotFoundError:
        return {}
    return {f['key']: f['what'] for f in d.get('findings', []) if f['property'] == prop}


def worker(args):
    modname, seed, tier, shard, nshards, workdir, known = args
    mod = importlib.import_module(modname)
    d = os.path.join(workdir, 'w%d' % shard)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    ctx = Ctx(seed, tier)
    ctx.tolerated = set(known)
    viol = None
    n = 0
    samples = []
    t0 = time.time()
    for i, case in enumerate(mod.cases(tier)):
        if i % nshards != shard:
            continue
        if tier == 'quick' and time.time() - t0 > DEADLINE:
            ctx.capped += 1
            break
        n += 1
        if len(samples) < 2:
            samples.append((i, case))
        r = run_case(mod, case, ctx)
        if r is not None:
            if r[1] in ctx.tolerated:
                ctx.known.append((r[1], r[0]))
                continue
            viol = (i, case, r)
            break
    return {'n': n, 'viol': viol, 'states': ctx.states, 'outcomes': ctx.outcomes, 'transitions': ctx.transitions,
            'traces': ctx.traces, 'max_dev': ctx.max_dev, 'capped': ctx.capped, 'samples': samples,
            'known': sorted(set(ctx.known))}


def main(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    modname = 'mc.checks.' + prop.lower()
    mod = importlib.import_module(modname)
    if hasattr(mod, 'warmup'):
        core.quiet()
        try:
            mod.warmup()
        except Exception:
            pass            # whatever is wrong shows up in the cases
        core.loud()
    workdir = tempfile.mkdtemp(prefix='mc_%s_' % prop)
    evid = os.path.join(ROOT, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    known = load_known(prop)
    nsh = int(os.environ.get('MC_WORKERS', '8'))
    try:
        jobs = [(modname, seed, tier, s, nsh, workdir, known) for s in range(nsh)]
        if nsh == 1:
            res = [worker(jobs[0])]
        else:
            # fork: the parent has imported (and compiled) everything already
            mp = multiprocessing.get_context('fork')
            with concurrent.futures.ProcessPoolExecutor(nsh, mp_context=mp) as pool:
                futs = [pool.submit(worker, j) for j in jobs]
                res = []
                for j, f in zip(jobs, futs):
                    try:
                        res.append(f.result())
                    except concurrent.futures.process.BrokenProcessPool:
                        res.append({'n': 0, 'viol': (0, {'shard': j[3]}, ('the process running the library died', 'died', None)),
                                    'states': set(), 'outcomes': set(), 'transitions': 0, 'traces': 0, 'max_dev': 0,
                                    'capped': 0, 'samples': [], 'known': []})
    finally:
        os.chdir(ROOT)
        shutil.rmtree(workdir, ignore_errors=True)
    states, outcomes = set(), set()
    for r in res:
        states |= r['states']
        outcomes |= r['outcomes']
    samples = sorted((s for r in res for s in r['samples']), key=lambda s: s[0])
    viols = sorted((r['viol'] for r in res if r['viol'] is not None), key=lambda v: v[0])
    kn = sorted(set(k for r in res for k in r['known']))
    seen_keys = []
    for k, msg in kn:
        if k not in seen_keys:
            seen_keys.append(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, known.get(k, msg)))
    for k in known:
        if k not in seen_keys and not viols:
            print('NOTE: listed finding %s of %s did not occur in this run' % (k, prop))
    ncases = sum(r['n'] for r in res)
    capped = sum(r['capped'] for r in res)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': len(states), 'transitions': sum(r['transitions'] for r in res),
                       'traces_validated_against_impl': sum(r['traces'] for r in res),
                       'cases': ncases, 'distinct_outcomes': len(outcomes),
                       'max_nondefault_answers': max(r['max_dev'] for r in res),
                       'exhaustive': capped == 0 and not viols,
                       'rule': mod.RULE, 'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
                       'binding': 'every enumerated execution runs the real code under /repo/src and is compared with the '
                                  'reference model after every step; there is no separate model to keep in step',
                       'samples': [json.loads(json.dumps(s[1], default=str)) for s in samples[:3] + samples[-2:]]},
          'assumptions': mod.ASSUMPTIONS,
          'violations': len(viols), 'wall_s': round(time.time() - t0, 2)}
    with open(evid, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d capped=%d wall=%.1fs' %
          (prop, tier, ncases, len(states), ev['coverage']['transitions'],
           ev['coverage']['traces_validated_against_impl'], len(outcomes), capped, time.time() - t0))
    if viols:
        i, case, (msg, key, choices) = viols[0]
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'replay', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case_index': i, 'case': case, 'choices': choices, 'message': msg, 'key': key,
                       'seed': seed, 'replay': './check --replay %s' % path}, f, indent=1, default=str)
        print('case %d: %s' % (i, json.dumps(case, default=str)[:600]))
        choices = (choices or [])[:20000]
        if choices:
            print('environment answers: %s' % str(choices)[:400])
        print(msg[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if ncases == 0 or not states:
        print('nothing was explored')
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('mc.checks.' + d['property'].lower())
    tmp = tempfile.mkdtemp(prefix='mc_replay_')
    os.chdir(tmp)
    try:
        ctx = Ctx(d.get('seed', 1))
        ctx.forced = d['choices']
        r = run_case(mod, d['case'], ctx)
    finally:
        os.chdir(ROOT)
        shutil.rmtree(tmp, ignore_errors=True)
    print('reproduced: %s' % r[0] if r else 'did not reproduce')
    return 1 if r else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
