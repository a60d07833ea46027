#!/usr/bin/env python3
"""Decide one property on the current tree of /repo.

    check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Scenarios are drawn from the generators, executed by drivers compiled from
/repo, and the recorded behaviours are checked by TLC against the
specification in ../spec.  Exit 0: held; 1: violated; 2: error of the check.
"""
import argparse
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import harness  # noqa: E402
import props  # noqa: E402

VERIF = harness.VERIF


def model_runs(pid, tier):
    """Exhaustive checks of the specification alone."""
    return props.MODELS.get(pid, {}).get(tier) or props.MODELS.get(pid, {}).get('quick') or []


def parts(job, most=40e6):
    """The records of a job, in pieces that fit in the memory of TLC."""
    if not job.recs:
        raise core.ModelError('no record for ' + job.name)
    out, size = [[]], 0
    for x in job.recs:
        k = len(json.dumps(x))
        if out[-1] and size + k > most:
            out.append([])
            size = 0
        out[-1].append(x)
        size += k
    return [props.Job(job.name, job.module, x, **job.kw) for x in out]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    pid = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    if a.replay:
        return replay(pid, a.replay)
    ctx = props.Ctx(random.Random('%s-%d-%s' % (pid, a.seed, tier)), tier)
    jobs = props.PROPS[pid](ctx)
    states = transitions = traces = 0
    wall = {}
    violation = None
    ctx.stats['build_and_run_s'] = round(time.time() - t0, 1)
    if len(ctx.samples) < 1:
        ctx.samples.append({'note': 'no sample'})
    for j in [p for j in jobs for p in parts(j)]:
        r = core.tlc(j.module, j.recs, **j.kw)
        states += r['distinct']
        transitions += r['states']
        wall[j.name] = round(wall.get(j.name, 0) + r['wall'], 1)
        if r['bad']:
            violation = (j, r)
            break
        if r['distinct'] < len(j.recs):
            raise core.ModelError('%s: %d states for %d records' % (j.name, r['distinct'], len(j.recs)))
        traces += len(j.recs)
    models = dict(ctx.models)
    states += sum(x['distinct'] for x in models.values())
    transitions += sum(x['generated'] for x in models.values())
    if violation is None:
        for name, module, kw in model_runs(pid, tier):
            r = core.tlc(module, **kw)
            if r['bad']:
                raise core.ModelError('the specification violates %s in %s\n%s' % (r['bad'], name, r['trace']))
            models[name] = {'distinct': r['distinct'], 'generated': r['states'], 'wall_s': round(r['wall'], 1)}
            states += r['distinct']
            transitions += r['states']
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': transitions,
                       'traces_validated_against_impl': traces,
                       'samples': ctx.samples[:4],
                       'scenarios': ctx.stats, 'models': models, 'tlc_wall_s': wall},
          'assumptions': props.ASSUMPTIONS,
          'violations': 0 if violation is None else 1,
          'wall_s': round(time.time() - t0, 2)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    if violation is None:
        print('%s: held on %d behaviours, %d states, %.1f s' % (pid, traces, states, time.time() - t0))
        return 0
    j, r = violation
    os.makedirs(VERIF + '/build/replay', exist_ok=True)
    path = VERIF + '/build/replay/%s.json' % pid
    k = r['index'] if r['index'] is not None else 0
    with open(path, 'w') as f:
        json.dump({'property': pid, 'module': j.module, 'kw': j.kw, 'record': j.recs[k],
                   'tlc': r['trace']}, f)
    print('%s: %s does not hold for record %d of %s %s' % (pid, r['bad'], k, j.name, r.get('err') or ''))
    print(props.describe(j.recs[k])[:1500])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    r = core.tlc(d['module'], [d['record']], **d['kw'])
    print(r['out'][-3000:])
    if r['bad']:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except (harness.HarnessError, core.ModelError) as e:
        print('ERROR: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
