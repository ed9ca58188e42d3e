"""Entry point of every check:  python -m kmon.cli C01 --tier quick [--seed N] [--replay FILE]"""
import argparse
import importlib
import json
import logging
import os
import re
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    data = json.load(open(KNOWN))
    return [ff for ff in data.get('findings', []) if ff['property'] == prop]


def import_kalepy():
    repo = os.path.realpath(os.environ.get('KALEPY_REPO', '/repo'))
    sys.path.insert(0, repo)
    logging.disable(logging.CRITICAL)
    import kalepy
    got = os.path.realpath(kalepy.__file__)
    if not got.startswith(repo + os.sep):
        raise RuntimeError('kalepy was imported from {} instead of {}'.format(got, repo))
    return repo


def main(argv=None):
    par = argparse.ArgumentParser()
    par.add_argument('prop')
    par.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    par.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    par.add_argument('--replay')
    par.add_argument('--kind', help='only cases of this kind')
    par.add_argument('--index', type=int)
    par.add_argument('--scale', type=float, default=1.0, help='multiply the number of cases')
    par.add_argument('--no-evidence', action='store_true')
    par.add_argument('-v', action='store_true')
    args = par.parse_args(argv)
    t0 = time.time()
    prop = args.prop
    try:
        repo = import_kalepy()
        from kmon import core, tap as taps
        mod = importlib.import_module('kmon.props.' + prop.lower())
    except Exception:
        traceback.print_exc()
        print('ERROR property={} the check could not start'.format(prop))
        return 2

    if args.replay:
        rep = json.load(open(args.replay))
        args.seed, args.tier = rep['seed'], rep['tier']
        jobs = [(rep['kind'], rep['index'])]
    else:
        jobs = []
        for kind, (func, nq, nt) in mod.KINDS.items():
            if args.kind and kind != args.kind:
                continue
            num = nq * getattr(mod, 'QUICK', 2.5) if args.tier == 'quick' else nt
            num = max(1, int(round(num * args.scale)))
            jobs += [(kind, ii) for ii in range(num) if args.index in (None, ii)]

    try:
        tap = taps.Tap()
        if hasattr(mod, 'warmup'):
            mod.warmup()
        else:
            taps.default_warmup()
    except Exception as err:
        # ordinary use of the code under test failed before any case was run
        return report(args, prop, mod, jobs, [dict(
            kind='warmup', index=0, counts={'cases': 1, 'verdicts': 1}, states=[], desc={}, nontrivial=True, wall=0.0,
            violations=[dict(key='exception:warmup:' + type(err).__name__,
                             detail=dict(where=traceback.format_exc()[-2500:]))])], [], t0, repo)
    tap.install()
    # long cases of one kind should not all fall in the same shard
    nproc = 1 if len(jobs) == 1 else core.NPROC
    recs, infra = core.run_jobs(mod, prop, jobs, args.seed, args.tier, tap, nproc)
    return report(args, prop, mod, jobs, recs, infra, t0, repo)


def report(args, prop, mod, jobs, recs, infra, t0, repo):
    counts, states, kinds = Counter(), Counter(), Counter()
    distinct = set()
    samples, viols = [], {}
    recs.sort(key=lambda rr: (rr['kind'], rr['index']))
    for rec in recs:
        counts.update(rec['counts'])
        states.update(rec['states'])
        kinds[rec['kind']] += 1
        if rec['nontrivial']:
            distinct.add(rec['kind'] + json.dumps(rec['desc'], sort_keys=True))
        if rec['nontrivial'] and sum(ss['kind'] == rec['kind'] for ss in samples) < 2 and len(samples) < 16:
            samples.append(dict(kind=rec['kind'], index=rec['index'], **rec['desc']))
        for vv in rec['violations']:
            viols.setdefault(vv['key'], []).append((rec, vv))
        if args.v:
            print('{:6.2f}s {} {} {}'.format(rec['wall'], rec['kind'], rec['index'], [vv['key'] for vv in rec['violations']]))

    known = load_known(prop)
    reported, listed = 0, 0
    for ff in known:
        keys = [kk for kk in viols if re.fullmatch(ff['key'], kk)]
        for kk in keys:
            viols.pop(kk)
        listed += 1
        print('KNOWN-FINDING: property={} {}'.format(prop, ff['what']))
    repdir = os.path.join(HERE, 'replays')
    for key, items in sorted(viols.items()):
        rec, vv = items[0]
        os.makedirs(repdir, exist_ok=True)
        name = '{}-{}-s{}.json'.format(prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:60], args.seed)
        path = os.path.join(repdir, name)
        with open(path, 'w') as out:
            json.dump(dict(property=prop, key=key, kind=rec['kind'], index=rec['index'], seed=args.seed, tier=args.tier,
                           case=rec['desc'], detail=vv['detail'], ncases=len(items),
                           rerun='./check.sh {} --replay {}'.format(prop, path)), out, indent=1)
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('   {} ({} cases, first: {} #{}): {}'.format(
            key, len(items), rec['kind'], rec['index'], json.dumps(vv['detail'])[:1500]))
        reported += 1

    events = {kk[6:]: vv for kk, vv in sorted(counts.items()) if kk.startswith('event:')}
    verdicts = {kk[8:]: vv for kk, vv in sorted(counts.items()) if kk.startswith('verdict:')}
    others = {kk: vv for kk, vv in sorted(counts.items())
              if not kk.startswith(('event:', 'verdict:')) and kk not in ('cases', 'verdicts')}
    coverage = dict(
        evaluations=counts['cases'],
        distinct_nontrivial=len(distinct),
        rule=mod.RULE,
        samples=samples,
        cases_by_kind=dict(kinds),
        oracle_verdicts=counts['verdicts'],
        verdicts_by_oracle=verdicts,
        api_events_monitored=events,
        monitor_counters=others,
        distinct_states=len(states),
        states_seen={kk: vv for kk, vv in states.most_common(60)},
    )
    evid = dict(property=prop, tier=args.tier, seed=args.seed, level='exploration', coverage=coverage,
                assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                wall_s=round(time.time() - t0, 2), violations=reported)
    if infra:
        evid['errors'] = infra[:5]
    if not (args.no_evidence or args.replay or args.kind):
        path = os.path.join(HERE, 'evidence', prop + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as out:
            json.dump(evid, out, indent=1)

    print('{} {}: {} cases ({} distinct), {} verdicts, {} API events, {} states, {} violations, {:.1f} s [{}]'.format(
        prop, args.tier, counts['cases'], len(distinct), counts['verdicts'], sum(events.values()), len(states),
        reported, time.time() - t0, repo))
    if reported:
        return 1
    if infra:
        print('ERROR property={} no verdict: {}'.format(prop, infra[0][:3000]))
        return 2
    if counts['verdicts'] == 0:
        print('ERROR property={} no verdict: no monitor was reached'.format(prop))
        return 2
    floor = getattr(mod, 'MIN_VERDICTS', {})
    if not (args.replay or args.kind or args.scale < 1.0 or args.index is not None):
        for key, num in floor.items():
            if verdicts.get(key, 0) < num:
                print('ERROR property={} no verdict: oracle "{}" was reached only {} times (needs {})'.format(
                    prop, key, verdicts.get(key, 0), num))
                return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
