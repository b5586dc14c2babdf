import os, sys, json, time, argparse, importlib, collections, traceback, shutil
import vh
from vh import VERIF, GROUPS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--n', type=int)
    ap.add_argument('--nproc', type=int, default=int(os.environ.get('VERIF_NPROC', '8')))
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    out = os.environ.get('VERIF_OUT') or VERIF
    rdir = os.path.join(out, 'replays', prop)
    os.makedirs(rdir, exist_ok=True)
    evp = os.path.join(out, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    import numpy as np
    np.seterr(all='ignore')
    try:
        mod = importlib.import_module('checks.' + prop.lower())
    except Exception:
        tb = traceback.format_exc()
        # the module under test does not import / does not compile: nothing the
        # property promises can be had
        print(tb)
        inrepo = ('File "%s/geotecha' % vh.REPO) in tb or 'BuildError' in tb
        if inrepo:
            p = os.path.join(rdir, 'import.json')
            json.dump(dict(property=prop, error=tb), open(p, 'w'))
            print('VIOLATION property=%s replay=%s' % (prop, p))
            return 1
        return 3
    for g in [g for g, d in GROUPS.items() if d['fn'].__module__ != mod.__name__]:
        del GROUPS[g]      # registered by a module imported for its helpers
    if a.replay:
        r = json.load(open(a.replay))
        if 'group' not in r:
            print(r)
            return 1
        res = vh.run_case(prop, r['group'], r['idx'], r['seed'], r['tier'])
        for v in res['viol']:
            print(v['label'], v['msg'], v['params'])
        if res['viol']:
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        return 0
    counts = collections.OrderedDict()
    jobs = []
    for g, d in GROUPS.items():
        if a.only and not any(g.startswith(o) for o in a.only.split(',')):
            continue
        n = a.n or d[tier]
        counts[g] = n
        jobs.append([(g, i) for i in range(n)])
    # interleave the groups proportionally
    alljobs = []
    for lst in jobs:
        for j, x in enumerate(lst):
            alljobs.append(((j + 0.5) / len(lst), x))
    alljobs = [x for _, x in sorted(alljobs, key=lambda t: t[0])]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 500 if tier == 'quick' else 3000)
    known = {}
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf))['findings']:
            if e['property'] == prop and e.get('status') == 'known':
                known[e['mech']] = e
    results, left, stuck = vh.run_pool(prop, alljobs, seed, tier, a.nproc, budget,
                                       mem=getattr(mod, 'MEM', 8 << 30), known=known)
    obs = collections.Counter()
    gobs = collections.Counter()
    gcases = collections.Counter()
    distinct = set()
    viol, seenknown = [], collections.Counter()
    samples = collections.OrderedDict()
    gcpu = collections.Counter()
    for r in sorted(results, key=lambda r: (r['group'], r['idx'])):
        gcases[r['group']] += 1
        gcpu[r['group']] += r['cpu']
        for k, v in r['obs'].items():
            obs[r['group'] + ':' + k] += v
            gobs[r['group']] += v
        if r['nontriv']:
            distinct.add(r['group'] + json.dumps(r['params'], sort_keys=True, default=str))
        if len(samples.get(r['group'], [])) < 2:
            samples.setdefault(r['group'], []).append(dict(group=r['group'], idx=r['idx'], params=r['params'],
                                                           observations=r['obs']))
        for v in r['viol']:
            if v['mech'] in known:
                seenknown[v['mech']] += 1
            else:
                viol.append(v)
    if hasattr(mod, 'finish'):
        mod.finish(results, viol)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    first = collections.OrderedDict()
    for v in viol:
        first.setdefault(v['mech'], v)
    firsts = list(first.values())
    viol = firsts + [v for v in viol if not any(v is f for f in firsts)]
    for n, v in enumerate(viol[:max(6, min(12, len(firsts)))]):
        p = os.path.join(rdir, '%s-%d.json' % (v['group'].replace('/', '_').replace(' ', '_'), v['idx']))
        json.dump(dict(property=prop, seed=seed, tier=tier, **v), open(p, 'w'), indent=1, default=str)
        print('%s/%s: %s\n    case: %s' % (v['group'], v['label'], v['msg'][:700], json.dumps(v['params'], default=str)[:1000]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for m, e in known.items():
        if seenknown[m]:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    dead = [g for g in counts if counts[g] and gobs[g] < GROUPS[g]['min_obs'] and not any(v['group'] == g for v in viol)]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(distinct),
                            rule=getattr(mod, 'RULE', '') + ' A case counts as distinct and non-trivial when its generated'
                            ' parameters differ from every other case of its group and at least one monitor compared a'
                            ' non-zero reference value (or evaluated a condition) on it.',
                            samples=[s for l in samples.values() for s in l][:60],
                            monitor_observations=int(sum(obs.values())),
                            observations_by_monitor=dict(obs),
                            cases_by_group=dict(gcases),
                            cpu_seconds_by_group={k: round(v, 2) for k, v in gcpu.items()},
                            cases_not_run_budget=left, watchdog_kills=stuck,
                            known_findings_seen=dict(seenknown)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(evp, 'w'), indent=1, default=str)
    print('%s %s seed=%d: %d cases, %d observations, %d distinct non-trivial, %d violations, %.1fs'
          % (prop, tier, seed, len(results), sum(obs.values()), len(distinct), len(viol), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for g in counts:
            print('  %-28s cases %5d obs %7d cpu %.1f' % (g, gcases[g], gobs[g], gcpu[g]))
    if viol:
        return 1
    if dead or stuck:
        print('INCONCLUSIVE: monitors never reached in %s; watchdog kills %d' % (dead, stuck))
        return 3
    missing = [m for m in known if not seenknown[m]]
    if missing and not a.only:
        print('note: listed findings not reproduced in this run: %s' % missing)
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
