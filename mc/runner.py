"""Runs the exhaustive exploration that decides one property.

    ./check <ID> [--tier quick|thorough] [--family NAME] [--jobs N]
    ./check replay <file>
"""
import argparse
import collections
import concurrent.futures as cf
from concurrent.futures.process import BrokenProcessPool
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import build as builder

VERIF = builder.VERIF
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
CASE_TIMEOUT = {'quick': 240, 'thorough': 1500}
# once there is a violation, an exploration lasting this long is cut short
GIVE_UP = {'quick': 300, 'thorough': 6000}
FAILFAST = bool(os.environ.get('PYDSM_FAILFAST'))


def _setup(src, quiet=True):
    """Put the freshly built tree first on the path (worker initializer)."""
    if src not in sys.path:
        sys.path.insert(0, src)
    import pydsm
    f = os.path.abspath(pydsm.__file__)
    if not f.startswith(os.path.abspath(src) + os.sep):
        raise RuntimeError('wrong pydsm imported: %s' % f)
    if quiet:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)


def _load(prop):
    return importlib.import_module('mc.props.' + prop.lower())


def _work(prop, family, case, timeout):
    from . import core
    mod = _load(prop)
    return core.run_case(prop, family, mod.FAMILIES[family][1], case,
                         timeout)


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    body = line.split(' ', 2)[2]
                    key, _, what = body.partition(' ## ')
                    out[key[len('key='):]] = what
    return out


def run(prop, tier, only=None, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    src = builder.build()
    t_build = time.time() - t0
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    _setup(src, quiet=False)
    mod = _load(prop)
    todo = []
    for fam, (cases, fn) in mod.FAMILIES.items():
        if only and fam != only:
            continue
        n = 0
        for case in cases(tier):
            todo.append((fam, case))
            n += 1
        if n == 0:
            raise RuntimeError('family %s has no cases' % fam)
    total = {'states': 0, 'transitions': 0, 'traces': 0, 'checks': 0}
    fams = {}
    outcomes, samples, violations = set(), {}, []
    timeout = CASE_TIMEOUT[tier]
    stopped = False
    pending = list(enumerate(todo))
    attempts = {}
    while pending:
        broken = []
        with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_setup,
                                    initargs=(src,)) as ex:
            futs = {ex.submit(_work, prop, fam, case, timeout): (i, fam, case)
                    for i, (fam, case) in pending}
            for fut in cf.as_completed(futs):
                i, fam, case = futs[fut]
                try:
                    r = fut.result()
                except BrokenProcessPool:
                    broken.append((i, (fam, case)))
                    continue
                f = fams.setdefault(fam, {'cases': 0, 'states': 0,
                                          'transitions': 0, 'traces': 0})
                f['cases'] += 1
                for k in total:
                    total[k] += r[k]
                    if k in f:
                        f[k] += r[k]
                outcomes.update(r['outcomes'])
                if r['samples'] and len(samples.setdefault(fam, [])) < 2:
                    samples[fam] += r['samples'][:1]
                violations += r['violations']
                if violations and (
                        FAILFAST or time.time()-t0 > GIVE_UP[tier]):
                    # enough is known: report it well within the time limit
                    known = known_findings(prop)
                    if any(v['key'] not in known for v in violations):
                        stopped = True
                        for p in list((ex._processes or {}).values()):
                            p.kill()
                        ex.shutdown(wait=False, cancel_futures=True)
                        break
        if stopped or not broken:
            break
        # A worker died: find the culprits by running what is left one by one
        pending = []
        for i, (fam, case) in sorted(broken):
            p = cf.ProcessPoolExecutor(1, mp_context=ctx, initializer=_setup,
                                       initargs=(src,))
            try:
                r = p.submit(_work, prop, fam, case, timeout).result()
                for k in total:
                    total[k] += r[k]
                violations += r['violations']
            except BrokenProcessPool:
                attempts[i] = 1
                violations.append({
                    'key': '%s|crash|%s' % (fam, json.dumps(case,
                                                            sort_keys=True)),
                    'name': 'crash', 'family': fam, 'case': case,
                    'info': {'error': 'the interpreter died'}})
            finally:
                p.shutdown()
            if len(violations) > 20:
                break
    known = known_findings(prop)
    seen_known, new = {}, []
    for v in violations:
        if v['key'] in known:
            seen_known[v['key']] = v
        else:
            new.append(v)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    os.makedirs(EVID, exist_ok=True)
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking',
          'coverage': {
              'states': total['states'],
              'transitions': total['transitions'],
              'traces_validated_against_impl': total['traces'],
              'evaluations': total['checks'],
              'distinct_outcomes': len(outcomes),
              'families': fams,
              'samples': [{'family': f, 'case': s}
                          for f in sorted(samples) for s in samples[f]][:12],
              'rule': getattr(mod, 'BOUNDS', ''),
              'exhaustive': not stopped,
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'known_findings_seen': len(seen_known),
          'build_s': round(t_build, 2),
          'wall_s': round(wall, 2),
          'violations': len(new)}
    if only is None:
        tmp = os.path.join(EVID, '.%s.%d' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(tmp, os.path.join(EVID, prop + '.json'))
    print('%s %s: %d cases, %d states, %d transitions, %d traces, %d '
          'evaluations, %d outcomes, %d violations, %.1f s'
          % (prop, tier, len(todo), total['states'], total['transitions'],
             total['traces'], total['checks'], len(outcomes), len(new), wall))
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        new.sort(key=lambda v: (len(json.dumps(v['case'])), v['key']))
        uniq = list({v['key']: v for v in reversed(new)}.values())[::-1]
        kinds = collections.Counter(
            '%s/%s' % (v['family'], v['name']) for v in uniq)
        print('  ' + ', '.join('%s: %d' % k for k in kinds.most_common(12)))
        for v in uniq[:10]:
            h = hashlib.md5(v['key'].encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, '%s-%s.json' % (prop, h))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, tier=tier,
                               how='./check replay ' + path), f, indent=1)
            print('  %s/%s %s %s' % (v['family'], v['name'],
                                     json.dumps(v['case'])[:300],
                                     json.dumps(v['info'])[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    _setup(builder.build(), quiet=False)
    r = _work(v['property'], v['family'], v['case'], 1500)
    for x in r['violations']:
        print(json.dumps(x, indent=1))
    if r['violations']:
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 1
    print('not reproduced on this tree')
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--family')
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    return run(a.prop, a.tier, a.family, a.jobs)


if __name__ == '__main__':
    sys.exit(main())
