"""Explorer front end: enumerates the cases of one property and runs them all."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def _init():
    sys.path.insert(0, REPO)
    os.environ.setdefault('TQDM_DISABLE', '1')


def _work(arg):
    """Run one case in a worker."""
    prop, idx, case = arg
    from mc.harness import Ctx
    mod = importlib.import_module('mc.checks.' + prop.lower())
    ctx = Ctx(case)
    t = time.time()
    try:
        mod.run(case, ctx)
    except Exception as e:  # the code under test (or its contract with the harness) broke
        ctx.violations.append(dict(label='exception', got=repr(e)[:500],
                                   trace=traceback.format_exc()[-3000:]))
    try:
        import jax
        jax.clear_caches()
    except Exception:
        pass
    return idx, ctx.export(), time.time() - t


def known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring filter on the JSON of a case (debugging)')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--times', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    _init()
    mod = importlib.import_module('mc.checks.' + a.prop.lower())
    if a.replay:
        cases = [json.load(open(a.replay))['case']]
    else:
        cases = list(mod.cases(tier))
    for c in cases:
        c.setdefault('seed', seed)
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    if not cases:
        print('no case to run')
        return 2
    jobs = a.jobs or min(getattr(mod, 'JOBS', 8), len(cases), os.cpu_count() or 8)
    limit = float(os.environ.get('MC_LIMIT', 800 if tier == 'quick' else 6 * 3600))
    todo = [(a.prop, i, c) for i, c in enumerate(cases)]
    results = {}
    ctxm = mp.get_context('spawn')
    pool = ctxm.Pool(jobs, initializer=_init, maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', None))
    try:
        it = pool.imap_unordered(_work, todo, chunksize=1)
        for _ in todo:
            left = limit - (time.time() - t0)
            try:
                i, r, dt = it.next(timeout=max(left, 1))
            except mp.TimeoutError:
                for k in range(len(cases)):
                    if k not in results:
                        results[k] = dict(violations=[dict(label='no termination', got=f'no result after {limit} s')],
                                          states=set(), transitions=0, traces=0, samples=[], counts={})
                break
            results[i] = r
            if a.times:
                print(f'{dt:7.2f}s {json.dumps(cases[i])}', file=sys.stderr)
    finally:
        pool.terminate()
    return report(a, mod, cases, results, tier, seed, t0)


def report(a, mod, cases, results, tier, seed, t0):
    states, transitions, traces, samples, counts, viol = set(), 0, 0, [], {}, []
    for i in sorted(results):
        r = results[i]
        states |= r['states']
        transitions += r['transitions']
        traces += r['traces']
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        if len(samples) < 6 and r['samples'] and (i % max(1, len(cases) // 6) == 0 or len(cases) < 12):
            samples.append(dict(case=cases[i], observed=r['samples'][0]))
        for v in r['violations']:
            viol.append((i, v))
    fresh, listed = [], []
    kn = [k for k in known() if k.get('property') == a.prop]
    for i, v in viol:
        case = {k: x for k, x in cases[i].items() if k != 'seed'}
        hit = [k for k in kn if k['case'] == case and k['label'] == v['label']]
        (listed if hit else fresh).append((i, v, hit))
    if a.replay is None and a.only is None:
        ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking',
                  coverage=dict(states=len(states), transitions=transitions,
                                traces_validated_against_impl=traces, samples=samples or [dict(case=cases[0])],
                                cases=len(cases), cases_completed=len(results), bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
                                exhaustive=len(results) == len(cases), **counts),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []),
                  wall_s=round(time.time() - t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f'{a.prop}: cases={len(results)}/{len(cases)} states={len(states)} transitions={transitions} '
          f'traces={traces} wall={time.time() - t0:.1f}s')
    for k in {json.dumps(h[0]) for _, _, h in listed}:
        k = json.loads(k)
        print(f'KNOWN-FINDING: property={a.prop} {k.get("what", k["label"])}')
    if fresh:
        seen = set()
        for i, v, _ in fresh:
            if len(seen) >= 5 or i in seen:
                continue
            seen.add(i)
            d = os.path.join(ROOT, 'replays', a.prop)
            os.makedirs(d, exist_ok=True)
            blob = json.dumps(dict(property=a.prop, case=cases[i], violations=[x for j, x, _ in fresh if j == i][:5],
                                   replay=f'{ROOT}/run.sh {a.prop} --replay <this file>'), indent=1, default=str)
            p = os.path.join(d, hashlib.sha1(blob.encode()).hexdigest()[:12] + '.json')
            with open(p, 'w') as f:
                f.write(blob)
            print(f'  case {json.dumps(cases[i])}: {json.dumps(v, default=str)[:600]}')
            print(f'VIOLATION property={a.prop} replay={p}')
        print(f'{len(fresh)} violations in {len({i for i, _, _ in fresh})} cases')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
