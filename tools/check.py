#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]

Exit 0: the property held on everything explored; 1: VIOLATION line printed;
2: the check itself failed."""
import argparse, json, os, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, plans, run, tlc, traces      # noqa: E402

VERIF = build.VERIF


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='mshio-%s-' % a.prop)
    try:
        return check(a, work, t0)
    except (build.BuildError, tlc.ModelError, run.Failed) as e:
        print('ERROR: %s: %s' % (type(e).__name__, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def check(a, work, t0):
    pid = a.prop
    parts = plans.plan(pid)
    ctx = {'work': work, 'tier': a.tier, 'seed': a.seed, 'exes': {}, 'maxfail': 3}

    def model(job):
        p, fam = job
        if p.module != 'MC':
            text = plans.model_cfg(p.consts, a.tier)
        else:
            saves = p.thorough_saves if p.thorough_saves and a.tier == 'thorough' else p.saves
            text = tlc.cfg('MC', tlc.consts([fam], p.modes, saves, p.faults, p.wide, p.validate), list(p.inv) + ['EmitVectors'])
        return tlc.run(work, '%s-%s' % (p.name, fam), text, module=p.module, tier=a.tier, workers=p.workers)

    native = run.make_locale(work) if pid in ('C20',) else None
    jobs = [(p, f) for p in parts for f in p.fams]
    with ThreadPoolExecutor(9) as ex:
        exes = ex.submit(build.build, os.path.join(work, 'build'), plans.variants(pid))
        got = list(ex.map(model, jobs))
        ctx['exes'] = exes.result()
    t1 = time.time()
    recorder = ThreadPoolExecutor(1)
    recorded = recorder.submit(traces.run, pid, ctx) if pid in traces.PROPS else None
    states = sum(m['states'] for m in got)
    trans = sum(m['transitions'] for m in got)
    fails, samples, ncases, nvec, stat, per, known = [], [], 0, 0, {}, {}, {}
    if native is not None:
        stat['native_locale'] = int(native)
    for p in parts:
        mine = [(f, m) for (q, f), m in zip(jobs, got) if q is p]
        items = []
        for f, m in mine:
            if not m['out']:
                raise tlc.ModelError('no vectors from %s/%s' % (p.name, f))
            items += plans.items(p, m['out'], ctx)
        r = run.run_all(ctx, p.fn, items)
        per[p.name] = {'families': {f: m['states'] for f, m in mine}, 'invariants': p.inv, 'vectors': len(items), 'executed': r['cases']}
        ncases += r['cases']
        nvec += len(items)
        fails += r['fail']
        samples += r['samples'][:1]
        for k, v in r['stat'].items():
            stat[k] = stat.get(k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        if len(fails) >= 5:
            break
    if len(fails) < 5:
        ex_items, fn = plans.extra_items(pid, a.tier)
        if ex_items:
            r = run.run_all(ctx, fn, ex_items)
            per['extra'] = {'executed': r['cases']}
            ncases += r['cases']
            fails += r['fail']
    if recorded:
        r = recorded.result()
        per['recorded'] = {k: r[k] for k in ('sessions', 'events', 'states', 'unconfirmed')}
        states += r['states']
        trans += r['transitions']
        ncases += r['sessions']
        fails += r['fail']
    if ncases == 0:
        raise run.Failed('nothing was executed')
    listed = findings(pid)
    for k in sorted(known):
        if k not in listed:
            raise run.Failed('finding %s is not listed' % k)
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, listed[k]))
    rc = report(pid, fails)
    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': ncases,
                       'vectors_from_model': nvec, 'parts': per, 'notes': stat, 'known_findings': known, 'samples': samples[:3]},
          'assumptions': plans.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d states, %d cases executed, %d failures, %.1f s (model and build %.1f s)' % (
        pid, states, ncases, len(fails), time.time() - t0, t1 - t0))
    return rc


def findings(pid):
    r = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for line in f:
            w = line.split(None, 3)
            if line.startswith('finding: ') and w[1] == 'property=' + pid:
                r[w[2]] = w[3].strip()
    return r


def report(pid, fails):
    if not fails:
        return 0
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    for i, f in enumerate(fails[:3]):
        p = os.path.join(d, '%s-%d.json' % (pid, i))
        with open(p, 'w') as h:
            json.dump(dict(f, property=pid), h, indent=1)
        print('  %s: %s' % (f['desc'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1


if __name__ == '__main__':
    sys.exit(main())
