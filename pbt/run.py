"""Entry point: python -m pbt.run <PROPERTY> [quick|thorough] | replay FILE."""
import faulthandler
import importlib
import json
import os
import sys
import time
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIME_LIMIT = {'quick': 840., 'thorough': 4 * 3600.}


def load(pid):
    return importlib.import_module(f'pbt.props.{pid.lower()}').R


def read_known():
    """-> {(property, sub): text} of the recorded, unrepaired findings."""
    known = {}
    try:
        with open(os.path.join(ROOT, 'known-findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    kv = dict(w.split('=', 1) for w in line.split()[1:3])
                    known[(kv['property'], kv['case'])] = line
    except FileNotFoundError:
        pass
    return known


def child(pid, idx, shard, seed, n, path):
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    from pbt import core
    res = core.run_sub(pid, load(pid).subs[idx], seed, n, shard)
    with open(path, 'w') as f:
        json.dump(res, f)
    # no atexit handlers of the parent's libraries in the child
    os._exit(0)


def merge(results):
    """Add up the shards of every sub-check."""
    out = {}
    for i, k in sorted(results):
        r = results[i, k]
        if i not in out:
            out[i] = r
            continue
        o = out[i]
        for key in ('evaluations', 'skipped'):
            o[key] += r[key]
        o['wall'] = round(o['wall'] + r['wall'], 2)
        o['keys'] = sorted(set(o['keys']) | set(r['keys']))
        o['nontrivial'] = len(o['keys'])
        for lb, n in r['labels'].items():
            o['labels'][lb] = o['labels'].get(lb, 0) + n
        o['samples'] += r['samples']
        o['error'] = o['error'] or r['error']
        o['violation'] = o['violation'] or r['violation']
    return list(out.values())


def run_property(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from pbt import core
    core.bootstrap()
    reg = load(pid)
    only = os.environ.get('VERIF_ONLY')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    scratch = os.environ.get('SCRATCH') or '/tmp'
    workers = int(os.environ.get('VERIF_JOBS', '7'))
    # every sub-check runs in several processes with own seeds
    shards = [int(os.environ.get('VERIF_SHARDS', 0)) or
              (6 if tier == 'thorough' or s.weight < 3 else 3)
              for s in reg.subs]
    todo = [(i, k) for i, s in enumerate(reg.subs) for k in range(shards[i])
            if not only or s.name == only]
    todo.sort(key=lambda ik: -reg.subs[ik[0]].weight)
    running, results, failed = {}, {}, []
    ctx = mp.get_context('fork')
    limit = TIME_LIMIT[tier]
    while todo or running:
        while todo and len(running) < workers:
            i, k = key = todo.pop(0)
            s = reg.subs[i]
            n = max(1, int((s.quick if tier == 'quick' else
                            s.thorough / shards[i]) * scale))
            path = os.path.join(scratch, f'res_{pid}_{i}_{k}.json')
            p = ctx.Process(target=child, args=(pid, i, k, seed, n, path))
            p.start()
            running[key] = (p, path)
        for key, (p, path) in list(running.items()):
            i, k = key
            p.join(0.02)
            if p.exitcode is None:
                if time.time() - t0 > limit:
                    p.kill()
                    p.join()
                    failed.append(f'{reg.subs[i].name}: time budget used up')
                    del running[key]
                continue
            if p.exitcode == 0 and os.path.exists(path):
                with open(path) as f:
                    results[key] = json.load(f)
            else:
                failed.append(f'{reg.subs[i].name}: child ended with '
                              f'{p.exitcode}')
            del running[key]

    known = read_known()
    violations, errors, known_hit = [], list(failed), []
    labels, samples, per_sub = {}, [], {}
    ev = nt = sk = 0
    for r in merge(results):
        ev += r['evaluations']
        nt += r['nontrivial']
        sk += r['skipped']
        per_sub[r['sub']] = dict(evaluations=r['evaluations'],
                                 nontrivial=r['nontrivial'],
                                 outside_domain=r['skipped'],
                                 wall_s=r['wall'])
        for k, v in r['labels'].items():
            labels[f"{r['sub']}:{k}"] = v
        for s in r['samples'][:1]:
            samples.append(dict(sub=r['sub'], case=s))
        if r['error']:
            errors.append(f"{r['sub']}: {r['error']}")
        if r['violation']:
            if (pid, r['sub']) in known:
                known_hit.append(known[(pid, r['sub'])])
            else:
                violations.append((r['sub'], r['violation']))

    for line in known_hit:
        print(f"KNOWN-FINDING: property={pid} {line}")
    rdir = os.path.join(ROOT, 'replay')
    for sname, v in violations:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}_{sname}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, sub=sname, case=v['case'],
                           message=v['message'], seed=seed, tier=tier), f,
                      indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {sname}: {v['message'][:600]}")
        print(f"  case: {json.dumps(v['case'])[:800]}")
    wall = round(time.time() - t0, 2)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=reg.rule,
                      samples=samples[:8] or [dict(note='no case ran')],
                      outside_domain=sk, sub_checks=per_sub, labels=labels,
                      errors=errors),
        assumptions=reg.assumptions or
        ['numpy, scipy and the reference models in /verif/pbt are correct'],
        wall_s=wall, violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for e in errors:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
    print(f"{pid} {tier}: {ev} cases, {nt} distinct non-trivial, "
          f"{len(violations)} violations, {len(errors)} errors, {wall} s")
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(dict(per_sub=per_sub, labels=labels), indent=1))
    if violations:
        return 1
    if errors:
        return 2
    return 0


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    from pbt import core
    core.bootstrap()
    sub = [s for s in load(rp['property']).subs if s.name == rp['sub']][0]
    try:
        core.execute(sub, rp['case'], core.T())
    except (core.Violation, core.Hang) as v:
        print(f"VIOLATION property={rp['property']} replay={path}")
        print(f"  {v}")
        return 1
    print('no violation')
    return 0


def main():
    faulthandler.enable()
    args = sys.argv[1:]
    if args and args[0] == 'replay':
        return replay(args[1])
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in TIME_LIMIT:
        tier = 'quick'
    return run_property(args[0], tier)


if __name__ == '__main__':
    sys.exit(main())
