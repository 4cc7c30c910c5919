"""
python -m mc.run <property> [--tier quick|thorough] [--replay FILE] [--family NAME] [--workers N] [--loud]
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

from mc import build, engine

VERIF = engine.VERIF


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {e['key']: e for e in json.load(f) if e['property'] == prop and e['status'] == 'known'}


def load(prop, root):
    sys.path.insert(0, root)
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        module = importlib.import_module('mc.props.' + prop.lower())
    import pyclustering
    assert os.path.realpath(pyclustering.__file__).startswith(os.path.realpath(root)), pyclustering.__file__
    return module


def replay(prop, module, path):
    with open(path) as f:
        r = json.load(f)
    os.environ['MC_HWC'] = str(r.get('hwc', 2))
    for family in module.families(r['tier']):
        if family.name == r['family']:
            status, payload = engine._run_case(family, r['case'])
            print(status, payload)
            if status == 'violation' and payload[1] not in known_findings(prop):
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            return 0
    print('no such family: ' + r['family'])
    return 2


def confirm(prop, path, limit):
    """Reruns a violation in a fresh process; True when it is seen again."""
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, '-m', 'mc.run', prop, '--replay', path], cwd=VERIF, env=env, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return p.returncode != 0
    except subprocess.TimeoutExpired:
        return True


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--replay')
    a.add_argument('--family')
    a.add_argument('--workers', type=int, default=int(os.environ.get('MC_WORKERS', '0')) or os.cpu_count() or 4)
    a.add_argument('--loud', action='store_true')
    a.add_argument('--deadline', type=float, default=float(os.environ.get('MC_DEADLINE', '0')))
    args = a.parse_args()
    prop = args.prop.upper()
    started = time.time()
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    root = build.ensure()
    module = load(prop, root)
    if args.replay:
        sys.exit(replay(prop, module, args.replay))
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    families = module.families(tier)
    if args.family:
        families = [f for f in families if args.family in f.name]
    known = known_findings(prop)
    limit = args.deadline or (560 if tier == 'quick' else 760)
    results, violations = engine.explore(families, args.workers, started + limit, set(known), quiet=not args.loud)

    # -- violations ---------------------------------------------------------------------------------------------------
    reported = []
    for v in violations[:6]:
        family = families[v['family']] if v['family'] >= 0 else None
        entry = dict(property=prop, tier=tier, family=family.name if family else None, hwc=family.hwc if family else None,
                     case=v['case'], message=v['message'], key=v['key'],
                     command='cd /verif && bin/check %s --replay <this file>' % prop)
        text = json.dumps(entry, indent=1, default=engine.jsonable)
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text)
        seen = sum(confirm(prop, path, (family.hang if family else 60) + 60) for _ in range(2 if not reported else 1))
        entry['reproduced_in_fresh_process'] = seen
        with open(path, 'w') as f:
            json.dump(entry, f, indent=1, default=engine.jsonable)
        if v.get('kind') == 'hang' and not seen:
            print('note: a call that seemed not to return did return when it was repeated: %s' % engine.dumps(v['case']))
            continue
        reported.append((path, v, seen))

    # -- evidence -----------------------------------------------------------------------------------------------------
    stopped = bool(results.pop('stopped', False))
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=module.RULE, samples=[], families={})
    exhaustive = not stopped and not violations
    states = transitions = traces = executions = 0
    hits = {}
    for pos, family in enumerate(families):
        rs = results.get(pos, [])
        h = set()
        o = set()
        for r in rs:
            h |= r['hashes']
            o |= r['outcomes']
            for k, (n, case, message) in r['known'].items():
                e = hits.setdefault(k, [0, case, message])
                e[0] += n
        complete = bool(rs) and all(r['complete'] for r in rs) and len(rs) >= args.workers
        exhaustive = exhaustive and complete
        ev = sum(r['ev'] for r in rs)
        notes = {}
        for r in rs:
            for k, n in r['notes'].items():
                notes[k] = notes.get(k, 0) + n
        fam = dict(evaluations=ev, distinct_nontrivial=len(h), distinct_outcomes=len(o),
                   outside_precondition=sum(r['skipped'] for r in rs), processors_seen_by_core=family.hwc,
                   complete=complete, cpu_s=round(sum(r['wall'] for r in rs), 1))
        if notes:
            fam['notes'] = notes
        for name in ('states', 'transitions', 'executions'):
            n = sum(r[name] for r in rs)
            if n:
                fam[name] = n
        states += sum(r['states'] for r in rs)
        transitions += sum(r['transitions'] for r in rs)
        traces += sum(r['traces'] for r in rs)
        executions += sum(r['executions'] for r in rs)
        cov['families'][family.name] = fam
        cov['evaluations'] += ev
        cov['distinct_nontrivial'] += len(h)
        for r in rs[:1]:
            for case, outcome in r['samples'][:1]:
                cov['samples'].append(dict(family=family.name, case=case, outcome=outcome))
    cov['samples'] = cov['samples'][:12] or [dict(note='nothing was explored')]
    if states or transitions or traces:
        cov['states'] = states
        cov['transitions'] = transitions
        cov['traces_validated_against_impl'] = traces
    if executions:
        cov['executions_of_choice_trees'] = executions
    cov['exhaustive'] = exhaustive
    cov['known_findings_seen'] = {k: dict(cases=n, example=c, message=m) for k, (n, c, m) in hits.items()}
    evidence = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=module.LEVEL,
                    coverage=cov, assumptions=list(module.ASSUMPTIONS), wall_s=round(time.time() - started, 1),
                    violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=engine.jsonable)

    for name, fam in cov['families'].items():
        print('%-44s eval=%-8d nontrivial=%-8d outcomes=%-6d skip=%-6d%s%s cpu=%.1fs %s' %
              (name, fam['evaluations'], fam['distinct_nontrivial'], fam['distinct_outcomes'],
               fam['outside_precondition'], '' if fam['complete'] else ' INCOMPLETE',
               ''.join(' %s=%d' % (k, fam[k]) for k in ('states', 'transitions', 'executions') if k in fam), fam['cpu_s'],
               fam.get('notes', '')))
    print('%s %s: %d evaluations, %d distinct non-trivial, exhaustive=%s, %.1f s' %
          (prop, tier, cov['evaluations'], cov['distinct_nontrivial'], exhaustive, time.time() - started))
    for k, (n, case, message) in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)' % (prop, known[k]['what'], n, engine.dumps(case)[:300]))
    for path, v, seen in reported:
        print('  %s: %s' % (families[v['family']].name if v['family'] >= 0 else '?', v['message'][:1500]))
        print('  case: %s   (seen again in %d fresh processes)' % (engine.dumps(v['case'])[:1500], seen))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    os._exit(1 if reported else 0)


if __name__ == '__main__':
    main()
