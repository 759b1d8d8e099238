import importlib
import json
import os
import subprocess
import sys
import time

from . import core

LIMIT = {'quick': 240, 'thorough': 660}
WORKERS = {'quick': 8, 'thorough': 8}


def known(pid):
    """ listed findings of this property: [(text the violation has to contain, description)] """
    res = []
    path = os.path.join(core.ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    key, _, desc = line.split(' ', 2)[2].strip().partition(' :: ')
                    res.append((key, desc))
    return res


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(args) > 1 and args[1] in LIMIT:
        tier = args[1]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    import pyodrx
    if not os.path.realpath(pyodrx.__file__).startswith('/repo/'):
        print('pyodrx is imported from %s, not /repo' % pyodrx.__file__)
        return 2
    mod = importlib.import_module('rv.p.' + pid.lower())
    if '--replay' in args:
        with open(args[args.index('--replay') + 1], encoding='utf-8') as f:
            case = json.load(f)['case']
        import signal
        signal.signal(signal.SIGVTALRM, core._alarm)
        msg = core.run_case(mod, case, core.Monitor())
        print('replay: %s' % (msg or 'held'))
        return 1 if msg else 0

    t0 = time.time()
    sub = '--sub' in args         # second configuration of a thorough run
    n = int(mod.NUM[tier] * float(os.environ.get('RV_SCALE') or 1))      # RV_SCALE: development only
    tot = core.explore(mod, pid, seed, n, WORKERS[tier], LIMIT[tier])
    second = None
    if tier == 'thorough' and not sub and os.path.exists('/opt/veriftools/pyvenv/bin/python3'):
        env = dict(os.environ, VERIF_SEED=str(seed + 1000))
        p = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-m', 'rv.main', pid, 'quick', '--sub'], env=env, cwd=core.ROOT,
                           stdout=subprocess.PIPE, universal_newlines=True)
        try:
            second = json.loads(p.stdout.strip().splitlines()[-1])
            tot['viol'] += second.pop('viol')
        except (ValueError, IndexError):
            second = {'error': p.stdout[-500:], 'rc': p.returncode}
            tot['broken'] += 1
    if sub:
        print(json.dumps({'interpreter': sys.version.split()[0] + ' ' + sys.implementation.name, 'evaluations': tot['evals'],
                          'distinct_nontrivial': len(tot['keys']), 'viol': tot['viol'][:3]}))
        return 0

    findings = known(pid)
    new, listed = [], {}
    for v in tot['viol']:
        for key, desc in findings:
            if key in v['what']:
                listed.setdefault(key, desc)
                break
        else:
            new.append(v)
    for key, desc in listed.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, desc or key))

    rc = 0
    if new:
        d = os.path.join(core.ROOT, 'out', 'replays')
        os.makedirs(d, exist_ok=True)
        for k, v in enumerate(new[:3]):
            path = os.path.join(d, '%s-%s-%d.json' % (pid, tier, k))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(v, property=pid, seed=seed, tier=tier), f, indent=1)
            print('  ' + v['what'][:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif tot['broken']:
        print('inconclusive: %d workers broke' % tot['broken'])
        rc = 2
    elif tot['done'] < min(tot['jobs'], max(3, tot['jobs'] // 10)) or not tot['keys'] or not tot['events'].get('assertions'):
        print('inconclusive: too little was observed (%d of %d cases, %d distinct)' % (tot['done'], tot['jobs'], len(tot['keys'])))
        rc = 2
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': tot['evals'], 'distinct_nontrivial': len(tot['keys']), 'rule': mod.RULE,
                       'samples': tot['samples'][:3], 'observed_events': dict(sorted(tot['events'].items())),
                       'cases_planned': tot['jobs'], 'interpreter': sys.implementation.name + ' ' + sys.version.split()[0]},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(wall, 2), 'violations': len(new)}
    if tot['used']:
        # how close the observed deviations came to the tolerances: share of the tolerance, deviation
        ev['coverage']['tolerance_used'] = dict((k, ['%.2g' % x for x in v]) for k, v in sorted(tot['used'].items(), key=lambda kv: -kv[1][0])[:12])
    if getattr(mod, 'EXHAUSTIVE', False):
        ev['coverage']['exhaustive'] = tot['done'] == tot['jobs']
    if second is not None:
        ev['coverage']['second_interpreter'] = second
    os.makedirs(os.path.join(core.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(core.ROOT, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d assertions, %d violations, %.1f s' % (
        pid, tier, seed, tot['evals'], len(tot['keys']), tot['events'].get('assertions', 0), len(new), wall))
    return rc


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
