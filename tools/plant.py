#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/bugs*.py and confirms each one; no check uses this.

plant.py make [ids]     write + confirm (scratch copy: applies, original lines, tests pass, demo 0 / nonzero)
plant.py run [ids]      run its property's quick check on a patched copy of /repo (mount namespace); prints caught/quiet
plant.py all ID          run every property's quick check
"""
from concurrent.futures import ThreadPoolExecutor
import glob, json, os, re, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, '..', 'seeded')
PRELUDE = open(os.path.join(HERE, 'prelude.py')).read()
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$d/demo.py"
'''


def bugs():
    res = []
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        res += m.BUGS
    ids = [b['id'] for b in res]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def mine():
    """ {(file, line number)} of lines my commits added """
    res = set()
    for f in glob.glob('/repo/pyodrx/*.py'):
        out = sh('git -C /repo blame -s HEAD -- pyodrx/%s' % os.path.basename(f)).stdout
        for l in out.split('\n'):
            m = re.match(r'(\^?)[0-9a-f]+ +(?:\S+ +)?(\d+)\)', l)
            if m and not m.group(1):
                blame = l.split()[0]
                if not is_base(blame):
                    res.add((os.path.basename(f), int(m.group(2))))
    return res


_anc = {}


def is_base(c):
    if c not in _anc:
        _anc[c] = sh('git -C /repo merge-base --is-ancestor %s b7b4fd0' % c).returncode == 0
    return _anc[c]


def make(b, own):
    d = os.path.join(SEED, b['id'])
    W = '/tmp/plant_wt'
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    touched = []
    for f, old, new in b['edits']:
        p = os.path.join(W, 'pyodrx', f)
        s = open(p, encoding='utf-8', newline='').read()
        crlf = '\r\n' in s
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1:
            return 'edit of %s matches %d times' % (f, s.count(old))
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
    diff = sh('git diff', cwd=W).stdout
    orig = 0
    cur = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            cur = os.path.basename(l[6:].strip())
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            if (cur, n) in own:
                return 'changes line %d of %s, which one of my commits added' % (n, cur)
            orig += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    if not orig:
        print('   note: %s only adds lines' % b['id'])
    t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3', cwd=W, env=dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE='1'))
    if ' passed' not in t.stdout or 'failed' in t.stdout or 'error' in t.stdout:
        return 'tests: ' + t.stdout[-300:]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.py', 'w').write(PRELUDE + '\n' + b['demo'].strip('\n') + '\n\ndone()\n')
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'w', newline='').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    c = sh('bash %s/demo.sh' % d, cwd=W)
    if a.returncode != 0 or c.returncode == 0:
        shutil.rmtree(d)
        return 'demo: %d on the tree, %d with the patch\n%s\n%s' % (a.returncode, c.returncode, a.stdout[-600:], c.stdout[-600:])
    b['demo_out'] = c.stdout.strip().split('\n')[-1]
    return None


def run(i, props=None):
    """ in a mount namespace of its own whose /repo is a patched copy, so that several can run at once """
    d = os.path.join(SEED, i)
    if sh('git -C /repo status --short').stdout.strip():
        raise SystemExit('/repo is not clean')
    p = json.load(open(d + '/meta.json'))['property']
    W = '/tmp/plant_run/' + i
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/out')
    os.makedirs(W + '/evidence')
    shutil.copytree('/repo', W + '/repo', symlinks=True, ignore=shutil.ignore_patterns('docs', '__pycache__', '*.lock'))
    res = {}
    try:
        r = sh('git apply %s/patch.diff' % os.path.abspath(d), cwd=W + '/repo')
        if r.returncode:
            return {p: ('patch: ' + r.stdout,)}
        for q in props or [p]:
            x = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo; mount --bind %s/out /verif/out; mount --bind %s/evidence /verif/evidence; bash /verif/run.sh %s quick'"
                   % (W, W, W, q))
            bad = 'VIOLATION property=%s ' % q in x.stdout
            res[q] = ('caught' if x.returncode == 1 and bad else 'quiet' if x.returncode == 0 else 'BROKEN rc=%d' % x.returncode,
                      x.stdout.strip().split('\n')[0][:230])
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return res


if __name__ == '__main__':
    what, ids = sys.argv[1], sys.argv[2:]
    if what == 'make':
        own = mine()
        for b in bugs():
            if ids and b['id'] not in ids or (not ids and os.path.exists(os.path.join(SEED, b['id'], 'meta.json'))):
                continue
            r = make(b, own)
            print(b['id'], 'OK  ' + b['demo_out'] if r is None else 'BAD ' + r, flush=True)
        shutil.rmtree('/tmp/plant_wt', ignore_errors=True)
    elif what == 'run':
        with ThreadPoolExecutor(3) as ex:
            for i, r in zip(ids or sorted(os.listdir(SEED)), ex.map(run, ids or sorted(os.listdir(SEED)))):
                for q, v in r.items():
                    print(i, q, *v, flush=True)
    elif what == 'all':
        allp = ['C%02d' % k for k in range(1, 30)]
        for i in ids:
            print(i, ' '.join('%s:%s' % (q, v[0]) for q, v in run(i, allp).items() if v[0] != 'quiet'), flush=True)
