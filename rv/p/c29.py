"""C29: starting the viewer."""
import os
import pathlib
import shutil
import tempfile
import time
import xml.etree.ElementTree as ET

from .. import build, doc, nets, rich

NUM = {'quick': 500, 'thorough': 33000}
BIG = 0
RULE = ('random networks handed to run_road with random esmini folders (relative, absolute, nested, with blanks, quotes, shell characters, '
        'leading dash) below a scratch directory that holds a stand-in viewer, random densities, twice with the network changed in between, '
        'over an older longer file, sometimes with os.name as on Windows (plain folder names); oracle: the stand-in records its path, arguments, working directory and the file as it is at that moment; '
        'distinct = (folder, density)')
ASSUME = ['POSIX; the stand-in viewer is a shell script inside the scratch directory']

FOLDERS = ['esmini', 'my esmini', 'a;b', '$HOME', 'x&y', "it's", '"q"', '(v1)', '*', 'a`b`', 'back\\slash', 'a|b', '-dash', '~', 'sub/dir', 'sub/my dir/e', '#1', 'a>b', '\u00e5sa',
           'x=y', '!1', '{a,b}', '[z]', '%s', 'two  blanks', './dot', 'esmini/', 'end ', ' lead', 'a / b', 'x//y', 'tab\tin', 'dir.', '.hidden', 'UPPER', 'a,b', "mixed' \"q", 'a$(echo b)c']


def plain(folder):
    return folder.replace('/', '').isalnum() and folder.isascii()


def gen(rng, i):
    n = rng.choice([1, 1, 2])
    return {'net': rich.gen(rng, size=rng.choice([1, 2, 3])), 'folder': rng.choice(FOLDERS), 'abs': rng.random() < 0.4, 'up': rng.random() < 0.15,
            'density': [rng.choice([None, 0, 1, 15, 100, 2.5, 4321, 1e6, nets.rnd(rng.uniform(0, 50)), nets.rnd(nets.logu(rng, 1e-3, 1e5))]) for _ in range(n)], 'old': rng.random() < 0.4,
            'default': rng.random() < 0.15, 'nt': rng.random() < 0.15, 'via': rng.random() < 0.12, 'late': rng.choice(['both', 'junction', 'object', 'lane', 'nothing'])}


def fixed():
    net = {'name': 'n', 'roads': [{'id': 1, 'geoms': [{'k': 'line', 'length': 10}], 'sections': [{'s': 0, 'L': [3], 'R': [3]}]}], 'junctions': []}
    return [{'net': net, 'folder': f, 'abs': a, 'up': False, 'density': [7], 'old': False, 'default': False, 'nt': nt} for f in FOLDERS for a in (True, False)
            for nt in ((False, True) if plain(f) else (False,))]


SCRIPT = '''#!/bin/sh
n=0
while [ -e "$RV_C29_LOG/$n.args" ]; do n=$((n+1)); done
pwd > "$RV_C29_LOG/$n.cwd"
f=
p=
for a in "$@"; do
  if [ "$p" = "--odr" ]; then f="$a"; fi
  p="$a"
done
cp -- "$f" "$RV_C29_LOG/$n.xodr"
for a in "$0" "$@"; do printf '%s\\n' "$a"; done > "$RV_C29_LOG/$n.tmp"
mv "$RV_C29_LOG/$n.tmp" "$RV_C29_LOG/$n.args"
'''


def check(case, mon):
    P = build.pyodrx
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='rv-c29-'))
    old = os.getcwd()
    try:
        work = os.path.join(scratch, 'work')
        logs = os.path.join(scratch, 'log')
        os.mkdir(work)
        os.mkdir(logs)
        folder = 'esmini' if case['default'] else case['folder']
        via = case.get('via') and not case['up'] and not case['default']
        home = os.path.normpath(os.path.join(scratch if case['up'] else work, folder))
        if via:
            # over a symbolic link and back: link/.. is not the folder of the link
            os.makedirs(os.path.join(scratch, 'real', 'deep'))
            os.symlink(os.path.join('..', 'real', 'deep'), os.path.join(work, 'link'))
            home = os.path.normpath(os.path.join(scratch, 'real', folder))
            mon.ev('over_links')
        os.makedirs(os.path.join(home, 'bin'))
        xodr = os.path.join(home, 'resources', 'xodr')
        os.makedirs(xodr)
        viewer = os.path.join(home, 'bin', 'odrviewer')
        nt = case['nt'] and (case['default'] or plain(case['folder']))
        for v in (viewer, viewer + '.exe')[:2 if nt else 1]:
            with open(v, 'w') as f:
                f.write(SCRIPT)
            os.chmod(v, 0o755)
        if case['old']:
            with open(os.path.join(xodr, 'pythonroad.xodr'), 'w') as f:
                f.write('<x/>' + ' ' * 300000 + '<y/>')
        os.environ['RV_C29_LOG'] = logs
        os.chdir(work)
        arg = os.path.join(work if case['abs'] else '', 'link', '..', folder) if via else home if case['abs'] else (os.path.join('..', folder) if case['up'] else folder)
        od = build.network(case['net'])
        for k, dens in enumerate(case['density']):
            args, kw = [od], {}
            if not case['default'] or case['abs'] or case['up']:
                args.append(arg)
            if dens is not None:
                kw['density'] = dens
            if k:
                late = case.get('late', 'both')
                r = next(iter(od.roads.values()))
                if late in ('both', 'junction'):
                    od.add_junction(P.Junction('late %d' % k, 5000 + k))
                if late in ('both', 'object'):
                    r.add_object(P.Object(1, 2, name='late'))
                if late == 'lane':
                    r.lanes.lanesections[0].centerlane.add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.25))
            want = doc.canon(od.get_element(), doc.DATE)
            if nt:
                name, os.name = os.name, 'nt'
                # pathlib (of the code under test, or of its imports) goes on as it is
                windows, pathlib.WindowsPath = pathlib.WindowsPath, pathlib.PosixPath
                mon.ev('as_on_windows')
            try:
                P.run_road(*args, **kw)
            finally:
                if nt:
                    os.name = name
                    pathlib.WindowsPath = windows
            wait = 0
            while not os.path.exists(os.path.join(logs, '%d.args' % k)) and wait < 100:
                time.sleep(0.02)
                wait += 1
            calls = sorted(f for f in os.listdir(logs) if f.endswith('.args'))
            mon.eq(calls, ['%d.args' % q for q in range(k + 1)], 'viewer starts recorded (folder %r)', arg)
            mon.ev('starts')
            with open(os.path.join(logs, '%d.args' % k), encoding='utf-8') as f:
                got = f.read().split('\n')[:-1]
            with open(os.path.join(logs, '%d.cwd' % k), encoding='utf-8') as f:
                cwd = f.read().rstrip('\n')
            started = os.path.realpath(os.path.join(cwd, got[0]))
            mon.that(started == viewer or nt and started == viewer + '.exe', 'viewer started: %r', started)
            mon.eq([a for a in got if a == '--odr'], ['--odr'], 'options --odr')
            named = os.path.realpath(os.path.join(cwd, got[got.index('--odr') + 1]))
            mon.eq(os.path.dirname(named), xodr, 'folder of the file shown')
            mon.eq([a for a in got if a == '--density'], ['--density'], 'options --density')
            mon.close(float(got[got.index('--density') + 1]), 15 if dens is None else dens, 0, 'density')
            for path in (os.path.join(logs, '%d.xodr' % k), named):
                diff = doc.first_difference(want, doc.canon(ET.parse(path).getroot(), doc.DATE))
                mon.that(diff is None, 'the file shown is not the current network: %s', diff)
            mon.eq(os.listdir(xodr), [os.path.basename(named)], 'files in the resources folder')
            mon.eq([f for f in os.listdir(work) if f not in os.path.relpath(home, work).split(os.sep) and not (via and f == 'link')], [], 'other files written')
            mon.key(arg, dens)
    finally:
        os.chdir(old)
        os.environ.pop('RV_C29_LOG', None)
        shutil.rmtree(scratch)
