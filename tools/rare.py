#!/usr/bin/env python3
"""Mutants that show only under a rare condition (development tool; no check uses it).

rare.py gen N SEED FILE.. > list    N random ones per file (with RARE_WIDE=1: conditions on unrelated features): a mutant of tools/mutate.py guarded by a condition on an argument, an attribute or the number of calls
rare.py hits LIST OUT N             keeps those whose condition is true at some time in a quick run of the checks of the file (all conditions in one copy); the others go to OUT.never
rare.py tests LIST OUT              keeps those that pass the repository's tests
rare.py checks LIST OUT N               runs the checks on each; a result says whether a check caught it and whether its condition was ever true
Works in /tmp/cm; /tmp/cm/verif has to be a copy of /verif.
"""
import ast, hashlib, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
W = '/tmp/cm'
HELP = '''_RARE = {}
def _rare(f):
    try:
        r = bool(f())
    except Exception:
        return False
    if r and not _RARE.get('hit'):
        _RARE['hit'] = 1
        try:
            import os
            os.close(os.open('/tmp/cm/hit/%s', os.O_CREAT | os.O_WRONLY))
        except OSError:
            pass
    return r
def _calls(x):
    _RARE[x] = _RARE.get(x, 0) + 1
    return _RARE[x]
'''
CONDS = ['%s > 7', '%s < 0', '%s == 0', 'abs(%s) > 300', '%s != int(%s)', '0 < abs(%s) < 1e-2', 'isinstance(%s, str)', '%s is None', 'len(%s) > 6', 'len(%s) == 0', 'len(%s) == 2',
         'not str(%s).isascii()', "type(%s).__module__ == 'numpy'", "' ' in str(%s)", "%s.name == 'end'", "%s.name == 'start'", "type(%s) is int", '%s', 'not %s', '1 < %s < 2', '%s == 3']


def place_names(tree, line):
    """ names usable at a line: arguments, and attributes of self """
    res, cls = [], None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno:
            res += [a.arg for a in n.args.args if a.arg != 'self']
        if isinstance(n, ast.ClassDef) and n.lineno <= line <= n.end_lineno:
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    res.append('self.' + x.attr)
    return sorted(set(res))


ROADS = ['road1', 'road2', 'main_road', 'connecting', 'road', 'pre_road', 'suc_road', 'neighbour', 'jr', 'tmp_junc', 'roads[0]', 'roads[-1]', 'roads[i]', 'roads[j]', 'self',
         'self.roads[k]', 'self.roads[results[r][0]]', 'self.roads[results[r][1]]', 'self.roads[r]', 'self.roads[str(neighbour_id)]', 'list(self.roads.values())[0]', 'list(self.roads.values())[-1]']
ROAD = ['%s.rule', '%s.name', '%s.objects', '%s.signals', '%s.planview.fixed', '%s.lane_offset_pred', '%s.lane_offset_suc', '%s._neighbor_added', 'len(%s.lanes.lanesections) > 1',
        'len(%s.lanes.lanesections) > 2', '%s.lanes.lanesections[0].centerlane.roadmark', '%s.road_type == 0', 'isinstance(%s.id, str)', '%s.planview.present_s > 300', '%s.planview.present_s < 5',
        "type(%s.planview._raw_geometries[0]).__name__ == 'Spiral'", "type(%s.planview._raw_geometries[-1]).__name__ == 'ParamPoly3'", 'len(%s.planview._raw_geometries) > 2',
        '%s.predecessor is None', '%s.successor is None', "%s.predecessor.element_type.name == 'junction'", "%s.successor.contact_point.name == 'end'", "%s.predecessor.contact_point.name == 'start'",
        'not %s.lanes.lanesections[0].leftlanes', 'not %s.lanes.lanesections[-1].rightlanes', '%s.links.links[0].link_type == "neighbor"', '%s.links.links[0].link_type == "successor"',
        'any(l.roadmark for l in %s.lanes.lanesections[-1].rightlanes)', 'len(set(l.lane_type for l in %s.lanes.lanesections[0].leftlanes)) > 1', '%s.planview.adjusted', 'len(%s.objects) > 2',
        '%s.lanes.lanesections[0].leftlanes[0].links.links', '%s.planview.h_start < 0', '%s.planview.h_start > 7', '%s.planview.x_start > 1000', '%s.planview.y_end < 0', '%s.lanes.lanesections[-1].s > 20']
LANES = ['lane', 'pre_lane', 'suc_lane', 'leftlane', 'rightlane', 'l', 'self', 'link.predecessor', 'link.successor', 'self.leftlanes[0]', 'self.rightlanes[-1]', 'self.centerlane']
LANE = ["%s.lane_type.name == 'none'", "%s.lane_type.name == 'driving'", '%s.roadmark', '%s.a == 0', '%s.soffset', '%s.b', '%s.c < 0', '%s.lane_id > 3', '%s.lane_id < -3', '%s.links.links', 'len(%s.links.links) > 1',
        "%s.roadmark.marking_type.name == 'broken'", '%s.roadmark._line', '%s.roadmark.color.name == "white"']
OTHER = {'OpenDrive': ['self.junctions', 'len(self.junctions) > 1', 'len(self.roads) > 4', 'len(self.roads) == 1', 'any(r.objects for r in self.roads.values())', 'any(r.signals for r in self.roads.values())', "' ' in self.name",
                       'any(r.road_type != -1 for r in self.roads.values())', 'all(r.planview.fixed for r in self.roads.values())', 'sum(r.planview.fixed for r in self.roads.values()) > 1', 'any(isinstance(k, int) for k in [r.id for r in self.roads.values()])'],
         'Object': ['self._repeats', 'len(self._repeats) > 1', 'self.name', 'self.radius', 'self.height', 'self.id', 'self.zOffset', 'self.hdg', 'self.validLength', "self.dynamic.name == 'yes'", "self.object_type.name == 'tree'"],
         'Signal': ['self.name', 'self.value', 'self.unit', 'self.id', 'self.height', "self.dynamic.name == 'yes'", "self.orientation.name == 'negative'", 'self.hOffset', 'self.width'],
         'Junction': ['len(self.connections) > 2', 'self.connections[0].links', 'self.connections[-1].id is None', "self.connections[0].contact_point.name == 'end'", 'isinstance(self.connections[0].incoming_road, str)'],
         'Connection': ['len(self.links) > 2', 'not self.links', 'self.links[0][0] < 0', "self.contact_point.name == 'end'", 'isinstance(self.id, str)'],
         'LaneSection': ['len(self.leftlanes) > len(self.rightlanes)', 'not self.leftlanes', 'not self.rightlanes', 'self.s > 0', 'self.centerlane.a', 'self.centerlane.roadmark', 'len(self.rightlanes) == 2'],
         'PlanView': ['self.fixed', 'self._overridden_headings', 'len(self._raw_geometries) > 2', "type(self._raw_geometries[0]).__name__ == 'Arc'", "type(self._raw_geometries[-1]).__name__ == 'Spiral'", 'self.present_h > 7', 'self.present_h < -7',
                      'self.present_s > 300', 'abs(self.present_x) > 1e4', "[type(g).__name__ for g in self._raw_geometries][:2] == ['Line', 'Line']", 'len(set(map(id, self._raw_geometries))) < len(self._raw_geometries)'],
         'RoadMark': ['self._line', "self.color.name == 'standard'", 'self.laneChange', "self.marking_weight.name == 'bold'", 'self.width == 0', 'self.soffset', 'self.rule', "self.marking_type.name == 'solid'"]}


def features(tree, line):
    """ conditions on other things than what a statement works with """
    res, args, cls = [], set(), None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            if isinstance(n, ast.ClassDef):
                cls = n.name
            else:
                args |= set(x.id for x in ast.walk(n) if isinstance(x, ast.Name)) | set(a.arg for a in n.args.args)
    for names, conds, owner in ((ROADS, ROAD, 'Road'), (LANES, LANE, 'Lane')):
        for v in names:
            root = v.replace('list(', '').split('.')[0].split('[')[0]
            if v == 'self' and cls != owner or v.startswith(('self.roads', 'list(self.roads')) and cls != 'OpenDrive' or root not in args:
                continue
            if v.startswith(('self.left', 'self.right', 'self.center')) and cls != 'LaneSection':
                continue
            res += [c.replace('%s', v) for c in conds]
    return res + OTHER.get(cls, [])


WIDE = os.environ.get('RARE_WIDE')


def gen(n, seed, files):
    rng = random.Random(seed)
    for f in files:
        src = mutate.read(f)
        tree = ast.parse(src)
        g = mutate.Gen(f, src)
        for c in tree.body:
            g.visit(c)
        ms = g.out
        got = 0
        tries = 0
        while got < n and tries < n * 30:
            tries += 1
            m = rng.choice(ms)
            names = place_names(tree, m['line'])
            old = src[m['a']:m['b']]
            if not names or '\n' in old:
                continue
            cs = []
            fs = features(tree, m['line']) if WIDE else []
            if WIDE and not fs:
                continue
            for _ in range(rng.choice([1, 1, 2])):
                if fs:
                    c = rng.choice(fs)
                    cs.append('not (%s)' % c if rng.random() < 0.15 else c)
                elif rng.random() < 0.12:
                    cs.append(rng.choice(['_calls("%d") > 50' % tries, '_calls(id(self)) > 2', '_calls("%d") %% 7 == 0' % tries]))
                else:
                    v = rng.choice(names)
                    c = rng.choice(CONDS)
                    cs.append(c.replace('%s', v))
            cond = ' and '.join(cs)
            if m['what'].startswith('delete'):
                new = 'if not _rare(lambda: %s): %s' % (cond, old)
            elif m['what'].startswith('return'):
                new = 'return None if _rare(lambda: %s) else (%s)' % (cond, old[len('return'):].strip())
            else:
                new = '(%s if _rare(lambda: %s) else %s)' % (m['new'], cond, old)
            s = src[:m['a']] + new + src[m['b']:]
            try:
                ast.parse(s)
            except SyntaxError:
                continue
            mid = hashlib.md5((f + str(m['a']) + new).encode()).hexdigest()[:10]
            print(json.dumps({'id': mid, 'file': f, 'line': m['line'], 'a': m['a'], 'b': m['b'], 'new': new, 'what': m['what'], 'cond': cond}))
            got += 1


def place(m, d):
    shutil.copytree(mutate.BASE, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
    src = mutate.read(m['file'])
    with open(d + '/pyodrx/' + m['file'], 'w', encoding='utf-8', newline='') as f:
        f.write(HELP % m['id'] + src[:m['a']] + m['new'] + src[m['b']:])


def hits(lst, out, n):
    """ one copy per file with all the conditions in it, each in front of the statement of its mutant """
    ms = [json.loads(l) for l in open(lst)]
    shutil.rmtree(W + '/hits', ignore_errors=True)
    os.makedirs(W + '/hits')
    for f in sorted(set(m['file'] for m in ms)):
        d, v = W + '/h', W + '/hv'
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree(mutate.BASE, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
        src = mutate.read(f)
        tree = ast.parse(src)
        lines = src.split('\n')
        at = {}
        stmts = [n for n in ast.walk(tree) if isinstance(n, ast.stmt)]
        for m in ms:
            if m['file'] == f:
                line = src.count('\n', 0, m['a']) + 1
                if not any(n.lineno <= line <= n.end_lineno and not isinstance(n, (ast.FunctionDef, ast.ClassDef)) for n in stmts):
                    continue  # a default in a head
                inner = max((n for n in stmts if n.lineno <= line <= n.end_lineno and not isinstance(n, (ast.FunctionDef, ast.ClassDef))), key=lambda n: n.lineno)
                while lines[inner.lineno - 1].lstrip().startswith('elif'):
                    inner = max((n for n in stmts if n.lineno < inner.lineno <= n.end_lineno and isinstance(n, ast.If)), key=lambda n: n.lineno)
                at.setdefault(inner.lineno, []).append(m)
        for l in sorted(at, reverse=True):
            ind = lines[l - 1][:len(lines[l - 1]) - len(lines[l - 1].lstrip())]
            lines[l - 1:l - 1] = [ind + "_rare(lambda: %s, '%s')" % (m['cond'], m['id']) for m in at[l]]
        src = '\n'.join(lines)
        ast.parse(src)
        help = """import os as _os
_RARE = {}
def _rare(f, x):
    if x not in _RARE:
        try:
            r = bool(f())
        except Exception:
            r = False
        if r:
            _RARE[x] = 1
            try:
                _os.close(_os.open('/tmp/cm/hits/' + x, _os.O_CREAT | _os.O_WRONLY))
            except OSError:
                pass
    return False
def _calls(x):
    _RARE[x] = _RARE.get(x, 0) + 1
    return _RARE[x]
"""
        with open(d + '/pyodrx/' + f, 'w', encoding='utf-8', newline='') as o:
            o.write(help + src)
        os.makedirs(v + '/out')
        os.makedirs(v + '/evidence')
        for p in ORDER[f].split():
            cmd = 'mount --bind %s /repo; mount --bind %s/verif /verif; mount --bind %s/out /verif/out; mount --bind %s/evidence /verif/evidence; timeout 800 bash /verif/run.sh %s quick' % (d, W, v, v, p)
            x = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            print(f, p, x.returncode, x.stdout.strip().split('\n')[-1][:150], len(os.listdir(W + '/hits')), flush=True)
    got = set(os.listdir(W + '/hits'))
    for name, keep in ((out, True), (out + '.never', False)):
        with open(name, 'w') as o:
            for m in ms:
                if (m['id'] in got) == keep:
                    o.write(json.dumps(m) + '\n')


def tests(lst, out):
    ms = [json.loads(l) for l in open(lst)]

    def one(m):
        d = W + '/t' + m['id']
        try:
            place(m, d)
            p = subprocess.run(['timeout', '60', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
            return p.returncode == 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, ms))
    with open(out, 'w') as f:
        for m, r in zip(ms, res):
            if r:
                f.write(json.dumps(m) + '\n')
    print(len(ms), sum(res))


ORDER = {'geometry.py': 'C01 C02 C04 C03 C05 C14 C32 C24 C33 C22 C18 C26 C30 C16',
         'opendrive.py': 'C21 C05 C18 C11 C07 C26 C19 C30 C22 C17 C28 C32 C06 C31 C15 C16 C25',
         'links.py': 'C21 C09 C10 C13 C12 C27 C30 C26 C22 C31 C28 C16',
         'lane.py': 'C20 C08 C27 C10 C28 C24 C25 C33 C16',
         'signals_objects.py': 'C19 C17 C18 C28 C25 C33 C16',
         'generators.py': 'C24 C14 C12 C30 C22 C25 C33 C20 C31',
         'helpers.py': 'C15 C29 C35 C34 C23 C28', 'enumerations.py': 'C23'}


def checks(lst, out, n):
    ms = [json.loads(l) for l in open(lst)]
    done = set()
    if os.path.exists(out):
        done = set(json.loads(l)['id'] for l in open(out))
    os.makedirs(W + '/hit', exist_ok=True)

    def one(m):
        if m['id'] in done:
            return
        d, v = W + '/c' + m['id'], W + '/v' + m['id']
        res = {}
        hit = W + '/hit/' + m['id']
        if os.path.exists(hit):
            os.unlink(hit)
        try:
            place(m, d)
            os.makedirs(v + '/out')
            os.makedirs(v + '/evidence')
            for p in ORDER[m['file']].split():
                cmd = 'mount --bind %s /repo; mount --bind %s/verif /verif; mount --bind %s/out /verif/out; mount --bind %s/evidence /verif/evidence; timeout 600 bash /verif/run.sh %s quick' % (d, W, v, v, p)
                x = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                res[p] = x.returncode
                if x.returncode == 1:
                    m['msg'] = x.stdout.strip().split('\n')[0][:160]
                    break
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(v, ignore_errors=True)
        m['res'] = res
        m['caught'] = 1 in res.values()
        m['hit'] = os.path.exists(hit)
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, ms))


if __name__ == '__main__':
    {'gen': lambda: gen(int(sys.argv[2]), sys.argv[3], sys.argv[4:]), 'tests': lambda: tests(*sys.argv[2:4]),
     'hits': lambda: hits(sys.argv[2], sys.argv[3], 8),
     'checks': lambda: checks(sys.argv[2], sys.argv[3], int(sys.argv[4]))}[sys.argv[1]]()
