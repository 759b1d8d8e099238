"""C28: structure, attribute types and references of whole documents."""
import os
import runpy
import shutil
import tempfile
import xml.etree.ElementTree as ET

from .. import build, doc, nets, rich, schema

NUM = {'quick': 3000, 'thorough': 37000}
RULE = ('random networks of C05 with all features of the library (every lane, mark, object and signal argument, hostile texts, extreme numbers, '
        'python and numpy numbers, roadside objects, declared section links, automatic junctions), networks with generated roads and '
        'junctions, and the example scripts of the repository; oracle: an automaton of the OpenDRIVE 1.5 grammar (children, order, counts, '
        'attributes, types, literals) and a reference checker over the whole document; distinct = (shape of the network, elements present)')
ASSUME = ['links of the input point at roads and junctions that exist; explicit ids are unique; lane sections are given in ascending s',
          'a junction with connecting roads is added to the network; a junction to which no connection was added stays empty',
          'road neighbours are audited against the form pyodrx writes (elementType, elementId, direction); the missing side is a known finding']

EXAMPLES = ['full_junction', 'highway_example', 'junction_trippel_twoway', 'junction_with_signals', 'lane_number_change_merge',
            'multiple_geometries_one_road', 'multiple_geometries_one_road_with_objects', 'road_merge', 'road_merge_w_lane_merge', 'road_split',
            'two_roads']


def fixed():
    res = [{'kind': 'neighbour'}]
    return res + [{'kind': 'example', 'name': e} for e in EXAMPLES]


def gen(rng, i):
    if i % 12 == 11:
        from . import c14
        while True:
            c = c14.gen(rng, i)
            if c['bad'] is None and len(set(j['id'] for j in c['js'])) == len(c['js']):
                return {'kind': 'generated', 'c14': c}
    if i % 12 == 10:
        return {'kind': 'straight', 'n': rng.choice([1, 1, 2, 3]), 'lanes': [rng.randint(0, 4), rng.randint(0, 4)], 'what': rng.choice(['straight', 'create', 'cloth']),
                'w': rng.choice([3, 3.5, 2]), 'g': nets.geoms(rng), 'num': rng.choice(['py', 'np'])}
    spec = rich.gen(rng, size=rng.choice([None, None, 1, 2]), width=rng.choice([3, 3.5]), offsets=rng.choice([0, 0.3]))
    # the centre lane of a road with objects and unusual numbers
    for r in spec['roads']:
        n = 0
        for k in ('objects', 'signals'):
            for o in r.get(k, ()):
                o.pop('id', None)
                if rng.random() < 0.3:
                    o['id'] = '%s-%s-%d' % (k, r['id'], n)
                    n += 1
        if r.get('roadside'):
            r['roadside']['proto'].pop('id', None)
            r['roadside']['proto'].pop('repeats', None)
    spec['num'] = rng.choice(['py', 'np'])
    for k in range(rng.choice([0, 0, 0, 1, 2])):
        spec['junctions'].insert(rng.randint(0, len(spec['junctions'])), {'id': 'empty%d' % k, 'name': rich.text(rng), 'conns': []})
    return {'kind': 'net', 'net': spec}


def audit(mon, root):
    d = doc.Doc(root)
    schema.grammar(mon, root)
    schema.references(mon, d)
    return d


def check(case, mon):
    P = build.pyodrx
    kind = case['kind']
    if kind == 'example':
        here = os.getcwd()
        tmp = tempfile.mkdtemp(prefix='c28-')
        os.chdir(tmp)
        try:
            runpy.run_path('/repo/examples/%s.py' % case['name'], run_name='__main__')
            files = [f for f in os.listdir(tmp) if f.endswith('.xodr')]
            mon.that(len(files) == 1, 'example %s writes %s', case['name'], files)
            root = ET.parse(files[0]).getroot()
        finally:
            os.chdir(here)
            shutil.rmtree(tmp, ignore_errors=True)
        audit(mon, root)
        mon.ev('examples')
        mon.key('example', case['name'])
        return
    if kind == 'neighbour':
        spec = {'roads': [{'id': k, 'geoms': [{'k': 'line', 'length': 10}], 'start': [0, 5 * k, 0], 'sections': [{'s': 0, 'L': [3], 'R': [3]}]} for k in (0, 1)]}
        spec['roads'][0]['nb'] = [{'t': 'road', 'id': 1, 'dir': 'same'}]
        d = doc.of(build.network(spec))
        audit(mon, d.root)
        mon.key('neighbour')
        schema.strict_neighbours(mon, d.root)
        return
    if kind == 'net':
        od = build.network(case['net'])
    elif kind == 'straight':
        od = P.OpenDrive('n')
        l, r = case['lanes']
        for k in range(case['n']):
            if case['what'] == 'straight':
                x = P.create_straight_road(k, length=build.num(20.5, case['num']), n_lanes=l, lane_offset=case['w'])
            elif case['what'] == 'cloth':
                x = P.create_cloth_arc_cloth(-0.02 if k else 0.02, 0.5, 0.2, k, junction=-1, n_lanes=l)
            else:
                x = P.create_road([build.element(g, case['num']) for g in case['g']], k, left_lanes=l, right_lanes=r)
            if k:
                x.add_predecessor(P.ElementType.road, k - 1, P.ContactPoint.end)
            if k < case['n'] - 1:
                x.add_successor(P.ElementType.road, k + 1, P.ContactPoint.start)
            od.add_road(x)
        od.adjust_roads_and_lanes()
    else:
        c = case['c14']
        roads = [build.road(r) for r in c['roads']]
        od = P.OpenDrive('n')
        allr = list(roads)
        for j in c['js']:
            mem = [roads[k] for k in j['mem']]
            kw = {'startnum': j['start'], 'junction': j['id']}
            if j['sp'] is not None:
                kw.update(spiral_part=j['sp'], arc_part=1 - 2 * j['sp'])
            res = P.create_junction_roads(mem, list(j['angles']), j['r'], **kw)
            allr += res
            od.add_junction(P.create_junction(res, j['id'], mem))
        for x in allr:
            od.add_road(x)
        od.adjust_roads_and_lanes()
    d = audit(mon, doc.of(od).root)
    mon.eq([j.get('id') for j in d.root.iter('junction') if len(j) == 0],
           [j['id'] for j in case['net']['junctions'] if not j.get('auto')] if kind == 'net' else [], 'junctions without connections')
    mon.ev('documents')
    mon.ev('roads', len(d.roads))
    mon.key(kind, [(len(r.geoms), len(r.sections)) for r in d.roads], sorted(set(e.tag for e in d.root.iter())))
