"""C32: moving, turning, mirroring and extending a network."""
import json
import math
import random

from .. import build, doc, nets, ref, rich, spice
from . import c31

NUM = {'quick': 1800, 'thorough': 24000}
SPICE = spice.NET
RULE = ('random networks of C05 and C10 with all features, and the same network (a) with every given start pose moved by one rigid motion (near '
        'and far, any angle, whole turns), (b) with the anchor (0, 0, 0) written out on the first road instead of none, (c) mirrored: curves bent '
        'the other way, left and right lanes exchanged, offsets negated; oracle: (a) all written poses moved alike and everything else equal, '
        '(b) equal documents, (c) mirrored poses, negated lane links, equal lengths; distinct = (network, motion)')
ASSUME = ['positions agree to 1e-6 m plus 1e-10 of the coordinates and lengths']

POSE = frozenset([('header', 'date'), ('object', 'id'), ('signal', 'id'), ('geometry', 'x'), ('geometry', 'y'), ('geometry', 'hdg')])


def gen(rng, i):
    kind = rng.choice(['move', 'move', 'origin', 'mirror', 'mirror'])
    size = rng.choice([1, 2, 3, 4, 6, 8])
    if kind == 'origin':
        net = rich.gen(rng, size=size, offsets=0.3, anchor='none')
    elif kind == 'move':
        net = rich.gen(rng, size=size, offsets=0.3, anchor=rng.choice(['first', 'one', 'some', 'all']))
    else:
        net = nets.gen(rng, size=size, offsets=0.4, uturn=0.2, pj=0.6, series=0.1, half=0.1)
    m = [rng.choice([0, 1, -1, nets.rnd(rng.uniform(-1, 1) * nets.logu(rng, 1, 1e6))]), rng.choice([0, nets.rnd(rng.uniform(-1, 1) * nets.logu(rng, 1, 1e6))]),
         rng.choice([0, math.pi / 2, math.pi, -math.pi, 2 * math.pi, -4 * math.pi, nets.rnd(rng.uniform(-7, 7)), 1e-9])]
    return {'kind': kind, 'net': net, 'm': m}


def poses(d):
    """ {(road, record number): pose} of all records """
    return dict(((r.id, k), g.pose) for r in d.roads for k, g in enumerate(r.geoms))


def mirrored(spec):
    spec = json.loads(json.dumps(spec))
    for r in spec['roads']:
        r['geoms'] = [ref.mirror_spec(g) for g in r['geoms']]
        if r.get('start'):
            r['start'] = [r['start'][0], -r['start'][1], -r['start'][2]]
        for s in r['sections']:
            s['L'], s['R'] = s['R'], s['L']
        for k in ('pred', 'suc'):
            if r.get(k) and r[k].get('off'):
                r[k]['off'] = -r[k]['off']
    return spec


def check(case, mon):
    spec, kind = case['net'], case['kind']
    a = build.network(spec)
    da = doc.of(a)
    pa = poses(da)
    if kind == 'origin':
        other = json.loads(json.dumps(spec))
        other['roads'][0]['start'] = [0, 0, 0]
        db = doc.of(build.network(other))
        move = lambda p: p
    elif kind == 'move':
        other = json.loads(json.dumps(spec))
        for r in other['roads']:
            if r.get('start'):
                r['start'] = list(ref.compose(case['m'], r['start']))
        db = doc.of(build.network(other))
        move = lambda p: ref.compose(case['m'], p)
    else:
        db = doc.of(build.network(mirrored(spec)))
        move = lambda p: (p[0], -p[1], -p[2])
    pb = poses(db)
    mon.eq(sorted(pb), sorted(pa), 'geometry records')
    size = max([1.0] + [r.length for r in da.roads])
    far = max([0.0] + [max(abs(v) for v in p[:2]) for p in list(pa.values()) + list(pb.values())])
    t = 1e-6 + 1e-10 * (size * max(1, len(da.roads)) + far)
    for k in sorted(pa):
        p = move(pa[k])
        mon.within(ref.dist(p, pb[k]), t, 'record %d of road %s (%s): at %r instead of %r', k[1], k[0], kind, pb[k][:2], p[:2])
        mon.within(abs(ref.wrap(p[2] - pb[k][2])), 1e-9, 'record %d of road %s (%s): heading %r instead of %r', k[1], k[0], kind, pb[k][2], p[2])
        mon.ev('records_' + kind)
    if kind == 'mirror':
        la, lb = doc.lane_links(da), doc.lane_links(db)
        want = dict(((r, s, -l), sorted((tag, str(-int(i))) for tag, i in v)) for (r, s, l), v in la.items())
        mon.eq(sorted(lb), sorted(want), 'lanes of the mirrored network')
        for k in sorted(want):
            mon.eq(lb[k], want[k], 'links of lane %d in section %d of road %s, mirrored' % (k[2], k[1], k[0]))
        for x, y in zip(da.roads, db.roads):
            mon.eq([g.tag for r in (x, y) for g in r.e.iter('geometry')], ['geometry'] * (len(x.geoms) + len(y.geoms)), 'records')
            for g, h in zip(x.geoms, y.geoms):
                mon.close(h.length, g.length, 1e-9 + 1e-9 * g.length, 'length of a mirrored record of road %s' % x.id)
                mon.close(h.s, g.s, 1e-9 + 1e-9 * x.length, 's of a mirrored record of road %s' % x.id)
        for x, y in zip(da.junctions, db.junctions):
            mon.eq(table(y, -1), table(x, 1), 'junction table, mirrored')
    else:
        diff = doc.first_difference(doc.canon(da.root, POSE), doc.canon(db.root, POSE))
        mon.that(diff is None, 'the rest of the document (%s): %s', kind, diff)
    mon.key(kind, nets.shape(spec), case['m'] if kind == 'move' else 0)


def table(j, sgn):
    return sorted((c.get('incomingRoad'), c.get('connectingRoad'), c.get('contactPoint'),
                   sorted((sgn * int(l.get('from')), sgn * int(l.get('to'))) for l in c.findall('laneLink'))) for c in j.findall('connection'))
