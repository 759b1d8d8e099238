"""C18: roadside objects."""
import math

from .. import build, doc, nets, ref, rich

NUM = {'quick': 4500, 'thorough': 170000}
SPICE = 'tmcsgnrN'
RULE = ('random adjusted roads (any shapes; start or end anchored, placed by linked roads at one or both ends, or a connecting road with lane offsets, 1..4 lane sections, 0..6 lanes per side, unequal widths) with 0..3 other objects, 1..3 '
        'roadside placements with random prototypes (all attributes, own repeats), sides, distances and offsets (the s offset at most the '
        'length of the last section); oracle: the placement computed from the declared lanes; distinct = (lanes, side, offsets)')
ASSUME = ['constant lane widths (the library documents that other width coefficients are not considered)']

FIELDS = ('subtype', 'dynamic', 'zOffset', 'orientation', 'pitch', 'roll', 'width', 'height', 'length', 'radius', 'validLength', 'name', 'type')


def gen(rng, i):
    w = lambda: rng.choice([3, 3.5, 2.25, 0.5, nets.rnd(rng.uniform(0, 6))])
    n = nets.many(rng, [1, 1, 2, 3, 4], 20)
    L = nets.rnd(nets.logu(rng, 5, 2000), 6)
    g = rng.choice([[{'k': 'line', 'length': L}], [{'k': 'line', 'length': L / 2}, {'k': 'arc', 'curvature': 0.01, 'length': L / 2}],
                    [{'k': 'spiral', 'curvstart': 0.001, 'curvend': 0.01, 'length': L}]])
    if rng.random() < 0.4:
        g = nets.geoms(rng)
        L = nets.length({'geoms': g})
    secs = []
    for k in range(n):
        a, b = nets.many(rng, range(7), 20), nets.many(rng, range(7), 20)
        if rng.random() < 0.3:
            a, b = 1, 1
        secs.append({'s': 0 if k == 0 else nets.rnd(L * (k + rng.uniform(0, 0.5)) / n, 6), 'L': [w() for _ in range(a)], 'R': [w() for _ in range(b)], 'C': rng.choice([0, 0, 5])})
    last = L - secs[-1]['s']
    puts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        puts.append({'proto': rich.obj(rng), 'dist': rng.choice([0, 5, 10.5, nets.rnd(rng.uniform(0, 100))]), 'side': rng.choice(['both', 'left', 'right']),
                     'explicit': rng.random() < 0.5, 'sOffset': rng.choice([0, 0, nets.rnd(rng.uniform(0, 0.99) * last, 5)]),
                     'tOffset': rng.choice([0, 0, 1, 2.5, -0.5, nets.rnd(rng.uniform(-3, 10))])})
    return {'road': {'id': 1, 'geoms': g, 'sections': secs, 'objects': [rich.obj(rng) for _ in range(rng.choice([0, 0, 1, 3]))]}, 'puts': puts,
            'anchor': rng.choice(['free', 'start', 'end', 'pred', 'both', 'conn', 'conn']),
            'offs': [rng.choice([0, 1, -1, 3]), rng.choice([0, 2, -1])], 'flip': [rng.random() < 0.3, rng.random() < 0.3], 'again': rng.random() < 0.2}


def check(case, mon):
    P = build.pyodrx
    spec = dict(case['road'])
    if case['anchor'] == 'start':
        spec['start'] = [5, -7, 1.25]
    od = P.OpenDrive('n')
    others = []
    if case['anchor'] in ('pred', 'both', 'end', 'conn'):
        conn = case['anchor'] == 'conn'
        offs, flip = (case.get('offs', (0, 0)), case.get('flip', (0, 0))) if conn else ((0, 0), (0, 0))
        if conn:
            spec['jid'] = 4
        for k, (key, back, sec) in enumerate((('pred', 'suc', case['road']['sections'][0]), ('suc', 'pred', case['road']['sections'][-1]))):
            if case['anchor'] in ('both', 'conn') or (case['anchor'] == 'pred') == (k == 0):
                cp = 'end' if (k == 0) != flip[k] else 'start'
                spec[key] = {'t': 'road', 'id': k + 2, 'c': cp}
                if offs[k]:
                    spec[key]['off'] = offs[k]
                o = {'id': k + 2, 'geoms': [{'k': 'line', 'length': 5}],
                     'sections': [{'s': 0, 'L': [3] * len(sec['R' if flip[k] else 'L']), 'R': [3] * len(sec['L' if flip[k] else 'R'])}]}
                o['suc' if cp == 'end' else 'pred'] = {'t': 'junction', 'id': 4} if conn else {'t': 'road', 'id': 1, 'c': 'start' if k == 0 else 'end'}
                if not others:
                    o['start'] = [3, 4, -1]
                others.append(build.road(o))
    road = build.road(spec)
    od.add_road(road)
    for other in others:
        od.add_road(other)

    def objs():
        return road.get_element().findall('objects/object')
    # not adjusted yet
    before = [doc.canon(x.get_element()) for x in road.objects]
    mon.raises(P.RoadsAndLanesNotAdjusted, lambda: build.roadside(road, case['puts'][0]), 'roadside objects on a road that is not adjusted')
    mon.eq([doc.canon(x.get_element()) for x in road.objects], before, 'objects after the refusal')
    od.adjust_roads_and_lanes()
    total = float(road.get_element().get('length'))
    mon.close(total, nets.length(case['road']), 1e-6 * (1 + total), 'length of the road')
    secs = case['road']['sections']
    for rs in case['puts']:
        old = [doc.canon(o) for o in objs()]
        proto = build.obj(rs['proto'])
        shape = doc.canon(proto.get_element())
        kw = {}
        if rs['sOffset']:
            kw['sOffset'] = rs['sOffset']
        if rs['tOffset']:
            kw['tOffset'] = rs['tOffset']
        if rs['side'] != 'both' or rs['explicit']:
            kw['side'] = P.RoadSide[rs['side']]
        build.call('roadside', road.add_object_roadside, road_object_prototype=proto, repeatDistance=rs['dist'], **kw)
        mon.eq(doc.canon(proto.get_element()), shape, 'the prototype')
        got = objs()
        mon.eq([doc.canon(o) for o in got[:len(old)]], old, 'objects added before')
        new = got[len(old):]
        want = []
        for s in secs:
            for side, sgn in (('left', 1), ('right', -1)):
                if rs['side'] in ('both', side):
                    width = sum(x for x in s['L' if sgn > 0 else 'R'])
                    want.append((s['s'] + rs['sOffset'], sgn * (width + rs['tOffset']), sgn, s is secs[-1]))
        mon.eq(len(new), len(want), 'number of roadside objects')
        pe = proto.get_element()
        left = list(new)
        for s, t, sgn, last in want:
            fit = [e for e in left if abs(float(e.get('s')) - s) < 1e-9 * (1 + s) and abs(float(e.get('t')) - t) < 1e-9 * (1 + abs(t))
                   and abs(ref.wrap(float(e.get('hdg')) - (math.pi if sgn > 0 else 0))) < 1e-9]
            mon.that(fit, 'no object at s=%r t=%r facing %s; there are (s, t, hdg) %s', s, t, 'backwards' if sgn > 0 else 'forwards',
                     [(e.get('s'), e.get('t'), e.get('hdg')) for e in left])
            e = fit[0]
            left.remove(e)
            for a in FIELDS:
                mon.eq(e.get(a), pe.get(a), 'attribute %s copied from the prototype', a)
            reps = e.findall('repeat')
            mon.eq([doc.canon(r) for r in reps[:-1]], [doc.canon(r) for r in pe.findall('repeat')], 'repeats of the prototype')
            mon.that(len(reps) >= 1, 'the roadside object is not repeated')
            r = reps[-1]
            mon.close(float(r.get('s')), s, 1e-9 * (1 + s), 's of the row')
            mon.close(float(r.get('tStart')), t, 1e-9 * (1 + abs(t)), 'tStart of the row')
            mon.close(float(r.get('tEnd')), t, 1e-9 * (1 + abs(t)), 'tEnd of the row')
            mon.close(float(r.get('distance')), rs['dist'], 0, 'distance of the row')
            end = s + float(r.get('length'))
            mon.that(float(r.get('length')) > -1e-9, 'row of length %s', r.get('length'))
            mon.that(end <= total * (1 + 1e-9) + 1e-9, 'the row from s=%r of length %s runs past the end of the road (%r)', s, r.get('length'), total)
            if last:
                mon.close(end, total, 1e-9 * (1 + total), 'end of the row of the last section')
            for a, b in (('zOffsetStart', 'zOffset'), ('zOffsetEnd', 'zOffset'), ('heightStart', 'height'), ('heightEnd', 'height')):
                mon.eq(r.get(a), pe.get(b), '%s of the row', a)
            mon.ev('rows')
        if case['again']:
            od.adjust_roads_and_lanes()
    mon.key([(len(s['L']), len(s['R'])) for s in secs], [(r['side'], r['sOffset'], r['tOffset'], r['dist']) for r in case['puts']])
