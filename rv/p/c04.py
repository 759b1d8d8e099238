"""C04: plan views are continuous chains."""
import math

from .. import build, doc, nets, ref, spice

NUM = {'quick': 4500, 'thorough': 120000}
SPICE = spice.NET
RULE = ('random sequences of 1..6 elements anchored by an explicit start pose, at the origin, by set_start_point, from their end, with '
        'explicit headings, or by their links inside random networks (all contact combinations); oracle: the written records integrated by '
        'the reference integrator form one chain, s = running sum, road length = total, reported start/end points = those of the chain; '
        'distinct = (anchor, element kinds) resp. network shape')


def gen(rng, i):
    how = rng.choice(['start', 'set', 'end', 'end', 'headings', 'net', 'net', 'road'])
    if how == 'net':
        return {'how': how, 'net': nets.gen(rng, rng.choice([2, 3, 4, 6]))}
    n = nets.many(rng, [1, 2, 2, 3, 4, 6], 40)
    gs = nets.repeated(rng, [nets.elem(rng, wild=rng.random() < 0.2) for _ in range(n)], 0.2)
    case = {'how': how, 'geoms': gs, 'pose': nets.pose(rng), 'num': rng.choice(['py', 'py', 'np'])}
    if how == 'headings':
        case['headings'] = [nets.rnd(rng.uniform(-7, 7)) if rng.random() < 0.8 else 0 for _ in gs]
        case['anch'] = rng.random() < 0.7
    return case


def _records(mon, rd, spec, headings=None):
    """ the records are exactly the elements given, in order """
    doc.audit_chain(mon, rd, headings=headings, n=len(spec))
    for g, e in zip(rd.geoms, spec):
        r = ref.Elem(e)
        mon.close(g.length, r.length, 1e-7 * r.length, 'length of geometry of road %s' % rd.id)
        mon.eq(g.spec['k'], e['k'], 'kind of geometry of road %s', rd.id)
        if e['k'] == 'arc':
            mon.eq(g.spec['curvature'], e['curvature'], 'curvature written')
        if e['k'] == 'spiral':
            mon.eq((g.spec['curvstart'], g.spec['curvend']), (e['curvstart'], e['curvend']), 'curvatures written')
        if e['k'] == 'pp3':
            mon.eq((g.spec['u'], g.spec['v'], g.spec['prange']), ([float(a) for a in e['u']], [float(a) for a in e['v']], e['prange']), 'polynomial written')


def _ends(mon, rd, pv, road, what):
    t = doc.tight(rd.geoms[-1].length)
    for got, want, name in ((pv.get_start_point(), rd.pose('start'), 'start'), (pv.get_end_point(), rd.pose('end'), 'end'),
                            (road.get_end_point(), rd.pose('end'), 'road end')):
        got = [float(v) for v in got]
        doc.same_point(mon, got, want, t, '%s: reported %s point' % (what, name))
        doc.same_heading(mon, got[2], want[2], '%s: reported %s heading' % (what, name))
    mon.within(abs(float(pv.get_total_length()) - rd.length), 1e-9 * (1 + rd.length), '%s: total length %r, written %r', what, pv.get_total_length(), rd.length)


def check(case, mon):
    pyodrx = build.pyodrx
    how = case['how']
    if how == 'net':
        spec = case['net']
        od = build.network(spec)
        d = doc.of(od)
        mon.eq(len(d.roads), len(spec['roads']), 'roads')
        for r, s in zip(d.roads, spec['roads']):
            _records(mon, r, s['geoms'])
            o = od.roads[str(s['id'])]
            _ends(mon, r, o.planview, o, 'road %s' % r.id)
            mon.ev('roads_in_networks')
        mon.key(nets.shape(spec))
        return
    gs, pose, kind = case['geoms'], case['pose'], case['num']
    hs = case.get('headings')
    if how == 'road':
        # one road with a start pose in a network
        od = pyodrx.OpenDrive('x')
        pv = build.planview({'start': pose, 'geoms': gs}, kind)
    elif how == 'start' or (how == 'headings' and case['anch']):
        pv = build.planview({'start': pose, 'geoms': gs, 'headings': hs}, kind)
    else:
        pv = build.planview({'geoms': gs, 'headings': hs}, kind)
        if how != 'headings':
            pv.set_start_point(pose[0], pose[1], pose[2] + (math.pi if how == 'end' else 0))
    secs = pyodrx.Lanes()
    secs.add_lanesection(pyodrx.LaneSection(0, pyodrx.Lane()))
    road = pyodrx.Road(1, pv, secs)
    if how == 'road':
        od.add_road(road)
        od.adjust_roads_and_lanes()
    elif how == 'end':
        pv.adjust_geometries(True)
    else:
        pv.adjust_geometries()
    rd = doc.DRoad(build.tree(road.get_element()))
    _records(mon, rd, gs, hs)
    _ends(mon, rd, pv, road, how)
    if how == 'end':
        d = doc.tight(*[g.length for g in rd.geoms])
        doc.same_point(mon, rd.pose('end'), pose, d, 'road anchored at its end: the end')
        doc.same_heading(mon, rd.pose('end')[2], pose[2], 'road anchored at its end: the end')
    else:
        at = [0.0, 0.0, 0.0] if how == 'headings' and not case['anch'] else pose
        mon.eq(list(rd.geoms[0].pose[:2]), [float(a) for a in at[:2]], 'start position')
        if hs is None:
            mon.eq(rd.geoms[0].h, float(at[2]), 'start heading')
        else:
            for g, h in zip(rd.geoms, hs):
                mon.eq(g.h, float(h), 'explicit heading')
    mon.ev('anchor_' + how)
    mon.key(how, [g['k'] for g in gs], [nets.sign and (g.get('curvature', 0) > 0, g.get('angle') is not None) for g in gs])
