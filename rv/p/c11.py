"""C11: linked lanes coincide physically."""
from .. import build, doc, nets

NUM = {'quick': 4500, 'thorough': 50000}
SPICE = 'tmcognrN'
RULE = ('random networks with lanes of 3 m: ordinary joints, connecting roads with offsets of up to 3 lanes at either end in all contact '
        'combinations, twins in both directions, rings, any insertion order; oracle: the two border points of every linked lane pair, '
        'computed from the written geometry, coincide; distinct = network shape with at least one link')


def gen(rng, i):
    return {'net': nets.gen(rng, rng.choice([2, 3, 4, 6, 9]), pj=rng.choice([0.3, 0.8, 1.0]), rings=0.2, offsets=0.6, twins=0.4, series=0.1, half=0.1)}


def check(case, mon):
    spec = case['net']
    d = doc.of(build.network(spec))
    seen = doc.audit_strips(mon, d)
    want = sum(len(v) for v in nets.expected_links(spec).values())
    mon.eq(seen, want, 'number of lane links between roads')
    # offset joints themselves: n lanes to the left, seen along the connecting road
    by = nets.index(spec)
    extent = 0.01 * sum(r.length for r in d.roads)
    for s in spec['roads']:
        for key, here in (('pred', 'start'), ('suc', 'end')):
            l = s.get(key)
            if l and l['t'] == 'road' and s.get('jid', -1) != -1:
                a = d.byid[str(s['id'])].pose(here)
                b = d.byid[str(l['id'])].pose(l['c'])
                q = doc.ref.left(a, -3.0 * l.get('off', 0))
                what = 'connecting road %s (%s, offset %s) at road %s %s' % (s['id'], here, l.get('off', 0), l['id'], l['c'])
                doc.same_point(mon, q, b, doc.tol(extent, nets.length(s), nets.length(by[str(l['id'])]), abs(b[0]) * 1e-3, abs(b[1]) * 1e-3), what)
                doc.same_heading(mon, a[2], b[2] + (0 if here != l['c'] else doc.math.pi), what, 3e-6)
                mon.ev('offset_joints' if l.get('off') else 'plain_joints')
    if seen:
        mon.key(nets.shape(spec))
