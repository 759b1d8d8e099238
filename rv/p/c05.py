"""C05: linked roads meet at the joint."""
from .. import build, doc, nets, spice

NUM = {'quick': 4500, 'thorough': 72000}
SPICE = spice.NET
RULE = ('random connected networks (trees with ordinary links in all four contact combinations and junctions with trees and twins of '
        'connecting roads, exactly closing rings of 1..5 units, U-turns; some ordinary roads name a connecting road directly), mixed ids, random insertion order, anchors none/first/one/some/all; '
        'oracle: the written geometry, integrated by the reference, of both roads of every link meets in position and heading; '
        'distinct = network shape (contacts, membership, lane counts)')


def gen(rng, i):
    anchor = rng.choice(['none', 'none', 'first', 'one', 'some', 'all'])
    return {'net': nets.direct(rng, nets.apart(rng, nets.gen(rng, rng.choice([2, 3, 4, 6, 9]), anchor=anchor, rings=rng.choice([0.2, 0.4]), pj=rng.choice([0.1, 0.5, 0.9]), series=0.1, half=0.1)))}


def check(case, mon):
    spec = case['net']
    od = build.network(spec)
    d = doc.of(od)
    mon.eq(sorted(r.id for r in d.roads), sorted(str(r['id']) for r in spec['roads']), 'roads written')
    for r, s in zip(d.roads, spec['roads']):
        mon.eq(len(r.geoms), len(s['geoms']), 'geometry records of road %s', r.id)
    want = sum(1 for s in spec['roads'] for k in ('pred', 'suc') if s.get(k) and s[k]['t'] == 'road')
    seen = doc.audit_joints(mon, d)
    mon.eq(seen, want, 'joints seen')
    # the reported points agree (what later roads and users see)
    by = nets.index(spec)
    extent = 0.01 * sum(r.length for r in d.roads)
    for s in spec['roads']:
        for key, here in (('pred', 'start'), ('suc', 'end')):
            l = s.get(key)
            if l and l['t'] == 'road':
                a, b = od.roads[str(s['id'])].planview, od.roads[str(l['id'])].planview
                p = a.get_start_point() if here == 'start' else a.get_end_point()
                q = b.get_start_point() if l['c'] == 'start' else b.get_end_point()
                doc.same_point(mon, [float(v) for v in p], [float(v) for v in q], doc.tol(extent, nets.length(s), nets.length(by[str(l['id'])]), abs(p[0]) * 1e-3, abs(p[1]) * 1e-3),
                               'reported points of %s %s and %s %s' % (s['id'], here, l['id'], l['c']))
    if any(r.get('jid', -1) == -1 and r.get(k) and r[k]['t'] == 'road' and by[str(r[k]['id'])].get('jid', -1) != -1 for r in spec['roads'] for k in ('pred', 'suc')):
        mon.ev('ordinary_road_names_connecting_road')
    mon.key(nets.shape(spec))
