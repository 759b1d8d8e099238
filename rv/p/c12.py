"""C12: the junction table agrees with the lane links."""
from .. import build, doc, nets, spice

NUM = {'quick': 4500, 'thorough': 70000}
SPICE = spice.NET + 'wp'
RULE = ('random networks with junctions made by create_junction over connecting roads with any contacts, offsets, one-way or asymmetric '
        'lanes, several sections, U-turns; oracle: per connecting road and end one connection (incoming road, connecting road, contact point) '
        'whose lane links equal, as a set, the lane links written on the connecting road itself after adjusting; distinct = network shape')


def gen(rng, i):
    return {'net': nets.gen(rng, rng.choice([3, 4, 6, 9]), pj=rng.choice([0.7, 1.0]), rings=0.25, offsets=0.4, twins=0.4, uturn=0.15),
            'late': rng.random() < 0.5, 'subset': rng.random() < 0.3}


def check(case, mon):
    spec = case['net']
    od = build.network(dict(spec, junctions=[]), adjust=False)
    if case['late']:
        od.adjust_roads_and_lanes()
    byid = od.roads
    made = []
    for j in spec['junctions']:
        arms = [byid[str(i)] for i in j['arms']]
        if case['subset']:
            arms = [byid[str(r['id'])] for r in spec['roads'] if r.get('jid', -1) == -1]
        jn = build.pyodrx.create_junction([byid[str(i)] for i in j['cons']], j['id'], arms)
        od.add_junction(jn)
    if not case['late']:
        od.adjust_roads_and_lanes()
    d = doc.of(od)
    mon.eq([e.get('id') for e in d.junctions], [str(j['id']) for j in spec['junctions']], 'junctions written')
    links = 0
    by = nets.index(spec)
    for j, e in zip(spec['junctions'], d.junctions):
        table = {}
        for c in e.findall('connection'):
            k = (c.get('incomingRoad'), c.get('connectingRoad'), c.get('contactPoint'))
            mon.that(k not in table, 'junction %s: connection %s twice', j['id'], k)
            table[k] = [(l.get('from'), l.get('to')) for l in c.findall('laneLink')]
        ids = [c.get('id') for c in e.findall('connection')]
        mon.eq(len(set(ids)), len(ids), 'distinct connection ids of junction %s', j['id'])
        want = {}
        for cid in j['cons']:
            r = d.byid[str(cid)]
            s = by[str(cid)]
            for key, tag, here in (('pred', 'predecessor', 'start'), ('suc', 'successor', 'end')):
                l = s[key]
                pairs = []
                for ln in r.section_at(here).lanes:
                    if ln.id == 0:
                        continue
                    t = ln.to(tag)
                    mon.eq(len(t), 1, '%s links of lane %d of connecting road %s', tag, ln.id, cid)
                    pairs.append((str(t[0]), str(ln.id)))
                want[(str(l['id']), str(cid), here)] = pairs
        mon.eq(sorted(table), sorted(want), 'connections of junction %s', j['id'])
        for k in want:
            mon.eq(sorted(table[k]), sorted(want[k]), 'lane links of connection %s of junction %s', k, j['id'])
            links += len(want[k])
            mon.ev('connections')
    mon.ev('table_links', links)
    if links:
        mon.key(nets.shape(spec), case['late'])
