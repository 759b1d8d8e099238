"""C10: lane links of connecting roads."""
from .. import build, doc, nets, spice

NUM = {'quick': 4500, 'thorough': 67000}
SPICE = spice.NET + 'wp'
RULE = ('random networks with junctions: connecting roads with either contact point at either end, one-way and asymmetric lanes, lane '
        'offsets, several lane sections on both roads, twins in the same or opposite direction, U-turns, several junctions, junction ids '
        'that also are road ids; oracle: reference links computed from the declared links and offsets; distinct = network shape')


def gen(rng, i):
    return {'net': nets.direct(rng, nets.apart(rng, nets.gen(rng, rng.choice([3, 4, 6, 9]), pj=rng.choice([0.7, 1.0]), rings=0.2, offsets=0.4, twins=0.4, uturn=0.15, series=0.2, half=0.15)))}


def check(case, mon):
    spec = case['net']
    od = build.network(spec)
    d = doc.of(od)
    got, want = doc.lane_links(d), nets.expected_links(spec)
    mon.eq(sorted(got), sorted(want), 'lanes written')
    con = dict((str(r['id']), r) for r in spec['roads'] if r.get('jid', -1) != -1)
    n = 0
    for k in sorted(want):
        if k[0] in con:
            mon.eq(got[k], want[k], 'links of connecting road %s section %d lane %d', *k)
            n += len(want[k])
            # the lane named exists at that joint
            for tag, target in got[k]:
                l = con[k[0]]['pred' if tag == 'predecessor' else 'suc']
                mon.that(int(target) in d.byid[str(l['id'])].section_at(l['c']).byid, 'road %s lane %d: %s lane %s does not exist in road %s', k[0], k[2], tag, target, l['id'])
        else:
            mon.eq(got[k], want[k], 'links of ordinary road %s section %d lane %d', *k)
    mon.ev('connecting_lane_links', n)
    if n:
        mon.key(nets.shape(spec))
