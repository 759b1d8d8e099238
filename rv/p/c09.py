"""C09: lane links of consecutive ordinary roads."""
from .. import build, doc, nets, spice

NUM = {'quick': 4500, 'thorough': 70000}
SPICE = spice.NET + 'wp'
RULE = ('random networks of ordinary roads (chains, trees, rings incl. two roads, all contact combinations, junctions in a third of them), '
        '0..12 lanes per side, 1..3 lane sections with differing counts, mixed id types, any insertion order; a fifth of them with a lane '
        'count made unequal at one joint; oracle: reference links computed from the declared road links; distinct = network shape')


def fixed():
    res = []
    one = {'s': 0, 'L': [3], 'R': [3]}
    two = {'s': 5, 'L': [3, 3], 'R': [3]}
    for ids in ((1, 2, 3), ('a', 'b', 'c'), (0, -1 + 3, 10 ** 9)):
        roads = []
        for k, i in enumerate(ids):
            r = {'id': i, 'geoms': [{'k': 'line', 'length': 10}], 'sections': [dict(two, s=0), dict(one, s=5)] if k % 2 else [dict(one), dict(two, s=5)]}
            if k:
                r['pred'] = {'t': 'road', 'id': ids[k - 1], 'c': 'end'}
            if k < 2:
                r['suc'] = {'t': 'road', 'id': ids[k + 1], 'c': 'start'}
            roads.append(r)
        for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
            res.append({'net': {'name': 'n', 'roads': [roads[k] for k in order], 'junctions': []}})
    return res


def gen(rng, i):
    spec = nets.gen(rng, rng.choice([2, 3, 4, 6, 9]), pj=rng.choice([0, 0, 0.4]), rings=0.35)
    if rng.random() < 0.2:
        cand = [r for r in spec['roads'] if r.get('jid', -1) == -1 and r.get('suc', {}).get('t') == 'road' and r['suc']['c'] == 'start']
        if cand:
            r = rng.choice(cand)
            o = nets.index(spec)[str(r['suc']['id'])]
            sec = rng.choice([r['sections'][-1], o['sections'][0]])
            side = rng.choice('LR')
            if sec[side] and rng.random() < 0.5:
                sec[side].pop()
            else:
                sec[side].append(3)
    return {'net': spec}


def check(case, mon):
    spec = case['net']
    od = build.network(spec, adjust=False)
    bad = nets.unequal_joint(spec)
    if bad:
        mon.raises(build.pyodrx.NotSameAmountOfLanesError, od.adjust_roads_and_lanes, 'lane counts differ between roads %s and %s' % bad)
        mon.ev('unequal_refused')
        mon.key(nets.shape(spec), 'refused')
        return
    od.adjust_roads_and_lanes()
    d = doc.of(od)
    got, want = doc.lane_links(d), nets.expected_links(spec)
    ordi = set(str(r['id']) for r in spec['roads'] if r.get('jid', -1) == -1)
    mon.eq(sorted(got), sorted(want), 'lanes written')
    links = 0
    for k in sorted(want):
        if k[0] in ordi:
            mon.eq(got[k], want[k], 'links of road %s section %d lane %d', *k)
            links += len(want[k])
    mon.ev('lane_links', links)
    # reciprocity read from the document alone
    for r in d.roads:
        if r.id not in ordi:
            continue
        l = r.roadlink('successor')
        if l is None or l['contactPoint'] != 'start' or l['elementId'] not in ordi:
            continue
        o = d.byid[l['elementId']]
        back = o.roadlink('predecessor')
        if back is None or back['elementId'] != r.id:
            continue
        for ln in r.sections[-1].lanes:
            for t in ln.to('successor'):
                mon.that(t in o.sections[0].byid and o.sections[0].byid[t].to('predecessor') == [ln.id], 'lane %d of road %s -> lane %d of road %s is not answered', ln.id, r.id, t, o.id)
    if links:
        mon.key(nets.shape(spec))
