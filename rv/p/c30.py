"""C30: placing, linking and lookup functions used directly."""
import random

from .. import build, doc, nets, ref, spice

NUM = {'quick': 2400, 'thorough': 40000}
SPICE = spice.NET
RULE = ('networks: random networks of C10 placed with adjust_startpoints and linked by hand with create_lane_links over all pairs of roads in random order, '
        'argument order and number of repetitions, before, after or instead of adjusting; joints: one road placed at either contact point of a placed one, as '
        'predecessor or successor, with lane offsets; lookups: get_road_by_id, get_lanes_offset, are_roads_consecutive, Road.get_end_point on random roads; oracle: '
        'the document of adjusting, reference links, reference poses, list model; distinct = (network, calls)')
ASSUME = ['get_lanes_offset compares roads with at least one left lane; ids are looked up in the type they were given in',
          'a lane offset is given by the road that is placed']


def gen(rng, i):
    x = rng.random()
    if x < 0.6:
        net = nets.gen(rng, rng.choice([1, 2, 3, 4, 6, 8]), offsets=0.4, twins=0.4, uturn=0.15, series=0.1, half=0.1)
        return {'kind': 'net', 'net': net, 'seed': rng.randrange(10 ** 9), 'when': rng.choice(['only', 'only', 'before', 'after']), 'times': rng.choice([1, 1, 2, 3])}
    if x < 0.8:
        return {'kind': 'joint', 'a': nets.geoms(rng), 'b': nets.geoms(rng), 'start': nets.pose(rng), 'cp': rng.choice(['start', 'end']), 'as': rng.choice(['predecessor', 'successor']),
                'off': rng.choice([0, 0, 1, -2, 3]), 'bare': rng.choice([0, 1, 2]), 'ordinary': rng.random() < 0.5, 'ids': nets.idpool(rng, 2), 'text': rng.random() < 0.3,
                'jids': rng.choice([[-1, 7], [-1, 7], [-1, -1], [7, 7]])}
    n = nets.many(rng, [0, 1, 2, 5], 40, 0.02)
    ids = nets.idpool(rng, n) if n else []
    secs = [nets.sections(rng) for _ in range(n)]
    for s in [x for y in secs for x in y]:
        for k in 'LR':
            s[k] = [rng.choice([3, 3.5, 2, rng.randint(1, 5)]) for _ in s[k]]
    return {'kind': 'lookup', 'ids': ids, 'names': [str(i) for i in rng.sample(ids, n)], 'ask': rng.choice([0, 1, 'x', 99]), 'secs': secs,
            'geoms': [nets.geoms(rng) for _ in range(n)], 'jids': [rng.choice([-1, -1, i, rng.choice(ids)]) for i in ids], 'seed': rng.randrange(10 ** 9)}


def check(case, mon):
    P = build.pyodrx
    {'net': net, 'joint': joint, 'lookup': lookup}[case['kind']](case, mon, P)


def net(case, mon, P):
    spec = case['net']
    rng = random.Random(case['seed'])
    want = doc.of(build.network(spec))
    od = build.network(spec, adjust=False)
    roads = list(od.roads.values())
    if case['when'] == 'after':
        od.adjust_roads_and_lanes()
    elif case['when'] == 'only' and rng.random() < 0.5:
        od.adjust_startpoints()
        placed(mon, want, doc.of(od), 'adjust_startpoints')
        mon.eq([k for k, v in doc.lane_links(doc.of(od)).items() if v], [], 'lanes linked by adjust_startpoints')
        mon.ev('placed_first')
    elif case['when'] == 'only' and rng.random() < 0.5:
        # one road placed by hand: the one all others are placed from anyway
        pivot = ([od.roads[str(r['id'])] for r in spec['roads'] if r.get('start') is not None] or roads)[0]
        pivot.planview.adjust_geometries()
        mon.ev('pivot_placed_first')
    pairs = [(a, b) for k, a in enumerate(roads) for b in roads[k + 1:]]
    for _ in range(case['times']):
        rng.shuffle(pairs)
        for a, b in pairs:
            if rng.random() < 0.5:
                a, b = b, a
            P.create_lane_links(a, b)
            mon.ev('pairs')
    if case['when'] == 'before':
        od.adjust_roads_and_lanes()
    else:
        od.adjust_startpoints()
    got = doc.of(od)
    placed(mon, want, got, case['when'])
    a, b, c = doc.lane_links(want), doc.lane_links(got), nets.expected_links(spec)
    mon.eq(sorted(b), sorted(a), 'lanes')
    for k in sorted(a):
        mon.eq(b[k], c[k], 'links of lane %d in section %d of road %s, linked by hand (%s)', k[2], k[1], k[0], case['when'])
        mon.eq(b[k], a[k], 'links of lane %d in section %d of road %s, linked by hand (%s), against adjusting', k[2], k[1], k[0], case['when'])
    # roads that are not linked to each other
    x, y = [P.create_straight_road(k, n_lanes=2) for k in ('free1', 'free2')]
    P.create_lane_links(x, roads[0])
    P.create_lane_links(roads[-1], x)
    P.create_lane_links(x, y)
    for r in (x, y):
        mon.eq([len(l.links.get_element()) for l in r.lanes.lanesections[0].leftlanes + r.lanes.lanesections[0].rightlanes], [0] * 4, 'links of a road that is linked to nothing')
    mon.eq(doc.lane_links(doc.of(od)), b, 'links after linking with a foreign road')
    mon.key('net', nets.shape(spec), case['when'], case['times'])


def placed(mon, want, got, what):
    mon.eq([r.id for r in got.roads], [r.id for r in want.roads], 'roads')
    for a, b in zip(want.roads, got.roads):
        mon.eq([g.pose + (g.s, g.length) for g in b.geoms], [g.pose + (g.s, g.length) for g in a.geoms], 'geometry of road %s (%s)' % (a.id, what))


def joint(case, mon, P):
    """ adjust_road_wrt_neighbour """
    ids = case['ids']
    jids = case.get('jids', [-1, 7])
    a = build.road({'id': ids[0], 'jid': jids[0], 'geoms': case['a'], 'start': case['start'], 'sections': [{'s': 0, 'L': [3], 'R': [3]}]})
    off = case['off']
    key = {'predecessor': 'pred', 'successor': 'suc'}[case['as']]
    spec = {'id': ids[1], 'geoms': case['b'], 'sections': [{'s': 0, 'L': [3], 'R': [3]}], 'jid': jids[1], key: {'t': 'road', 'id': ids[0], 'c': case['cp'], 'off': off}}
    if off == 0 and case['bare']:
        # the road itself declares nothing, or something else
        del spec[key]
        if case['ordinary'] and jids[0] == -1:
            del spec['jid']
        if case['bare'] > 1:
            spec['suc' if key == 'pred' else 'pred'] = {'t': 'road', 'id': 'somewhere', 'c': 'start'}
        mon.ev('undeclared')
    b = build.road(spec)
    od = P.OpenDrive('n')
    od.add_road(a)
    od.add_road(b)
    a.planview.adjust_geometries()
    one, two = (str(ids[1]), str(ids[0])) if case['text'] else (ids[1], ids[0])
    od.adjust_road_wrt_neighbour(one, two, build.CP[case['cp']], case['as'])
    d = doc.of(od)
    ra, rb = d.roads
    p = ra.pose(case['cp'])
    here = 'start' if case['as'] == 'predecessor' else 'end'
    q = rb.pose(here)
    if case['cp'] == here:
        p = ref.flip(p)
    want = ref.left(p, 3.0 * off)
    t = 2e-6 + 2e-7 * max(g.length for g in ra.geoms + rb.geoms) + 1e-9 * (abs(p[0]) + abs(p[1]))
    mon.within(ref.dist(q, want), t, 'road placed at the %s of its %s with offset %d: %r instead of %r', case['cp'], case['as'], off, q[:2], want[:2])
    doc.same_heading(mon, q[2], p[2], 'road placed at the %s of its %s' % (case['cp'], case['as']))
    doc.audit_chain(mon, rb)
    doc.same_point(mon, b.get_end_point(), rb.pose('end'), t, 'end point of the road')
    mon.eq(tuple(a.get_end_point()), tuple(a.planview.get_end_point()), 'end points of road and plan view')
    mon.ev('joints_%s_%s' % (case['cp'], case['as']))
    if off:
        mon.ev('lane_offset_of_%s_road' % ('an_ordinary' if jids[1] == -1 else 'a_connecting'))
    mon.key('joint', case['cp'], case['as'], off, [g['k'] for g in case['a']], [g['k'] for g in case['b']])


def lookup(case, mon, P):
    rng = random.Random(case['seed'])
    roads = [build.road({'id': i, 'geoms': g, 'sections': s, 'name': n, 'jid': j})
             for i, g, s, n, j in zip(case['ids'], case['geoms'], case['secs'], case['names'], case['jids'])]
    for r in roads:
        if rng.random() < 0.5:
            r.planview.adjust_geometries()
    kept = list(roads)
    for i, r in zip(case['ids'], kept):
        mon.that(P.get_road_by_id(roads, i) is r, 'get_road_by_id %r', i)
        # an equal id that is another object
        other = ''.join(list(i)) if isinstance(i, str) else int(str(i))
        mon.that(P.get_road_by_id(roads, other) is r, 'get_road_by_id %r (another object)', i)
        mon.ev('found')
    if str(case['ask']) not in [str(i) for i in case['ids']]:
        mon.that(P.get_road_by_id(roads, case['ask']) is None, 'get_road_by_id of the missing id %r', case['ask'])
    mon.that(len(roads) == len(kept) and all(x is y for x, y in zip(roads, kept)), 'the list searched has changed')
    for _ in range(6):
        if not kept:
            break
        k, q = rng.randrange(len(kept)), rng.randrange(len(kept))
        for cp in ('start', 'end'):
            s, o = case['secs'][k][-1 if cp == 'end' else 0], case['secs'][q][0]
            call = lambda: P.get_lanes_offset(kept[k], kept[q], build.CP[cp])
            if (len(s['L']), len(s['R'])) != (len(o['L']), len(o['R'])):
                mon.raises(P.NotSameAmountOfLanesError, call, 'get_lanes_offset of unequal lanes')
            elif s['L']:
                mon.eq(tuple(call()), (len(s['L']), s['L'][0]), 'get_lanes_offset at the %s', cp)
    for n in range(2):
        a, b = build.road({'id': 'a', 'geoms': [{'k': 'line', 'length': 1}], 'sections': [{'s': 0, 'L': [], 'R': []}]}), build.road(
            {'id': 5, 'geoms': [{'k': 'line', 'length': 1}], 'sections': [{'s': 0, 'L': [], 'R': []}]})
        mon.eq((P.are_roads_consecutive(a, b), P.are_roads_consecutive(b, a)), (False, False), 'consecutive without links')
        cs, cp = rng.choice(['start', 'end']), rng.choice(['start', 'end'])
        a.add_successor(P.ElementType.road, rng.choice([5, '5']), build.CP[cs])
        mon.eq((P.are_roads_consecutive(a, b), P.are_roads_consecutive(b, a)), (False, False), 'consecutive with one link')
        b.add_predecessor(P.ElementType.road, 'a', build.CP[cp])
        mon.eq((P.are_roads_consecutive(a, b), P.are_roads_consecutive(b, a)), (cs == 'start' and cp == 'end', False), 'consecutive, contact points %s and %s', cs, cp)
    mon.key('lookup', case['ids'], [len(s) for s in case['secs']])
