"""C14: generated junction roads."""
import math

from .. import build, doc, nets, ref, spice

NUM = {'quick': 2100, 'thorough': 43000}
SPICE = spice.NET
RULE = ('random supported crossings (4-way; 3-way T in its three positions; 3-way 120 degrees; one or two of them sharing a road), radius '
        '0.5..200, spiral share 0.02..0.48, 1..6 lanes per side, widths, 1..3 lane sections with other lane counts away from the junction, any '
        'road shapes, anchors, insertion orders, ids and start numbers; a fifth with one lane count made different at the junction; oracle: '
        'one road per pair, lanes counted, document audited for gaps at every end of every connecting road; distinct = (crossing, lanes, shapes)')
ASSUME = ['start curvature 1e-9 of the generator\'s spirals leaves up to about 4e-9 r^2 m at the closing joints; tolerated is 2e-8 r^2 + 2e-6 m']

H = math.pi / 2
SETS = [[0, H, math.pi, 3 * H], [0, H, math.pi, 3 * H], [0, 2 * math.pi / 3, 4 * math.pi / 3], [0, H, 3 * H], [0, H, math.pi], [0, math.pi, 3 * H]]


def gen(rng, i):
    nj = 2 if rng.random() < 0.25 else 1
    js = []
    roads = []
    pool = rng.choice([lambda: rng.sample(range(0, 90), 12), lambda: rng.sample(range(20000, 20100), 12), lambda: ['r%d' % k for k in range(12)]])()
    n = nets.many(rng, [1, 1, 2, 3, 6], 24)
    w = rng.choice([3, 3.5, 2.75, 1, nets.rnd(rng.uniform(0.5, 6))])

    def road(far):
        c = nets.counts(rng)
        k = rng.choice([1, 1, 2, 3])
        secs = [{'s': 0 if j == 0 else nets.rnd(rng.uniform(j, j + .9)), 'L': [w] * n, 'R': [w] * n} for j in range(k)]
        if k > 1:
            s = secs[1 if far == 'end' else 0] if k == 2 else secs[1]
            s['L'], s['R'] = [w] * c[0], [rng.choice([1, 2, w])] * c[1]
        if k == 3 and rng.random() < 0.5 and not far == 'both':
            s = secs[2 if far == 'end' else 0]
            s['L'], s['R'] = [w + 1] * c[1], [w] * c[0]
        roads.append({'id': pool.pop(), 'geoms': nets.geoms(rng), 'sections': secs})
        return len(roads) - 1
    startnum = rng.choice([100, 1000, 91, 12345] if isinstance(pool[0], int) and max(pool) < 100 else [100, 91, 12345, 0, 1, 7])
    for q in range(nj):
        angles = rng.choice(SETS)
        m = len(angles)
        if q == 0:
            # far: the end that does not touch the junction
            mem = [road('start')] + [road('end') for _ in range(m - 1)]
        else:
            mem = [shared] + [road('end') for _ in range(m - 1)]
        sp = rng.choice([None, None, nets.rnd(rng.uniform(0.02, 0.48)), 0.25])
        js.append({'angles': angles, 'mem': mem, 'r': rng.choice([10, 5, 25.5, nets.rnd(nets.logu(rng, 0.5, 200))]), 'sp': sp,
                   'id': rng.choice([1, 0, 5, 77]) + q, 'start': startnum + q * 50})
        shared = mem[rng.randrange(1, m)]
    # the road shared by two junctions has equal sections at both ends
    for q in js[1:]:
        for s in roads[q['mem'][0]]['sections']:
            s['L'], s['R'] = [w] * n, [w] * n
    bad = None
    if rng.random() < 0.2:
        q = 0
        k = rng.randrange(len(js[q]['mem']))
        s = roads[js[q]['mem'][k]]['sections'][-1 if k == 0 else 0]
        side = rng.choice('LR')
        if rng.random() < 0.5 and len(s[side]) > 1:
            s[side].pop()
        else:
            s[side].append(w)
        bad = q
    if rng.random() < 0.3:
        roads[rng.randrange(len(roads))]['start'] = nets.pose(rng)
    # one of the roads stands already before its junction is made
    pre = None
    if bad is None and rng.random() < 0.25:
        pre = next((k for k, r in enumerate(roads) if r.get('start')), None)
        if pre is None:
            pre = rng.randrange(len(roads))
    order = list(range(100))
    rng.shuffle(order)
    return {'roads': roads, 'js': js, 'bad': bad, 'n': n, 'w': w, 'order': order if rng.random() < 0.7 else None, 'neg': rng.random() < 0.3, 'pre': pre}


def check(case, mon):
    P = build.pyodrx
    roads = [build.road(r) for r in case['roads']]
    od = P.OpenDrive('n')
    allr = list(roads)
    made = []
    if case.get('pre') is not None:
        od.add_road(roads[case['pre']])
        od.adjust_roads_and_lanes()
        stood = doc.of(od).roads[0].pose('start')
        mon.ev('roads_placed_before_the_junction')
    for q, j in enumerate(case['js']):
        mem = [roads[k] for k in j['mem']]
        # the documented defaults are left out
        kw = dict((k, v) for k, v, d in (('startnum', j['start'], 100), ('junction', j['id'], 1)) if v != d)
        if j['sp'] is not None:
            kw.update(spiral_part=j['sp'], arc_part=1 - 2 * j['sp'])
        if case['bad'] == q:
            mon.raises(P.NotSameAmountOfLanesError, lambda: build.call('create_junction_roads', roads=mem, angles=list(j['angles']), r=j['r'], **kw), 'roads with different lane counts')
            mon.key('refused', len(mem), case['n'], [len(r['sections']) for r in case['roads']])
            return
        angles = list(j['angles'])
        res = build.call('create_junction_roads', roads=mem, angles=angles, r=j['r'], **kw)
        mon.eq(angles, list(j['angles']), 'the angles passed in')
        m = len(mem)
        mon.eq([r.id for r in res], list(range(j['start'], j['start'] + m * (m - 1) // 2)), 'ids of the junction roads')
        pairs = []
        ids = [str(r['id']) for r in (case['roads'][k] for k in j['mem'])]
        for r in res:
            e = []
            for l in (r.predecessor, r.successor):
                mon.that(l is not None and l.element_type == P.ElementType.road, 'junction road %s is not linked to a road at both ends', r.id)
                k = ids.index(str(l.element_id))
                mon.eq(l.contact_point, P.ContactPoint.end if k == 0 else P.ContactPoint.start, 'contact point of junction road %s at road %s', r.id, ids[k])
                e.append(k)
            pairs.append(tuple(sorted(e)))
        mon.eq(sorted(pairs), [(a, b) for a in range(m) for b in range(a + 1, m)], 'pairs of roads connected')
        mon.ev('junction_roads', len(res))
        allr += res
        made.append((j, mem, res))
    order = [k for k in case['order'] or range(len(allr)) if k < len(allr)]
    for k in order:
        if k != case.get('pre'):
            od.add_road(allr[k])
    for j, mem, res in made:
        od.add_junction(build.call('create_junction', junction_roads=res, id=j['id'], roads=mem))
    od.adjust_roads_and_lanes()
    d = doc.of(od)
    n, w = case['n'], case['w']
    if case.get('pre') is not None:
        mon.eq(d.byid[str(case['roads'][case['pre']]['id'])].pose('start'), stood, 'start of the road placed before')
    for j, mem, res in made:
        ids = [str(case['roads'][k]['id']) for k in j['mem']]
        for k, i in enumerate(ids):
            l = d.byid[i].link.get('successor' if k == 0 else 'predecessor')
            mon.that(l is not None and len(l) == 1 and l[0].get('elementType') == 'junction' and l[0].get('elementId') == str(j['id']),
                     'road %s is not linked to junction %s at its end there: %s', i, j['id'], l)
        for r in res:
            e = d.byid[str(r.id)]
            mon.eq(e.junction, str(j['id']), 'junction of road %s', r.id)
            mon.eq(len(e.sections), 1, 'sections of road %s', r.id)
            mon.eq((sorted(e.sections[0].ids('left')), sorted(e.sections[0].ids('right'))), (list(range(1, n + 1)), list(range(-n, 0))), 'lanes of junction road %s' % r.id)
            for ln in e.sections[0].lanes:
                if ln.id != 0:
                    x = ln.e.find('width')
                    mon.eq([float(x.get(c)) for c in 'abcd'], [float(w), 0.0, 0.0, 0.0], 'width of lane %d of junction road %s', ln.id, r.id)
            for tag, here in (('predecessor', 'start'), ('successor', 'end')):
                l = e.roadlink(tag)
                mon.that(l is not None, 'road %s has no %s', r.id, tag)
                o = d.byid[l['elementId']]
                there = l['contactPoint']
                a, b = e.pose(here), o.pose(there)
                t = 2e-8 * j['r'] ** 2 + 2e-6 + 1e-9 * (abs(a[0]) + abs(a[1])) + 1e-7 * max(g.length for g in o.geoms)
                what = 'gap between the %s of junction road %s and the %s of road %s' % (here, r.id, there, o.id)
                mon.within(ref.dist(a, b), t, '%s: %g m', what, ref.dist(a, b))
                mon.within(abs(ref.wrap(a[2] - b[2] - (0 if here != there else math.pi))), 1e-7 + 1e-8 * j['r'], '%s: headings %r and %r', what, a[2], b[2])
                mon.ev('junction_joints')
            doc.audit_chain(mon, e)
    mon.key([(len(j['angles']), j['angles'][1], j['r'], j['sp']) for j in case['js']], n, w)
