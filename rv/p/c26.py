"""C26: adjusting again, adding roads in between."""
from .. import build, doc, nets, ref, spice

NUM = {'quick': 1400, 'thorough': 20000}
SPICE = spice.NET
BIG = 16
RULE = ('random networks split into 1..5 stages of added roads, adjusted after every stage and again (also by adjust_startpoints); links '
        'declared at once (also to roads of later stages) or only when both roads are there; connected prefixes, or arbitrary ones whose '
        'adjustment is refused and completed later; oracle: second adjustment leaves the document byte-equal, placed roads never move, final '
        'relative poses and lane links equal those of one single adjustment and the reference links (lanes also carry links of their own, made by linkers and by hand); distinct = (shape, split)')


def gen(rng, i):
    mode = rng.choice(['conn', 'conn', 'conn', 'any', 'late'])
    spec = nets.direct(rng, nets.gen(rng, rng.choice([2, 3, 4, 6, 8]), anchor=rng.choice(['none', 'none', 'first', 'one']), offsets=0.3, order=False, series=0.1, half=0.1))
    n = len(spec['roads'])
    adj = dict((k, set()) for k in range(n))
    pos = dict((str(r['id']), k) for k, r in enumerate(spec['roads']))
    for k, r in enumerate(spec['roads']):
        for key in ('pred', 'suc'):
            l = r.get(key)
            if l and l['t'] == 'road':
                o = pos[str(l['id'])]
                adj[k].add(o)
                adj[o].add(k)
    anchors = [k for k, r in enumerate(spec['roads']) if r.get('start')]
    first = anchors[0] if anchors else rng.randrange(n)
    order = [first]
    if mode == 'any':
        rest = [k for k in range(n) if k != first]
        rng.shuffle(rest)
        order += rest
    else:
        while len(order) < n:
            order.append(rng.choice(sorted(set(b for a in order for b in adj[a]) - set(order))))
    cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([0, 1, 1, 2, 3, 4])))) if n > 1 else []
    stages = [order[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    for s in stages:
        if mode != 'any' and rng.random() < 0.5 and s is not stages[0]:
            rng.shuffle(s)
    for r in spec['roads']:
        if len(r['sections']) > 1 and rng.random() < 0.5:
            r['pairs'] = []
            for a, b in zip(r['sections'], r['sections'][1:]):
                A, B = [list(range(-len(x['R']), 0)) + list(range(1, len(x['L']) + 1)) for x in (a, b)]
                pp = [(x, y) for x in A for y in B if rng.random() < rng.choice([0.2, 0.9])]
                rng.shuffle(pp)
                r['pairs'].append([list(p) for p in pp])
            r['as_list'] = rng.random() < 0.3
        if rng.random() < 0.2:
            ids = [(k, lid) for k, s in enumerate(r['sections']) for lid in list(range(-len(s['R']), 0)) + list(range(1, len(s['L']) + 1))]
            r['own'] = [[k, lid, rng.choice(['predecessor', 'successor']), 50 + q] for q in range(rng.choice([1, 2, 6])) for k, lid in rng.sample(ids, min(2, len(ids)))]
    return {'net': spec, 'stages': stages, 'mode': mode, 'twice': [rng.choice([0, 1, 1, 2, 3]) for _ in stages], 'half': rng.random() < 0.3}


def check(case, mon):
    P = build.pyodrx
    spec = case['net']
    roads = [build.road(r, spec.get('num', 'py'), linked=case['mode'] != 'late') for r in spec['roads']]
    for r, s in zip(roads, spec['roads']):
        for k, lid, tag, to in s.get('own', ()):
            build.lane_of(r.lanes.lanesections[k], lid).add_link(tag, to)
    od = P.OpenDrive('n')
    added = []
    placed = set()
    declared = set()
    by = nets.index(spec)
    before = {}
    for stage, twice in zip(case['stages'], case['twice']):
        for k in stage:
            od.add_road(roads[k])
            added.append(k)
        if case['mode'] == 'late':
            have = set(str(spec['roads'][k]['id']) for k in added)
            for k in added:
                r = spec['roads'][k]
                for key, fun in (('pred', roads[k].add_predecessor), ('suc', roads[k].add_successor)):
                    l = r.get(key)
                    if l and (k, key) not in declared and (l['t'] != 'road' or str(l['id']) in have):
                        build.link_one(fun, l)
                        declared.add((k, key))
        # reachability from what is placed
        here = [spec['roads'][k] for k in added]
        sub = dict(spec, roads=[dict(r, start=[0, 0, 0]) if str(r['id']) in placed else r for r in here])
        reach = nets.placeable(sub)
        full = len(reach) == len(added)
        if not full:
            mon.raises(P.UndefinedRoadNetwork, od.adjust_roads_and_lanes, 'adjusting with roads %s not connected' % sorted(set(str(r['id']) for r in here) - reach))
            if twice:
                mon.raises(P.UndefinedRoadNetwork, od.adjust_roads_and_lanes, 'adjusting once more')
            placed = reach
            for k in added:
                if str(spec['roads'][k]['id']) in placed:
                    pv = doc.canon(roads[k].planview.get_element())
                    mon.that(before.setdefault(str(spec['roads'][k]['id']), pv) == pv, 'road %s, placed by an earlier adjustment, has moved', spec['roads'][k]['id'])
            continue
        od.adjust_roads_and_lanes()
        placed = reach
        d = doc.of(od)
        mon.eq([r.id for r in d.roads], [str(r['id']) for r in here], 'roads written')
        now = dict((r.id, doc.canon(r.e.find('planView'))) for r in d.roads)
        for i, v in before.items():
            mon.that(now[i] == v, 'road %s, placed by an earlier adjustment, has moved: %s', i, doc.first_difference(v, now[i]))
            mon.ev('kept_roads')
        before = now
        for r in d.roads:
            mon.eq(len(r.geoms), len(by[r.id]['geoms']), 'geometry records of road %s', r.id)
        want = nets.expected_links(sub if case['mode'] != 'late' else dict(sub, roads=[bare(r, have) for r in sub['roads']]))
        got = doc.lane_links(d)
        for r in sub['roads']:
            for k, lid, tag, to in r.get('own', ()):
                want[(str(r['id']), k, lid)].append((tag, str(to)))
        for k in sorted(want):
            want[k].sort()
            mon.eq(got.get(k), want[k], 'links of road %s section %d lane %d', *k)
        c = doc.canon(d.root, doc.DATE)
        for t in range(twice):
            (od.adjust_startpoints if case['half'] and t % 2 else od.adjust_roads_and_lanes)()
            diff = doc.first_difference(c, doc.canon(doc.of(od).root, doc.DATE))
            mon.that(diff is None, 'adjusting again changed the document: %s', diff)
            mon.ev('adjusted_again')
    # the same as in one adjustment
    one = doc.of(build.network(spec, [k for s in case['stages'] for k in s]))
    d = doc.of(od)
    a, b = doc.poses(one), doc.poses(d)
    extent = sum(r.length for r in d.roads)
    i0 = str(spec['roads'][case['stages'][0][0]]['id'])
    for k in a:
        for p, q in zip(b[k], a[k]):
            rp, rq = ref.relative(b[i0][0], p), ref.relative(a[i0][0], q)
            t = 1e-5 + 2e-8 * (abs(rq[0]) + abs(rq[1]) + extent)
            mon.within(max(ref.dist(rp, rq) / t, abs(ref.wrap(rp[2] - rq[2])) / 1e-8), 1, 'road %s is at %r, in a single adjustment at %r (relative to road %s)', k, rp, rq, i0)
    la, lb = doc.lane_links(one), doc.lane_links(d)
    for r in spec['roads']:
        for k, lid, tag, to in r.get('own', ()):
            la[(str(r['id']), k, lid)] = sorted(la[(str(r['id']), k, lid)] + [(tag, str(to))])
    mon.eq(lb, la, 'lane links compared to a single adjustment')
    if len(case['stages']) > 1 or any(case['twice']):
        mon.key(nets.shape(spec), case['stages'], case['mode'])


def bare(r, have):
    r = dict(r)
    for key in ('pred', 'suc'):
        l = r.get(key)
        if l and l['t'] == 'road' and str(l['id']) not in have:
            del r[key]
    return r
