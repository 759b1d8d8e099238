"""C13: connections and their ids."""
from .. import build, doc, nets

NUM = {'quick': 12000, 'thorough': 250000}
RULE = ('random histories (up to 70 steps) over 1..3 junctions: connections with explicit (int or str, small numbers, so that they collide with the automatic '
        'ones on purpose) or automatic ids, lane links added before and after the connection is, the document asked for in between; in three '
        'of four histories explicit ids are never given twice nor after an automatic one took them; oracle: list model of the declared connections; distinct = history')
ASSUME = ['two connections given the same explicit id keep it as given (the property is about automatic ids)']


def gen(rng, i):
    nj = rng.choice([1, 1, 2, 3])
    ops = []
    n = nets.many(rng, [0, 1, 2, 4, 8, 14], 200, 0) if rng.random() < 0.97 else rng.randint(15, 70)
    for _ in range(n):
        r = rng.random()
        j = rng.randrange(nj)
        if r < 0.12:
            ops.append(['look', j])
        elif r < 0.3:
            ops.append(['late', j, rng.randrange(100), rng.randint(-4, 4), rng.randint(-4, 4)])
        else:
            cid = None if rng.random() < 0.6 else rng.choice([rng.randint(0, n // 2 + 3), str(rng.randint(0, n // 2 + 3)), 'c%d' % rng.randint(0, 3), -1, 10 ** 9])
            ops.append(['add', j, cid, rng.choice([rng.randint(0, 9), 'r1', -5]), rng.choice([rng.randint(100, 109), 'k']), rng.choice(['start', 'end']),
                        [[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(nets.many(rng, [0, 1, 2, 6] if rng.random() < 0.98 else [30], 100, 0))]])
    return {'nj': nj, 'ops': ops, 'ids': rng.sample([0, 1, 2, 77, 'j'], nj), 'names': [rng.choice(['', 'a', 'my junction', 'x<&>']) for _ in range(nj)]}


def check(case, mon):
    P = build.pyodrx
    od = P.OpenDrive('n')
    pv = P.PlanView()
    pv.add_geometry(P.Line(1))
    ls = P.Lanes()
    ls.add_lanesection(P.LaneSection(0, P.Lane()))
    od.add_road(P.Road(1, pv, ls))
    od.adjust_roads_and_lanes()
    js = [P.Junction(n, i) for n, i in zip(case['names'], case['ids'])]
    for j in js:
        od.add_junction(j)
    model = [[] for _ in js]
    for op in case['ops']:
        if op[0] == 'look':
            js[op[1]].get_element()
            od.get_element()
        elif op[0] == 'late':
            m = model[op[1]]
            if m:
                c = m[op[2] % len(m)]
                c['obj'].add_lanelink(op[3], op[4])
                c['links'].append((str(op[3]), str(op[4])))
        else:
            _, j, cid, inc, con, cp, links = op
            if cid is not None and len(case['ops']) % 4 and str(cid) in [str(c['obj'].id) for c in model[j]]:
                cid = None
            c = build.connection({'inc': inc, 'con': con, 'cp': cp, 'id': cid, 'links': links})
            js[j].add_connection(c)
            model[j].append({'obj': c, 'id': cid, 'inc': str(inc), 'con': str(con), 'cp': cp, 'links': [(str(a), str(b)) for a, b in links]})
    root = doc.of(od).root
    got = root.findall('junction')
    mon.eq([(e.get('name'), e.get('id')) for e in got], [(n, str(i)) for n, i in zip(case['names'], case['ids'])], 'junctions')
    for e, m in zip(got, model):
        cs = e.findall('connection')
        mon.eq([(c.get('incomingRoad'), c.get('connectingRoad'), c.get('contactPoint')) for c in cs],
               [(c['inc'], c['con'], c['cp']) for c in m], 'connections of junction %s', e.get('id'))
        ids = [c.get('id') for c in cs]
        for k, (c, d) in enumerate(zip(m, cs)):
            if c['id'] is not None:
                mon.eq(ids[k], str(c['id']), 'id given to connection %d', k)
                mon.ev('explicit_ids')
            else:
                mon.that(ids[k] not in ids[:k], 'connection %d: automatic id %s is used already (%s)', k, ids[k], ids)
                mon.that(ids[k] not in (None, '', 'None'), 'connection %d has no id', k)
                mon.ev('automatic_ids')
            mon.eq([(l.get('from'), l.get('to')) for l in d.findall('laneLink')], c['links'], 'lane links of connection %d', k)
    if any(model):
        mon.key([o[:3] for o in case['ops']])
