"""C24: road generators."""
from .. import build, doc, nets, ref

NUM = {'quick': 6000, 'thorough': 130000}
RULE = ('random calls of create_road (single element or list, 0..10 lanes per side, widths, default or own centre mark), create_straight_road '
        'and create_cloth_arc_cloth (left and right turns, start curvatures), two calls in a row sharing their arguments, adjusted at random '
        'poses; oracle: counts, widths, marks, plan view equal to the one added element by element, curvature and turn of the reference line; '
        'distinct = argument tuple')
ASSUME = ['arc and clothoid angles have the same sign; with a negative curvature the turn is to the right']


def gen(rng, i):
    kind = rng.choice(['road', 'road', 'straight', 'cloth', 'cloth'])
    c = {'kind': kind, 'id': rng.choice([0, 1, 77, 'r', 10 ** 6]), 'jid': rng.choice([None, -1, 0, 5, 100]), 'start': rng.choice([None, nets.pose(rng)]),
         'w': rng.choice([None, 3, 3.5, 0.5, nets.rnd(rng.uniform(0.1, 8))])}
    n = lambda: nets.many(rng, [0, 1, 1, 2, 3, rng.randint(0, 10)], 40)
    if kind == 'road':
        g = nets.geoms(rng)
        c.update(geoms=g, single=len(g) == 1 and rng.random() < 0.6, left=rng.choice([None, n(), n()]), right=rng.choice([None, n(), n()]),
                 mark=rng.choice([None, None, 'solid', 'broken', 'solid_solid', 'none']))
    elif kind == 'straight':
        c.update(length=rng.choice([None, 1, 100, nets.rnd(nets.logu(rng, 0.1, 5000))]), n=rng.choice([None, n(), n()]))
    else:
        s = nets.sign(rng)
        c.update(curv=nets.rnd(rng.choice([1, 1, -1]) * nets.logu(rng, 1e-3, 1)), arc=nets.rnd(s * nets.logu(rng, 0.01, rng.choice([3, 3, 20]))), cloth=nets.rnd(s * nets.logu(rng, 0.01, rng.choice([1.5, 1.5, 9]))),
                 cs=rng.choice([None, None, 1e-4, 0, 0.0]), n=rng.choice([None, n(), n()]))
        if c['cs'] and abs(c['curv']) < 3e-3:
            c['cs'] = None
        if c['cs'] and c['curv'] < 0 and rng.random() < 0.5:
            c['cs'] = -c['cs']
    return c


def fixed():
    res = []
    for l in range(4):
        for r in range(4):
            for g in ([{'k': 'line', 'length': 10}], [{'k': 'pp3', 'u': [0, 5, 0, 0], 'v': [0, 0, 1, 0], 'prange': 'normalized'}]):
                res.append({'kind': 'road', 'id': 1, 'jid': None, 'start': None, 'w': 2, 'geoms': g, 'single': bool(l % 2), 'left': l, 'right': r, 'mark': 'broken'})
    return res


def check(case, mon):
    P = build.pyodrx
    k = case['kind']
    kw = {}
    mark = None
    if k == 'road':
        for a, b in (('left', 'left_lanes'), ('right', 'right_lanes'), ('w', 'lane_width'), ('jid', 'road_type')):
            if case[a] is not None:
                kw[b] = case[a]
        if case['mark']:
            mark = P.RoadMark(P.RoadMarkType[case['mark']], 0.15)
            kw['center_road_mark'] = mark
        els = [build.element(g) for g in case['geoms']]
        arg = els[0] if case['single'] else els
        make = lambda rid: build.call('create_road', geometry=arg, id=rid, **kw)
        nl = case['left'] if case['left'] is not None else 1
        nr = case['right'] if case['right'] is not None else 1
        jid = -1 if case['jid'] is None else case['jid']
    else:
        for a, b in (('n', 'n_lanes'), ('w', 'lane_offset'), ('jid', 'junction')):
            if case[a] is not None:
                kw[b] = case[a]
        nl = nr = case['n'] if case['n'] is not None else 1
        if k == 'straight':
            jid = -1 if case['jid'] is None else case['jid']
            if case['length'] is not None:
                kw['length'] = case['length']
            make = lambda rid: build.call('create_straight_road', road_id=rid, **kw)
        else:
            jid = 1 if case['jid'] is None else case['jid']
            if case['cs'] is not None:
                kw['cloth_start'] = case['cs']
            make = lambda rid: build.call('create_cloth_arc_cloth', arc_curv=case['curv'], arc_angle=case['arc'], cloth_angle=case['cloth'], r_id=rid, **kw)
    w = case['w'] if case['w'] is not None else 3
    for rid in (case['id'], 'again'):
        r = make(rid)
        mon.that(r.predecessor is None and r.successor is None, 'the generated road is linked')
        od = P.OpenDrive('n')
        od.add_road(r)
        if case['start']:
            r.planview.set_start_point(*case['start'])
        od.adjust_roads_and_lanes()
        e = doc.of(od).roads[0]
        mon.eq((e.id, e.junction), (str(rid), str(jid)), 'id and junction')
        mon.eq(sum(1 for l in e.e.findall('link') for _ in l), 0, 'links of the generated road')
        mon.eq(len(e.sections), 1, 'lane sections')
        s = e.sections[0]
        mon.eq((sorted(s.ids('left')), sorted(s.ids('right')), s.ids('center')), (list(range(1, nl + 1)), list(range(-nr, 0)), [0]), 'lanes')
        mon.close(s.s, 0, 0, 'start of the section')
        for l in s.lanes:
            ws = [[float(x.get(c)) for c in ('a', 'b', 'c', 'd', 'sOffset')] for x in l.e.findall('width')]
            if l.id:
                mon.eq(ws, [[float(w), 0.0, 0.0, 0.0, 0.0]], 'width of lane %d', l.id)
            mon.eq(l.links, [], 'links of lane %d', l.id)
            if k == 'road':
                mk = l.e.findall('roadMark')
                mon.eq(len(mk), 1, 'road marks of lane %d', l.id)
                if l.id == 0:
                    want = doc.canon(mark.get_element()) if mark else None
                    if want:
                        mon.eq(doc.canon(mk[0]), want, 'centre mark')
                    else:
                        mon.eq(mk[0].get('type'), 'solid', 'default centre mark')
                else:
                    outer = l.id in (nl, -nr)
                    mon.eq(mk[0].get('type'), 'solid' if outer else 'broken', 'mark of lane %d of %d left, %d right', l.id, nl, nr)
        doc.audit_chain(mon, e)
        pose = case['start'] or [0, 0, 0]
        mon.eq(list(e.geoms[0].pose), [float(v) for v in pose], 'start pose')
        if k == 'road':
            pv = P.PlanView()
            for g in case['geoms']:
                pv.add_geometry(build.element(g))
            pv.set_start_point(*pose)
            pv.adjust_geometries()
            diff = doc.first_difference(doc.canon(pv.get_element()), doc.canon(e.e.find('planView')))
            mon.that(diff is None, 'the reference line is not that of the elements given: %s', diff)
        elif k == 'straight':
            mon.eq([g.spec['k'] for g in e.geoms], ['line'], 'reference line')
            mon.close(e.length, case['length'] if case['length'] is not None else 100, 0, 'length')
        else:
            c, a, b = case['curv'], case['arc'], case['cloth']
            sg = 1 if c > 0 and a > 0 else -1
            mon.eq([g.spec['k'] for g in e.geoms], ['spiral', 'arc', 'spiral'], 'reference line')
            g = e.geoms
            cs = abs(case['cs']) if case['cs'] is not None else 1e-9
            near = lambda x, y, what: mon.close(x, y, 1e-12 + 1e-9 * abs(y), what)
            near(g[1].spec['curvature'], sg * abs(c), 'curvature of the arc')
            near(g[0].spec['curvend'], sg * abs(c), 'end curvature of the first clothoid')
            near(g[2].spec['curvstart'], sg * abs(c), 'start curvature of the last clothoid')
            near(abs(g[0].spec['curvstart']), cs, 'start curvature')
            near(abs(g[2].spec['curvend']), cs, 'end curvature')
            near(g[1].elem.delta[2], sg * abs(a), 'turn of the arc')
            for q in (0, 2):
                near(g[q].elem.delta[2], sg * abs(b), 'turn of a clothoid')
        mon.ev(k)
    mon.key(k, nl, nr, w, jid, case.get('geoms') and [g['k'] for g in case['geoms']], case.get('curv'))
