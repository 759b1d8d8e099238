"""C22: refusals."""
import itertools

import numpy as np

from .. import build, doc, nets, rich

NUM = {'quick': 4500, 'thorough': 79000}
RULE = ('constructors: all given/omitted combinations of the alternative arguments of Arc, Spiral, PlanView and ParamPoly3 over values zero, '
        'negative, integer, float and numpy (enumerated); histories: random networks built step by step with refused calls (second predecessor '
        '/ successor, third neighbour, neighbour without direction, unnumbered lane written, unequal lanes) injected at random points; random sequences '
        'of link declarations against a counting reference; oracle: '
        'expected exception type at the call, document equal to that of the twin built without refused calls; distinct = (call, arguments)')
ASSUME = ['an angle or curvature derivative of exactly zero given alone for a spiral, or equal and opposite curvatures with an angle, is degenerate input (no length follows from it) and not judged']

VALS = [0, 0.0, 1, -2, 0.5, 'np0', 'np1']


def val(v):
    return {'np0': np.float64(0), 'np1': np.float64(1.5), 'i0': np.int64(0)}.get(v, v) if isinstance(v, str) else v


def fixed():
    res = []
    for v in VALS:
        for bits in itertools.product((0, 1), repeat=3):
            res.append({'call': 'planview', 'args': [v if b else None for b in bits]})
            res.append({'call': 'spiral', 'curv': [0.01, 0.02], 'args': [v if b else None for b in bits]})
            res.append({'call': 'spiral', 'curv': [0, 0], 'args': [v if b else None for b in bits]})
        for bits in itertools.product((0, 1), repeat=2):
            for c in (0, 0.0, 'np0', 'i0', -0.0, 0.01, -1, 1e-300):
                res.append({'call': 'arc', 'curv': c, 'args': [v if b else None for b in bits]})
        for pr in ('arcLength', 'normalized', None):
            for given in (0, 1):
                res.append({'call': 'pp3', 'prange': pr, 'coef': [v] * 8, 'length': v if given else None})
    for t in ('pred', 'suc'):
        for a in ('road', 'junction'):
            for b in ('road', 'junction'):
                for i in (0, 1, '', '0', 'x', -1):
                    res.append({'call': 'second', 'key': t, 'first': {'t': a, 'id': i, 'c': 'start'}, 'again': {'t': b, 'id': i, 'c': 'end'}})
    for k in range(4):
        res.append({'call': 'neighbours', 'n': k})
    for n in range(3):
        res.append({'call': 'lane', 'a': n})
    return res


def gen(rng, i):
    if rng.random() < 0.25:
        ops = [[rng.choice(['pred', 'suc', 'nb', 'nb', 'nb', 'nodir', 'look', 'mirror']), rng.choice([0, 1, '0', 'x', -1]), rng.choice(['road', 'junction']),
                rng.choice(['start', 'end', None]), rng.choice(['same', 'opposite'])] for _ in range(rng.choice([4, 6, 10, nets.many(rng, [8], 80, 0.1)]))]
        return {'call': 'declare', 'ops': ops, 'jid': rng.choice([-1, -1, 3])}
    return {'call': 'history', 'net': rich.gen(rng, size=rng.choice([1, 2, 3, 5])), 'seed': rng.randrange(10 ** 9), 'p': rng.choice([0.2, 0.6, 1])}


def check(case, mon):
    P = build.pyodrx
    NE, TM = P.NotEnoughInputArguments, P.ToManyOptionalArguments
    c = case['call']
    if c == 'history':
        return history(case, mon)
    if c == 'planview':
        a = [val(v) for v in case['args']]
        given = sum(v is not None for v in a)
        if given in (1, 2):
            mon.raises(NE, lambda: P.PlanView(*a), 'PlanView%r' % (a,))
        else:
            pv = P.PlanView(*a)
            pv.add_geometry(P.Line(1))
            od = P.OpenDrive('n')
            road = P.Road(1, pv, build.lanes({'sections': [{'s': 0, 'L': [], 'R': []}]}))
            od.add_road(road)
            od.adjust_roads_and_lanes()
            g = doc.of(od).roads[0].geoms[0]
            mon.eq(list(g.pose), [float(v) for v in (a if given else (0, 0, 0))], 'start pose')
    elif c == 'arc':
        k, a = val(case['curv']), [val(v) for v in case['args']]
        given = sum(v is not None for v in a)
        make = lambda: P.Arc(k, length=a[0], angle=a[1])
        exp = tuple(([NE] if given == 0 else []) + ([TM] if given == 2 else []) + ([ValueError] if k == 0 else []))
        if exp:
            mon.raises(exp, make, 'Arc(%r, length=%r, angle=%r)' % (k, a[0], a[1]))
        else:
            make()
            mon.ev('accepted')
    elif c == 'spiral':
        a = [val(v) for v in case['args']]
        given = sum(v is not None for v in a)
        make = lambda: P.Spiral(case['curv'][0], case['curv'][1], length=a[0], angle=a[1], cdot=a[2])
        if given != 1:
            mon.raises(NE if given == 0 else TM, make, 'Spiral(%r, length=%r, angle=%r, cdot=%r)' % (case['curv'], a[0], a[1], a[2]))
        elif a[0] is not None or (case['curv'] != [0, 0] and any(a)):
            make()
            mon.ev('accepted')
    elif c == 'pp3':
        co = [val(v) for v in case['coef']]
        kw = {}
        if case['prange']:
            kw['prange'] = case['prange']
        if case['length'] is not None:
            kw['length'] = val(case['length'])
        make = lambda: P.ParamPoly3(*co, **kw)
        if case['prange'] == 'arcLength' and case['length'] is None:
            mon.raises(ValueError, make, 'ParamPoly3(arcLength) without length')
        else:
            make()
            mon.ev('accepted')
    elif c == 'second':
        r = build.road({'id': 1, 'geoms': [{'k': 'line', 'length': 1}], 'start': [0, 0, 0], 'sections': [{'s': 0, 'L': [], 'R': []}]})
        fun = r.add_predecessor if case['key'] == 'pred' else r.add_successor
        build.link_one(fun, case['first'])
        r.planview.adjust_geometries()
        before = doc.canon(r.get_element())
        for again in (case['again'], case['first'], case['again']):
            mon.raises(ValueError, lambda: build.link_one(fun, again), 'second %s' % case['key'])
            mon.eq(doc.canon(r.get_element()), before, 'road after the refusal')
    elif c == 'neighbours':
        r = build.road({'id': 1, 'geoms': [{'k': 'line', 'length': 1}], 'start': [0, 0, 0], 'sections': [{'s': 0, 'L': [], 'R': []}]})
        r.planview.adjust_geometries()
        for k in range(case['n']):
            before = doc.canon(r.get_element())
            mon.raises(ValueError, lambda: r.add_neighbor(P.ElementType.road, 5, None), 'neighbour without direction')
            mon.eq(doc.canon(r.get_element()), before, 'road after the refused neighbour')
            if k < 2:
                r.add_neighbor(P.ElementType.road, k, P.Direction.same)
                mon.eq(len(r.get_element().findall('link/neighbor')), k + 1, 'neighbours')
            else:
                mon.raises(ValueError, lambda: r.add_neighbor(P.ElementType.road, k, P.Direction.opposite), 'third neighbour')
                mon.eq(doc.canon(r.get_element()), before, 'road after the third neighbour')
    elif c == 'declare':
        declare(case, mon)
    elif c == 'lane':
        ln = P.Lane(a=case['a'])
        mon.raises(ValueError, ln.get_element, 'element of a lane without number')
        mon.raises(ValueError, ln.get_attributes, 'attributes of a lane without number')
        sec = P.LaneSection(0, P.Lane())
        sec.add_left_lane(ln)
        mon.eq(ln.get_element().get('id'), '1', 'number of the lane afterwards')
    mon.key(case)


def declare(case, mon):
    """ links of two roads declared in any order: the reference counts what each has """
    P = build.pyodrx
    roads = [build.road({'id': i, 'geoms': [{'k': 'line', 'length': 1}], 'start': [0, 0, 0], 'sections': [{'s': 0, 'L': [], 'R': []}], 'jid': case['jid']})
             for i in (1, 2)]
    for r in roads:
        r.planview.adjust_geometries()
    has = [[], []]
    turn = 0
    for what, i, et, cp, d in case['ops']:
        r, h = roads[turn], has[turn]
        if what == 'mirror':
            turn = 1 - turn
            continue
        if what == 'look':
            r.get_element()
            continue
        before = doc.canon(r.get_element())
        E, C, D = build.ET_[et], build.CP.get(cp), build.DIR[d]
        if what == 'nodir':
            mon.raises(ValueError, lambda: r.add_neighbor(E, i, None), 'neighbour without direction')
        elif what == 'nb':
            if h.count('neighbor') >= 2:
                mon.raises(ValueError, lambda: r.add_neighbor(E, i, D), 'third neighbour')
            else:
                r.add_neighbor(E, i, D)
                h.append('neighbor')
                continue
        else:
            name = 'predecessor' if what == 'pred' else 'successor'
            fun = r.add_predecessor if what == 'pred' else r.add_successor
            if name in h:
                mon.raises(ValueError, lambda: fun(E, i, C), 'second ' + name)
            else:
                fun(E, i, C)
                h.append(name)
                continue
        mon.eq(doc.canon(r.get_element()), before, 'road after the refused %s' % what)
        mon.ev('refused_calls')
    for r, h in zip(roads, has):
        mon.eq(sorted(l.tag for l in r.get_element().find('link')), sorted(h), 'links of the road')


def history(case, mon):
    import random
    P = build.pyodrx
    spec = case['net']
    drop = frozenset([('header', 'date'), ('object', 'id'), ('signal', 'id')])
    w = {}
    for s in build.steps(spec):
        s(w)
    want = doc.canon(w['od'].get_element(), drop)
    rng = random.Random(case['seed'])
    w = {}
    n = 0
    for s in build.steps(spec):
        s(w)
        if rng.random() >= case['p'] or not w.get('roads'):
            continue
        r = rng.choice(sorted(w['roads'].items()))[1]
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(7)
            i = rng.choice([0, 1, r.id, 'x'])
            cp = rng.choice([P.ContactPoint.start, P.ContactPoint.end, None])
            et = rng.choice([P.ElementType.road, P.ElementType.junction])
            off = rng.choice([0, 1, 2])
            if k == 0 and r.predecessor:
                mon.raises(ValueError, lambda: r.add_predecessor(et, i, cp, off), 'second predecessor')
            elif k == 1 and r.successor:
                mon.raises(ValueError, lambda: r.add_successor(et, i, cp, off), 'second successor')
            elif k == 2:
                mon.raises(ValueError, lambda: r.add_neighbor(et, i, None), 'neighbour without direction')
            elif k == 3 and len([l for l in r.get_element().find('link') if l.tag == 'neighbor']) >= 2:
                mon.raises(ValueError, lambda: r.add_neighbor(et, i, P.Direction.same), 'third neighbour')
            elif k == 4:
                mon.raises(P.NotEnoughInputArguments, lambda: P.PlanView(0, None, rng.choice([0, 1])), 'partial start pose')
            elif k == 5:
                mon.raises(ValueError, P.Lane().get_element, 'unnumbered lane')
            elif k == 6 and not r.planview.adjusted:
                mon.raises(P.RoadsAndLanesNotAdjusted, lambda: r.add_object_roadside(P.Object(0, 0), 1), 'roadside objects before adjusting')
            else:
                continue
            n += 1
            mon.key('history', k, i, et.name, off)
    diff = doc.first_difference(want, doc.canon(w['od'].get_element(), drop))
    mon.that(diff is None, 'the document differs from that of the network built without refused calls: %s', diff)
    mon.ev('refused_calls', n)
