"""C25: independence of networks."""
import json
import os
import resource
import sys

from .. import build, doc, nets, rich

NUM = {'quick': 400, 'thorough': 6700}
BIG = 12
RULE = ('2..4 random networks (all features, and networks made with the generators and their default arguments), their building steps merged '
        'in a random order (down to single library calls) in a process that has already built all earlier cases; oracle: each document equals the one built alone in a '
        'pristine process (forked from a zygote that has only imported the library), and a probe of all defaults and standard road marks '
        'equals its pristine value; distinct = (steps, merge order)')
ASSUME = ['object and signal ids, which the property exempts, are left out of the comparison']

IDS = frozenset([('header', 'date'), ('object', 'id'), ('signal', 'id')])


def gen(rng, i):
    specs = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        if rng.random() < 0.5:
            specs.append(finer(rng, rich.gen(rng, size=rng.choice([1, 2, 3]))))
        else:
            specs.append(genspec(rng))
    if rng.random() < 0.4:
        specs.append(json.loads(json.dumps(specs[0])))
    return {'specs': specs, 'seed': rng.randrange(10 ** 9)}


def finer(rng, spec):
    """ roads and junctions built call by call instead of in one step """
    p = rng.choice([0, 0.5, 1])
    for r in spec['roads']:
        r['fine'] = rng.random() < p
    for j in spec['junctions']:
        if rng.random() < 0.6:
            del j['auto']
            j['conns'] = [{'inc': rng.choice(j['arms']), 'con': c, 'cp': rng.choice(['start', 'end']), 'id': rng.choice([None, None, None, k, 7]),
                           'links': [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.choice([0, 1, 2]))]}
                          for k, c in enumerate(j['cons'] * rng.choice([1, 2]))]
    return spec


def genspec(rng):
    x = rng.random()
    if x < 0.4:
        return {'g': 'cross', 'angles': rng.choice([[0, 1.5707963267948966, 3.141592653589793, 4.71238898038469], [0, 2.0943951023931953, 4.1887902047863905]]),
                'n': rng.choice([1, 2]), 'r': rng.choice([5, 12.5]), 'mark': rng.random() < 0.5, 'sp': rng.random() < 0.5}
    return {'g': 'chain', 'items': [{'f': rng.choice(['create_road', 'straight', 'cloth', 'std']), 'g': nets.geoms(rng, 2), 'n': rng.choice([0, 1, 2, 3]),
                                     'mark': rng.choice([None, rich.mark(rng)]), 'obj': rng.random() < 0.4} for _ in range(rng.choice([1, 2, 3]))],
            'same': rng.random() < 0.5}


def steps(spec):
    if 'g' not in spec:
        return build.steps(spec)
    P = build.pyodrx
    res = []

    def start(w):
        w['od'] = P.OpenDrive('gen')
        w['roads'] = {}
    res.append(start)
    if spec['g'] == 'cross':
        m = len(spec['angles'])

        def mk(w, k):
            w['roads'][str(k)] = P.create_road(P.Line(20 + k), k, spec['n'], spec['n'])
        for k in range(m):
            res.append(lambda w, k=k: mk(w, k))

        def jr(w):
            kw = {'spiral_part': 0.2, 'arc_part': 0.6} if spec['sp'] else {}
            w['jr'] = P.create_junction_roads([w['roads'][str(k)] for k in range(m)], list(spec['angles']), spec['r'], **kw)
        res.append(jr)
        if spec['mark']:
            def mark(w):
                w['roads']['0'].lanes.lanesections[0].rightlanes[0].add_roadmark(P.RoadMark(P.RoadMarkType.broken, length=7, space=1))
                w['jr'][0].lanes.lanesections[0].centerlane.add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.9))
            res.append(mark)

        def ju(w):
            w['od'].add_junction(P.create_junction(w['jr'], 1, [w['roads'][str(k)] for k in range(m)]))
        res.append(ju)
        for k in range(m):
            res.append(lambda w, k=k: w['od'].add_road(w['roads'][str(k)]))
        res.append(lambda w: [w['od'].add_road(r) for r in w['jr']] and None)
    else:
        n = len(spec['items'])
        for k, it in enumerate(spec['items']):
            def mk(w, k=k, it=it):
                f = it['f']
                lanes = spec['items'][0]['n']
                if f == 'create_road':
                    kw = {} if it['mark'] is None else {'center_road_mark': build.roadmark(it['mark'])}
                    r = P.create_road([build.element(g) for g in it['g']], k, lanes, lanes, **kw)
                elif f == 'straight':
                    r = P.create_straight_road(k, n_lanes=lanes)
                elif f == 'cloth':
                    r = P.create_cloth_arc_cloth(0.05, 0.3, 0.2, k, junction=-1, n_lanes=lanes)
                else:
                    sec = P.LaneSection(0, P.standard_lane())
                    for _ in range(lanes):
                        sec.add_left_lane(P.standard_lane(3.5))
                        sec.add_right_lane(P.standard_lane(rm=P.STD_ROADMARK_SOLID))
                    if it['mark'] is not None:
                        sec.centerlane.add_roadmark(build.roadmark(it['mark']))
                    ls = P.Lanes()
                    ls.add_lanesection(sec)
                    pv = P.PlanView()
                    pv.add_geometry(P.Line(10))
                    r = P.Road(k, pv, ls)
                w['roads'][str(k)] = r
            res.append(mk)

            def lk(w, k=k):
                if k:
                    w['roads'][str(k)].add_predecessor(P.ElementType.road, k - 1, P.ContactPoint.end)
                if k < n - 1:
                    w['roads'][str(k)].add_successor(P.ElementType.road, k + 1, P.ContactPoint.start)
            res.append(lk)
            if it['obj']:
                def ob(w, k=k):
                    w['roads'][str(k)].add_object(P.Object(1, 2))
                    w['roads'][str(k)].add_signal(P.Signal(1, 2, 'SE', '1'))
                res.append(ob)
            res.append(lambda w, k=k: w['od'].add_road(w['roads'][str(k)]))
    res.append(lambda w: w['od'].adjust_roads_and_lanes())
    if spec['g'] == 'chain' and spec['items'][0]['obj']:
        res.append(lambda w: w['roads']['0'].add_object_roadside(P.Object(0, 0, P.ObjectType.pole, height=1), 10))
    return res


def alone(spec):
    w = {}
    for s in steps(spec):
        s(w)
    return doc.canon(w['od'].get_element(), IDS)


def probe():
    P = build.pyodrx
    res = [doc.canon(P.STD_ROADMARK_SOLID.get_element()), doc.canon(P.STD_ROADMARK_BROKEN.get_element()), repr(P.generators.STD_START_CLOTH)]
    roads = [P.create_road(P.Line(5), 0, 2, 2), P.create_straight_road(1), P.create_cloth_arc_cloth(0.1, 0.2, 0.1, 2)]
    for r in roads:
        od = P.OpenDrive('probe')
        od.add_road(r)
        od.adjust_roads_and_lanes()
        res.append(doc.canon(od.get_element(), IDS))
    od = P.OpenDrive('probe')
    r = build.road({'id': 9, 'geoms': [{'k': 'line', 'length': 1}], 'start': [0, 0, 0], 'sections': [{'s': 0, 'L': [], 'R': []}],
                    'objects': [{'s': 0, 't': 0}], 'signals': [{'s': 0, 't': 0, 'country': 'D', 'Type': '1'}]})
    od.add_road(r)
    od.add_junction(P.Junction('j', 1))
    od.adjust_roads_and_lanes()
    res.append(doc.canon(od.get_element(), IDS))
    for m in (P.RoadMark(P.RoadMarkType.solid), P.RoadMark(P.RoadMarkType.broken, length=1), P.RoadLine()):
        res.append(doc.canon(m.get_element()))
    return res


SERVE = {}  # other things to be done in a pristine process: name -> function of the request


# --- pristine processes ----------------------------------------------------------------------------------

_Z = {}


def zygote():
    """ a process that never builds anything itself; forks one process per request """
    if _Z.get('owner') == os.getpid():
        return _Z
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            out = os.fdopen(w2, 'w')
            for line in os.fdopen(r1):
                kid = os.fork()
                if kid == 0:
                    try:
                        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                        sys.stdout = open(os.devnull, 'w')
                        req = json.loads(line)
                        try:
                            ans = {'doc': SERVE[req['do']](req) if 'do' in req else probe() if req == 'probe' else alone(req)}
                        except Exception as e:
                            ans = {'error': '%s: %s' % (type(e).__name__, e)}
                        out.write(json.dumps(ans) + '\n')
                        out.flush()
                    finally:
                        os._exit(0)
                _, st = os.waitpid(kid, 0)
                if st:
                    out.write('{"error": "the process died"}\n')
                    out.flush()
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _Z.update(owner=os.getpid(), w=os.fdopen(w1, 'w'), r=os.fdopen(r2))
    return _Z


def pristine(req, mon):
    z = zygote()
    z['w'].write(json.dumps(req) + '\n')
    z['w'].flush()
    ans = json.loads(z['r'].readline())
    mon.that('doc' in ans, 'building alone failed: %s', ans.get('error'))
    return tup(ans['doc'])


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, (list, tuple)) else x


def check(case, mon):
    import random
    if 'probe' not in _Z or _Z.get('owner') != os.getpid():
        p = pristine('probe', mon)
        _Z['probe'] = p
    want = [pristine(s, mon) for s in case['specs']]
    rng = random.Random(case['seed'])
    lists = [steps(s) for s in case['specs']]
    worlds = [{} for _ in lists]
    turns = [k for k, l in enumerate(lists) for _ in l]
    rng.shuffle(turns)
    pos = [0] * len(lists)
    switches = 0
    last = None
    for k in turns:
        lists[k][pos[k]](worlds[k])
        pos[k] += 1
        switches += k != last
        last = k
    for k, w in enumerate(worlds):
        diff = doc.first_difference(want[k], tup(doc.canon(w['od'].get_element(), IDS)))
        mon.that(diff is None, 'network %d built in company differs from the one built alone: %s', k, diff)
        mon.ev('documents')
    got = tup(probe())
    for k, (a, b) in enumerate(zip(_Z['probe'], got)):
        mon.eq(b, a, 'default or standard value number %d of the library', k)
    mon.ev('switches', switches)
    if switches > len(lists):
        mon.key(turns, [len(l) for l in lists])
