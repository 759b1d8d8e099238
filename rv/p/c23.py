"""C23: enumeration literals."""
from .. import build

NUM = {'quick': 0, 'thorough': 5500}
BIG = 0
EXHAUSTIVE = True
RULE = ('every member of every enumeration a user can pass, at every place where it can be passed (constructor or adding call), written to an '
        'element and compared with a literal table typed in from the OpenDRIVE 1.5 / 1.6 specification; completeness: the members listed in '
        'the table are exactly the members the library has')

TABLE = {
    'LaneType': {k: k for k in ['none', 'driving', 'stop', 'shoulder', 'biking', 'sidewalk', 'border', 'restricted', 'parking', 'bidirectional', 'median',
                                'special1', 'special2', 'special3', 'roadWorks', 'tram', 'rail', 'entry', 'exit', 'offRamp', 'onRamp',
                                'connectingRamp', 'bus', 'taxi', 'HOV', 'mwyEntry', 'mwyExit']},
    'RoadMarkType': {'none': 'none', 'solid': 'solid', 'broken': 'broken', 'solid_solid': 'solid solid', 'solid_broken': 'solid broken',
                     'broken_solid': 'broken solid', 'broken_broken': 'broken broken', 'botts_dots': 'botts dots', 'grass': 'grass', 'curb': 'curb',
                     'custom': 'custom', 'edge': 'edge'},
    'RoadMarkWeight': {'standard': 'standard', 'bold': 'bold'},
    'RoadMarkColor': {k: k for k in ['standard', 'blue', 'green', 'red', 'white', 'yellow', 'orange']},
    'MarkRule': {'no_passing': 'no passing', 'caution': 'caution', 'none': 'none'},
    'LaneChange': {k: k for k in ['increase', 'decrease', 'both', 'none']},
    'ElementType': {'road': 'road', 'junction': 'junction'},
    'ContactPoint': {'start': 'start', 'end': 'end'},
    'Direction': {'same': 'same', 'opposite': 'opposite'},
    'Orientation': {'positive': '+', 'negative': '-', 'none': 'none'},
    'ObjectType': {k: k for k in ['none', 'obstacle', 'pole', 'tree', 'vegetation', 'barrier', 'building', 'parkingSpace', 'patch', 'railing',
                                  'trafficIsland', 'crosswalk', 'streetLamp', 'gantry', 'soundBarrier', 'roadMark']},
    'Dynamic': {'yes': 'yes', 'no': 'no'},
}


def _road():
    P = build.pyodrx
    r = build.road({'id': 1, 'geoms': [{'k': 'line', 'length': 9}], 'start': [0, 0, 0], 'sections': [{'s': 0, 'L': [], 'R': []}]})
    r.planview.adjust_geometries()
    return r


def _lane(t, side):
    P = build.pyodrx
    c = P.Lane()
    l = P.Lane(t, a=3) if side == 'pos' else P.Lane(lane_type=t, a=3)
    if side == 'center':
        return P.LaneSection(0, l).get_element().find('center/lane').get('type')
    s = P.LaneSection(0, c)
    (s.add_left_lane if side == 'left' else s.add_right_lane)(l)
    return s.get_element().find(('left' if side == 'left' else 'right') + '/lane').get('type')


def _mark(where, **kw):
    P = build.pyodrx
    t = kw.pop('t', P.RoadMarkType.solid)
    e = P.RoadMark(t, 0.2, **kw).get_element()
    return e


def _link(fun, what, **kw):
    P = build.pyodrx
    r = _road()
    getattr(r, fun)(kw.get('et', P.ElementType.road), 7, kw['x'])
    return r.get_element().find('link')[0].get(what)


def places():
    P = build.pyodrx
    con = lambda cp: P.Connection(1, 2, cp)

    def inroad(kind, thing):
        r = _road()
        (r.add_object if kind == 'object' else r.add_signal)(thing)
        return r.get_element().find('%ss/%s' % (kind, kind))

    def roadside(**kw):
        r = _road()
        r.add_object_roadside(P.Object(0, 0, **kw), 5)
        return r.get_element().find('objects/object')
    return [
        ('LaneType', 'left lane', lambda m: _lane(m, 'left')),
        ('LaneType', 'right lane', lambda m: _lane(m, 'right')),
        ('LaneType', 'right lane, by position', lambda m: _lane(m, 'pos')),
        ('LaneType', 'centre lane', lambda m: _lane(m, 'center')),
        ('RoadMarkType', 'mark', lambda m: _mark(0, t=m).get('type')),
        ('RoadMarkType', 'mark with line', lambda m: _mark(0, t=m, length=1).get('type')),
        ('RoadMarkType', 'type child', lambda m: _mark(0, t=m, space=1).find('type').get('name')),
        ('RoadMarkWeight', 'mark', lambda m: _mark(0, marking_weight=m).get('weight')),
        ('RoadMarkWeight', 'mark with line', lambda m: _mark(0, marking_weight=m, length=2).get('weight')),
        ('RoadMarkColor', 'mark', lambda m: _mark(0, color=m).get('color')),
        ('RoadMarkColor', 'mark with line', lambda m: _mark(0, color=m, toffset=1).get('color')),
        ('MarkRule', 'mark', lambda m: _mark(0, rule=m).find('type/line').get('rule')),
        ('MarkRule', 'line', lambda m: P.RoadLine(1, 2, 3, rule=m).get_element().get('rule')),
        ('LaneChange', 'mark', lambda m: _mark(0, laneChange=m).get('laneChange')),
        ('ElementType', 'predecessor', lambda m: _link('add_predecessor', 'elementType', et=m, x=P.ContactPoint.start)),
        ('ElementType', 'successor', lambda m: _link('add_successor', 'elementType', et=m, x=P.ContactPoint.start)),
        ('ElementType', 'neighbour', lambda m: _link('add_neighbor', 'elementType', et=m, x=P.Direction.same)),
        ('ContactPoint', 'predecessor', lambda m: _link('add_predecessor', 'contactPoint', x=m)),
        ('ContactPoint', 'successor', lambda m: _link('add_successor', 'contactPoint', x=m)),
        ('ContactPoint', 'connection', lambda m: con(m).get_element().get('contactPoint')),
        ('Direction', 'neighbour', lambda m: _link('add_neighbor', 'direction', x=m)),
        ('Orientation', 'object', lambda m: inroad('object', P.Object(0, 0, orientation=m)).get('orientation')),
        ('Orientation', 'signal', lambda m: inroad('signal', P.Signal(0, 0, 'DE', '1', orientation=m)).get('orientation')),
        ('Orientation', 'roadside object', lambda m: roadside(orientation=m).get('orientation')),
        ('ObjectType', 'object', lambda m: inroad('object', P.Object(0, 0, m)).get('type')),
        ('ObjectType', 'object by name', lambda m: inroad('object', P.Object(0, 0, Type=m)).get('type')),
        ('ObjectType', 'roadside object', lambda m: roadside(Type=m).get('type')),
        ('Dynamic', 'object', lambda m: inroad('object', P.Object(0, 0, dynamic=m)).get('dynamic')),
        ('Dynamic', 'signal', lambda m: inroad('signal', P.Signal(0, 0, 'DE', '1', dynamic=m)).get('dynamic')),
    ]


def fixed():
    res = [{'enum': e, 'place': None} for e in sorted(TABLE)]
    for k, (e, what, _) in enumerate(places()):
        res.append({'enum': e, 'place': k})
    return res


def check(case, mon):
    P = build.pyodrx
    en = getattr(P, case['enum'])
    table = TABLE[case['enum']]
    if case['place'] is None:
        mon.that(set(table) <= set(en.__members__), 'members of %s: missing %s', case['enum'], sorted(set(table) - set(en.__members__)))
        for n, m in en.__members__.items():
            mon.eq(m.name, n, 'member %s of %s is an alias: its literal is not its own', n, case['enum'])
        mon.eq(len(set(table.values())), len(table), 'distinct literals of %s', case['enum'])
        mon.key(case['enum'])
        return
    e, what, fun = places()[case['place']]
    seen = {}
    for n, lit in table.items():
        got = fun(en[n])
        mon.eq(got, lit, '%s.%s written in %s', e, n, what)
        mon.that(got not in seen, '%s.%s and %s share the literal %r', e, n, seen.get(got), got)
        seen[got] = n
        mon.ev('literals')
        mon.key(e, what, n)
    for n in en.__members__:
        if n not in table:
            got = fun(en[n])
            mon.that(got not in seen, '%s.%s and %s share the literal %r', e, n, seen.get(got), got)
            seen[got] = n


def gen(rng, i):
    raise NotImplementedError
