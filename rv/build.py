"""Drives the public API of pyodrx from JSON specifications."""
import xml.etree.ElementTree as ET
import zlib

import numpy as np
import pyodrx

from . import spice

CP = {'start': pyodrx.ContactPoint.start, 'end': pyodrx.ContactPoint.end}
ET_ = {'road': pyodrx.ElementType.road, 'junction': pyodrx.ElementType.junction}
NO = object()
RD, RM = pyodrx.RoadMarkColor, pyodrx.RoadMarkWeight
# the documented argument order and defaults of the public calls
SIG = {
    'Lane': [('lane_type', pyodrx.LaneType.driving), ('a', 0), ('b', 0), ('c', 0), ('d', 0), ('soffset', 0)],
    'RoadMark': [('marking_type', NO), ('width', None), ('length', None), ('space', None), ('toffset', None), ('soffset', 0), ('rule', None),
                 ('color', RD.standard), ('marking_weight', RM.standard), ('height', 0.02), ('laneChange', None)],
    'RoadLine': [('width', 0), ('length', 0), ('space', 0), ('toffset', 0), ('soffset', 0), ('rule', None), ('color', None)],
    'Object': [('s', NO), ('t', NO), ('Type', pyodrx.ObjectType.none), ('subtype', None), ('id', None), ('name', None), ('dynamic', pyodrx.Dynamic.no),
               ('zOffset', 0), ('orientation', pyodrx.Orientation.none), ('hdg', 0), ('pitch', 0), ('roll', 0), ('width', None), ('length', None),
               ('height', None), ('radius', None), ('validLength', None)],
    'Signal': [('s', NO), ('t', NO), ('country', NO), ('Type', NO), ('subtype', '-1'), ('id', None), ('name', None), ('dynamic', pyodrx.Dynamic.no),
               ('value', None), ('unit', None), ('zOffset', 1.5), ('orientation', pyodrx.Orientation.positive), ('hOffset', 0), ('pitch', 0), ('roll', 0),
               ('height', None), ('width', None)],
    'repeat': [('repeatLength', NO), ('repeatDistance', NO)] + [(k, None) for k in (
        'sStart', 'tStart', 'tEnd', 'heightStart', 'heightEnd', 'zOffsetStart', 'zOffsetEnd', 'widthStart', 'widthEnd', 'lengthStart', 'lengthEnd',
        'radiusStart', 'radiusEnd')],
    'Road': [('road_id', NO), ('planview', NO), ('lanes', NO), ('road_type', -1), ('name', None), ('rule', None)],
    'Arc': [('curvature', NO), ('length', None), ('angle', None)],
    'Spiral': [('curvstart', NO), ('curvend', NO), ('length', None), ('angle', None), ('cdot', None)],
    'ParamPoly3': [(k, NO) for k in ('au', 'bu', 'cu', 'du', 'av', 'bv', 'cv', 'dv')] + [('prange', 'normalized'), ('length', None)],
    'PlanView': [('x_start', None), ('y_start', None), ('h_start', None)],
    'link': [('element_type', NO), ('element_id', NO), ('contact_point', None), ('lane_offset', 0)],
    'neighbor': [('element_type', NO), ('element_id', NO), ('direction', NO)],
    'roadside': [('road_object_prototype', NO), ('repeatDistance', NO), ('sOffset', 0), ('tOffset', 0), ('side', pyodrx.RoadSide.both)],
    'Connection': [('incoming_road', NO), ('connecting_road', NO), ('contact_point', NO), ('id', None)],
    'Junction': [('name', NO), ('id', NO)],
    'create_road': [('geometry', NO), ('id', NO), ('left_lanes', 1), ('right_lanes', 1), ('road_type', -1),
                    ('center_road_mark', pyodrx.STD_ROADMARK_SOLID), ('lane_width', 3)],
    'create_straight_road': [('road_id', NO), ('length', 100), ('junction', -1), ('n_lanes', 1), ('lane_offset', 3)],
    'create_cloth_arc_cloth': [('arc_curv', NO), ('arc_angle', NO), ('cloth_angle', NO), ('r_id', NO), ('junction', 1),
                               ('cloth_start', pyodrx.STD_START_CLOTH), ('n_lanes', 1), ('lane_offset', 3)],
    'create_junction_roads': [('roads', NO), ('angles', NO), ('r', NO), ('junction', 1), ('spiral_part', 1 / 3), ('arc_part', 1 / 3), ('startnum', 100)],
    'create_junction': [('junction_roads', NO), ('id', NO), ('roads', NO)],
    'standard_lane': [('offset', 3), ('rm', pyodrx.STD_ROADMARK_BROKEN)],
}
CALLS = {}
MADE = []       # where the objects made are noted: [[(kind, object)]] if anybody wants to know


def made(kind, x):
    for m in MADE:
        m.append((kind, x))
    return x


def call(which, fun=None, /, **kw):
    """ a call of the library, which writes the same arguments in different ways: by name, by position, with the defaults left out or given """
    sig = SIG[which]
    fun = fun or getattr(pyodrx, which)
    style = zlib.crc32(repr((which, [(k, kw[k] if isinstance(kw[k], (int, float, str)) else '') for k, _ in sig if k in kw])).encode('utf-8')) % 5
    CALLS[which, style] = CALLS.get((which, style), 0) + 1
    return made(which, written(sig, style, fun, kw))


def written(sig, style, fun, kw):
    if style == 0:
        return fun(**kw)
    if style == 1:  # the required ones by position
        n = [d for _, d in sig].count(NO)
        return fun(*[kw[k] for k, _ in sig[:n]], **dict((k, v) for k, v in kw.items() if k not in [k for k, _ in sig[:n]]))
    if style == 2:  # everything by position up to the last one given
        last = max([i for i, (k, _) in enumerate(sig) if k in kw] + [-1])
        return fun(*[kw.get(k, d) for k, d in sig[:last + 1]])
    if style == 3:  # everything, also the defaults
        return fun(*[kw.get(k, d) for k, d in sig])
    # half by position, the rest by name in the opposite order
    n = len(kw) // 2
    n = min([i for i, (k, _) in enumerate(sig) if k not in kw] + [n])
    rest = [k for k, _ in sig[n:] if k in kw]
    return fun(*[kw[k] for k, _ in sig[:n]], **dict((k, kw[k]) for k in reversed(rest)))


DIR = {'same': pyodrx.Direction.same, 'opposite': pyodrx.Direction.opposite}


def num(v, kind='py'):
    if v is None or isinstance(v, str):
        return v
    if kind == 'np':
        return np.float64(v)
    return v


def element(spec, kind='py'):
    k = spec['k']

    def n(key):
        return num(spec.get(key), kind)
    if k == 'line':
        return made('Line', pyodrx.Line(n('length')))
    if k == 'arc':
        if spec.get('length') is not None:
            return call('Arc', curvature=n('curvature'), length=n('length'))
        return call('Arc', curvature=n('curvature'), angle=n('angle'))
    if k == 'spiral':
        kw = dict((a, n(a)) for a in ('length', 'angle', 'cdot') if spec.get(a) is not None)
        return call('Spiral', curvstart=n('curvstart'), curvend=n('curvend'), **kw)
    if k == 'pp3':
        u, v = [[num(a, kind) for a in spec[x]] for x in 'uv']
        kw = dict(zip(('au', 'bu', 'cu', 'du', 'av', 'bv', 'cv', 'dv'), u + v))
        if spec['prange'] != 'normalized':
            kw.update(prange='arcLength', length=n('length'))
        elif not spec.get('implicit'):
            kw['prange'] = 'normalized'
        return call('ParamPoly3', **kw)
    raise ValueError(k)


def planview(spec, kind='py'):
    pv = call('PlanView', **dict(zip(('x_start', 'y_start', 'h_start'), [num(a, kind) for a in spec.get('start') or ()])))
    hs = spec.get('headings') or [None] * len(spec['geoms'])
    # equal elements are one object in every other road
    share = (len(str(spec.get('id', ''))) + len(spec['geoms'])) % 2
    made = []
    for g, h in zip(spec['geoms'], hs):
        e = next((x for f, x in made[-4:] if f == g), None) if share else None
        if e is None:
            e = element(g, kind)
            made.append((g, e))
        if h is None:
            pv.add_geometry(e)
        else:
            pv.add_geometry(e, num(h, kind))
    return pv


def roadmark(spec):
    if 'std' in spec:
        return getattr(pyodrx, 'STD_ROADMARK_' + spec['std'])
    kw = dict(spec)
    t = pyodrx.RoadMarkType[kw.pop('type')]
    for key, en in (('rule', pyodrx.MarkRule), ('color', pyodrx.RoadMarkColor), ('marking_weight', pyodrx.RoadMarkWeight),
                    ('laneChange', pyodrx.LaneChange)):
        if kw.get(key) is not None:
            kw[key] = en[kw[key]]
    return call('RoadMark', marking_type=t, **kw)


def lane(spec):
    """ spec: width or dict with the arguments """
    if not isinstance(spec, dict):
        return call('Lane', a=spec)
    kw = dict((k, spec[k]) for k in 'abcd' if k in spec)
    if 'soffset' in spec:
        kw['soffset'] = spec['soffset']
    if 'type' in spec:
        kw['lane_type'] = pyodrx.LaneType[spec['type']]
    res = call('Lane', **kw)
    if spec.get('mark') and not spec.get('late'):
        res.add_roadmark(roadmark(spec['mark']))
    return res


def latemark(lane_, spec):
    """ the mark of a lane that gets it when it is in its section already """
    if isinstance(spec, dict) and spec.get('mark') and spec.get('late'):
        lane_.add_roadmark(roadmark(spec['mark']))


def lanesection(spec):
    sec = made('LaneSection', pyodrx.LaneSection(spec['s'], lane(spec.get('C', 0))))
    todo = spec.get('mix')
    L, R = list(spec['L']), list(spec['R'])
    if todo is None:
        todo = 'L' * len(L) + 'R' * len(R)
    for side in todo:
        if side == 'L':
            sec.add_left_lane(lane(L.pop(0)))
        else:
            sec.add_right_lane(lane(R.pop(0)))
    latemark(sec.centerlane, spec.get('C', 0))
    for lanes_, specs in ((sec.leftlanes, spec['L']), (sec.rightlanes, spec['R'])):
        for l, x in zip(lanes_, specs):
            latemark(l, x)
    return sec


def lane_of(sec, lid):
    if lid == 0:
        return sec.centerlane
    return sec.leftlanes[lid - 1] if lid > 0 else sec.rightlanes[-lid - 1]


def lanes(spec):
    """ spec: {'sections': [...], 'pairs': [[[a, b], ...] per border], 'shared': bool} """
    secs = [lanesection(s) for s in spec['sections']]
    res = made('Lanes', pyodrx.Lanes())
    pairs = spec.get('pairs')
    if not pairs:
        for s in secs:
            res.add_lanesection(s)
        return res
    linkers = []
    for i, pp in enumerate(pairs):
        lk = linkers[0] if (spec.get('shared') and linkers) else pyodrx.LaneLinker()
        for a, b in pp:
            lk.add_link(lane_of(secs[i], a), lane_of(secs[i + 1], b))
        if not linkers or linkers[-1] is not lk:
            linkers.append(lk)
    for i, s in enumerate(secs):
        if spec.get('shared'):
            res.add_lanesection(s, linkers[0])
        elif spec.get('as_list'):
            res.add_lanesection(s, linkers)
        elif i == 0:
            res.add_lanesection(s)
        else:
            res.add_lanesection(s, linkers[i - 1])
    return res


def link_road(road, spec):
    for key, fun in (('pred', road.add_predecessor), ('suc', road.add_successor)):
        l = spec.get(key)
        if l:
            link_one(fun, l)
    for nb in spec.get('nb', ()):
        call('neighbor', road.add_neighbor, element_type=ET_[nb['t']], element_id=nb['id'], direction=DIR[nb['dir']])


def link_one(fun, l):
    kw = {'element_type': ET_[l['t']], 'element_id': l['id']}
    if l.get('c') is not None:
        kw['contact_point'] = CP[l['c']]
    if l.get('off'):
        kw['lane_offset'] = l['off']
    call('link', fun, **kw)


def road(spec, kind='py', linked=True):
    spec = spice.apply(spec)
    kw = {}
    if spec.get('name') is not None:
        kw['name'] = spec['name']
    if spec.get('rule') is not None:
        kw['rule'] = spec['rule']
    if spec.get('jid', -1) != -1:
        kw['road_type'] = spec['jid']
    r = call('Road', road_id=spec['id'], planview=planview(spec, kind), lanes=lanes(spec), **kw)
    if linked:
        link_road(r, spec)
    furnish(r, spec)
    return r


def obj(spec):
    kw = dict((k, v) for k, v in spec.items() if k != 'repeats')
    if kw.get('Type') in pyodrx.ObjectType.__members__:
        kw['Type'] = pyodrx.ObjectType[kw['Type']]
    if 'dynamic' in kw:
        kw['dynamic'] = pyodrx.Dynamic[kw['dynamic']]
    if 'orientation' in kw:
        kw['orientation'] = pyodrx.Orientation[kw['orientation']]
    o = call('Object', **kw)
    for r in spec.get('repeats', ()):
        call('repeat', o.repeat, **r)
    return o


def signal(spec):
    kw = dict(spec)
    if 'dynamic' in kw:
        kw['dynamic'] = pyodrx.Dynamic[kw['dynamic']]
    if 'orientation' in kw:
        kw['orientation'] = pyodrx.Orientation[kw['orientation']]
    return call('Signal', **kw)


def furnish(r, spec):
    """ objects and signals of a road """
    for key, many, make, add in (('objects', 'objlist', obj, r.add_object), ('signals', 'siglist', signal, r.add_signal)):
        late = key == 'objects' and spec.get('late')
        items = [make(dict(o, repeats=()) if late else o) for o in spec.get(key, ())]
        if not items:
            continue
        # the objects are repeated once the road has them
        after = [(o, x) for o, x in zip(items, spec[key]) if late]
        batch = []
        if spec.get(many) == 'mixed':
            # one by one and in lists of several sizes, also empty ones
            while items:
                n = (0, 1, 3, 2)[len(items) % 4]
                if len(items) % 3 == 0:
                    add(items.pop(0))
                else:
                    # the list stays the caller's
                    batch[:] = items[:n]
                    add(batch)
                    del batch[:]
                    del items[:n]
                    if n == 0:
                        add(items.pop(0))
        elif spec.get(many):
            add(items)
            del items[:]
        else:
            for o in items:
                add(o)
        for o, x in after:
            for rp in x.get('repeats', ()):
                call('repeat', o.repeat, **rp)


def roadside(r, rs):
    kw = {}
    if rs.get('sOffset'):
        kw['sOffset'] = rs['sOffset']
    if rs.get('tOffset'):
        kw['tOffset'] = rs['tOffset']
    if rs.get('side', 'both') != 'both' or rs.get('explicit'):
        kw['side'] = pyodrx.RoadSide[rs['side']]
    call('roadside', r.add_object_roadside, road_object_prototype=obj(rs['proto']), repeatDistance=rs['dist'], **kw)


def junction(spec, roads_by_id):
    if spec.get('auto'):
        cons = [roads_by_id[str(i)] for i in spec['cons']]
        arms = [roads_by_id[str(i)] for i in spec['arms']]
        return call('create_junction', junction_roads=cons, id=spec['id'], roads=arms)
    j = call('Junction', name=spec['name'], id=spec['id'])
    for c in spec['conns']:
        j.add_connection(connection(c))
    return j


def connection(c):
    kw = {} if c.get('id') is None else {'id': c['id']}
    con = call('Connection', incoming_road=c['inc'], connecting_road=c['con'], contact_point=CP[c['cp']], **kw)
    for f, t in c['links']:
        con.add_lanelink(f, t)
    return con


def network(spec, order=None, adjust=True):
    """ builds a whole network; returns the OpenDrive """
    od = pyodrx.OpenDrive(spec.get('name', 'net'))
    objs = [road(r, spec.get('num', 'py')) for r in spec['roads']]
    byid = dict((str(r['id']), o) for r, o in zip(spec['roads'], objs))
    for i in (order if order is not None else range(len(objs))):
        od.add_road(objs[i])
    for j in spec.get('junctions', ()):
        od.add_junction(junction(j, byid))
    if adjust:
        od.adjust_roads_and_lanes()
        for r, o in zip(spec['roads'], objs):
            if r.get('roadside'):
                roadside(o, r['roadside'])
    return od


def steps(spec, order=None):
    """ the same as network(), as a list of functions to be called one after the other on a shared dict """
    res = []

    def start(w):
        w['od'] = pyodrx.OpenDrive(spec.get('name', 'net'))
        w['roads'] = {}
        w['secs'] = {}
    res.append(start)
    spec = dict(spec, roads=[spice.apply(r) for r in spec['roads']])
    for r in spec['roads']:
        if r.get('fine'):
            res += road_steps(r, spec.get('num', 'py'))
            continue

        def mk(w, r=r):
            bare = dict((k, v) for k, v in r.items() if k not in ('objects', 'signals'))
            w['roads'][str(r['id'])] = road(bare, spec.get('num', 'py'), linked=False)

        def lk(w, r=r):
            link_road(w['roads'][str(r['id'])], r)

        def fu(w, r=r):
            furnish(w['roads'][str(r['id'])], r)
        res += [mk, lk, fu]
    for i in (order if order is not None else range(len(spec['roads']))):
        def ad(w, r=spec['roads'][i]):
            w['od'].add_road(w['roads'][str(r['id'])])
        res.append(ad)
    for j in spec.get('junctions', ()):
        if not j.get('auto'):
            res += junction_steps(j)
            continue

        def aj(w, j=j):
            w['od'].add_junction(junction(j, w['roads']))
        res.append(aj)
    res.append(lambda w: w['od'].adjust_roads_and_lanes())
    for r in spec['roads']:
        if r.get('roadside'):
            def rs(w, r=r):
                roadside(w['roads'][str(r['id'])], r['roadside'])
            res.append(rs)
    return res


def road_steps(r, kind):
    """ the construction of one road, one call of the library per step """
    res = []

    def part(w):
        return w.setdefault('parts', {}).setdefault(str(r['id']), {})

    def pv(w):
        part(w)['pv'] = planview(dict(r, geoms=[]), kind)
    res.append(pv)
    hs = r.get('headings') or [None] * len(r['geoms'])
    for g, h in zip(r['geoms'], hs):
        res.append(lambda w, g=g, h=h: part(w)['pv'].add_geometry(element(g, kind), *([] if h is None else [num(h, kind)])))
    res.append(lambda w: part(w).update(lanes=pyodrx.Lanes(), secs=[]))
    for s in r['sections']:
        res.append(lambda w, s=s: part(w)['secs'].append(pyodrx.LaneSection(s['s'], lane(s.get('C', 0)))))
        L, R = list(s['L']), list(s['R'])
        for side in s.get('mix') or 'L' * len(L) + 'R' * len(R):
            if side == 'L':
                res.append(lambda w, l=L.pop(0): part(w)['secs'][-1].add_left_lane(lane(l)))
            else:
                res.append(lambda w, l=R.pop(0): part(w)['secs'][-1].add_right_lane(lane(l)))
    pairs = r.get('pairs') or []
    res.append(lambda w: part(w).update(lk=[]))
    for i, pp in enumerate(pairs):
        if not (r.get('shared') and i):
            res.append(lambda w: part(w)['lk'].append(pyodrx.LaneLinker()))
        for a, b in pp:
            res.append(lambda w, i=i, a=a, b=b: part(w)['lk'][-1].add_link(lane_of(part(w)['secs'][i], a), lane_of(part(w)['secs'][i + 1], b)))
    for i in range(len(r['sections'])):
        def add(w, i=i):
            q = part(w)
            if not pairs:
                q['lanes'].add_lanesection(q['secs'][i])
            elif r.get('shared'):
                q['lanes'].add_lanesection(q['secs'][i], q['lk'][0])
            elif r.get('as_list'):
                q['lanes'].add_lanesection(q['secs'][i], q['lk'])
            elif i:
                q['lanes'].add_lanesection(q['secs'][i], q['lk'][i - 1])
            else:
                q['lanes'].add_lanesection(q['secs'][i])
        res.append(add)

    def mk(w):
        kw = dict((k, r[k]) for k in ('name', 'rule') if r.get(k) is not None)
        if r.get('jid', -1) != -1:
            kw['road_type'] = r['jid']
        w['roads'][str(r['id'])] = call('Road', road_id=r['id'], planview=part(w)['pv'], lanes=part(w)['lanes'], **kw)
    res.append(mk)
    for key in ('pred', 'suc'):
        if r.get(key):
            res.append(lambda w, key=key: link_road(w['roads'][str(r['id'])], {key: r[key]}))
    if r.get('nb'):
        for nb in r['nb']:
            res.append(lambda w, nb=nb: link_road(w['roads'][str(r['id'])], {'nb': [nb]}))
    for key, one in (('objects', obj), ('signals', signal)):
        for o in r.get(key, ()):
            if key == 'objects':
                def ob(w, o=o):
                    part(w)['o'] = obj(dict(o, repeats=()))
                res.append(ob)
                for rp in o.get('repeats', ()):
                    def rep(w, rp=rp):
                        call('repeat', part(w)['o'].repeat, **rp)
                    res.append(rep)
                res.append(lambda w: w['roads'][str(r['id'])].add_object(part(w)['o']))
            else:
                res.append(lambda w, o=o: w['roads'][str(r['id'])].add_signal(signal(o)))
    return res


def junction_steps(j):
    res = [lambda w: w.setdefault('parts', {}).update({('j', str(j['id'])): pyodrx.Junction(j['name'], j['id'])})]
    for c in j['conns']:
        def new(w, c=c):
            w['con'] = connection(dict(c, links=()))
        res.append(new)
        for f, t in c['links']:
            res.append(lambda w, f=f, t=t: w['con'].add_lanelink(f, t))
        res.append(lambda w: w['parts'][('j', str(j['id']))].add_connection(w['con']))
    res.append(lambda w: w['od'].add_junction(w['parts'][('j', str(j['id']))]))
    return res


def tree(element_):
    """ the document as a fresh parse of its serialisation """
    return ET.fromstring(ET.tostring(element_, 'utf-8'))
