"""The part of the OpenDRIVE 1.5 grammar that pyodrx writes (tighter than nothing, never tighter than the standard), and reference checks.

Every element: allowed attributes with their types ('!' = mandatory), children in order as (tag, least, most).  An element that pyodrx does
not write today, but the standard allows (type, elevationProfile, lateralProfile, border, ...), is allowed and not looked into.
"""
import math
import re

from .p.c23 import TABLE

NUM = re.compile(r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\Z')
INT = re.compile(r'[+-]?\d+\Z')
INF = 10 ** 9


def lit(*names):
    return ('one of', frozenset(names))


def table(name):
    return ('one of', frozenset(TABLE[name].values()))


BAD = frozenset(['', 'None', 'nan', 'inf', '-inf'])
EXTRA = dict((k, (None, None)) for k in ('userData', 'include', 'dataQuality'))


def g(attrs, kids=(), any_order=False):
    return {'a': attrs, 'k': kids, 'any': any_order}


LANE = g({'id': 'int!', 'type': ('one of!', frozenset(TABLE['LaneType'].values()) | {'roadWorks', 'slipLane', 'curb', 'walking', 'sharedLane'}), 'level': ('one of', frozenset(['true', 'false']))},
         [('link', 0, 1), ('border', 0, INF), ('width', 0, INF), ('roadMark', 0, INF), ('material', 0, INF), ('speed', 0, INF), ('access', 0, INF), ('height', 0, INF), ('rule', 0, INF)])
REPEAT = {'s': 'num!', 'length': 'pos!', 'distance': 'pos!', 'tStart': 'num!', 'tEnd': 'num!', 'zOffsetStart': 'num!', 'zOffsetEnd': 'num!'}
for _k in ('height', 'width', 'length', 'radius'):
    for _e in ('Start', 'End'):
        REPEAT[_k + _e] = 'num'
GRAMMAR = {
    'OpenDRIVE': g({}, [('header', 1, 1), ('road', 1, INF), ('controller', 0, INF), ('junction', 0, INF), ('junctionGroup', 0, INF), ('station', 0, INF)]),
    'header': g({'revMajor': 'int!', 'revMinor': 'int!', 'name': 'str', 'version': 'any', 'date': 'str', 'north': 'num', 'south': 'num', 'east': 'num',
                 'west': 'num', 'vendor': 'str'}, [('geoReference', 0, 1), ('offset', 0, 1)]),
    'road': g({'length': 'pos!', 'id': 'id!', 'junction': 'id!', 'name': 'any', 'rule': lit('RHT', 'LHT')},
              [('link', 0, 1), ('type', 0, INF), ('planView', 1, 1), ('elevationProfile', 0, 1), ('lateralProfile', 0, 1), ('lanes', 1, 1),
               ('objects', 0, 1), ('signals', 0, 1), ('surface', 0, 1), ('railroad', 0, 1)]),
    'road/link': g({}, [('predecessor', 0, 1), ('successor', 0, 1), ('neighbor', 0, 2)], True),
    'link/predecessor': None, 'link/successor': None,
    'neighbor': g({'side': lit('left', 'right'), 'elementType': lit('road', 'junction'), 'elementId': 'id!', 'direction': ('one of!', frozenset(['same', 'opposite']))}),
    'planView': g({}, [('geometry', 1, INF)]),
    'geometry': g({'s': 'pos!', 'x': 'num!', 'y': 'num!', 'hdg': 'num!', 'length': 'pos!'},
                  [('line', 0, 1), ('spiral', 0, 1), ('arc', 0, 1), ('poly3', 0, 1), ('paramPoly3', 0, 1)]),
    'line': g({}), 'spiral': g({'curvStart': 'num!', 'curvEnd': 'num!'}), 'arc': g({'curvature': 'num!'}),
    'paramPoly3': g(dict([(c + x, 'num!') for c in 'abcd' for x in 'UV'], pRange=('one of!', frozenset(['arcLength', 'normalized'])))),
    'lanes': g({}, [('laneOffset', 0, INF), ('laneSection', 1, INF)]),
    'laneSection': g({'s': 'pos!', 'singleSide': lit('true', 'false')}, [('left', 0, 1), ('center', 1, 1), ('right', 0, 1)]),
    'left': g({}, [('lane', 1, INF)]), 'center': g({}, [('lane', 1, 1)]), 'right': g({}, [('lane', 1, INF)]), 'lane': LANE,
    'lane/link': g({}, [('predecessor', 0, INF), ('successor', 0, INF)], True),
    'width': g({'sOffset': 'num!', 'a': 'num!', 'b': 'num!', 'c': 'num!', 'd': 'num!'}),
    'roadMark': g({'sOffset': 'num!', 'type': ('one of!', frozenset(TABLE['RoadMarkType'].values())), 'color': ('one of!', frozenset(TABLE['RoadMarkColor'].values()) | {'violet'}),
                   'weight': table('RoadMarkWeight'), 'width': 'pos', 'laneChange': table('LaneChange'), 'height': 'num', 'material': 'str'},
                  [('sway', 0, INF), ('type', 0, 1), ('explicit', 0, 1)]),
    'roadMark/type': g({'name': 'str!', 'width': 'num!'}, [('line', 1, INF)]),
    'type/line': g({'length': 'num!', 'space': 'num!', 'tOffset': 'num!', 'sOffset': 'num!', 'width': 'num', 'rule': table('MarkRule'), 'color': table('RoadMarkColor')}),
    'objects': g({}, [('object', 0, INF)]),
    'object': g({'id': 'id!', 's': 'num!', 't': 'num!', 'zOffset': 'num!', 'type': 'str', 'subtype': 'any', 'name': 'any', 'validLength': 'num',
                 'orientation': table('Orientation'), 'dynamic': table('Dynamic'), 'hdg': 'num', 'pitch': 'num', 'roll': 'num', 'height': 'num',
                 'length': 'num', 'width': 'num', 'radius': 'num'}, [('repeat', 0, INF)]),
    'repeat': g(REPEAT),
    'signals': g({}, [('signal', 0, INF), ('signalReference', 0, INF)]),
    'signal': g({'id': 'id!', 's': 'num!', 't': 'num!', 'dynamic': ('one of!', frozenset(['yes', 'no'])), 'orientation': ('one of!', frozenset(['+', '-', 'none'])),
                 'zOffset': 'num!', 'type': 'str!', 'subtype': 'str!', 'country': 'str', 'countryRevision': 'str', 'name': 'any', 'value': 'num', 'unit': 'str', 'text': 'any',
                 'height': 'num', 'width': 'num', 'hOffset': 'num', 'pitch': 'num', 'roll': 'num'}, [('validity', 0, INF), ('dependency', 0, INF), ('reference', 0, INF)]),
    'dependency': g({'id': 'id!', 'type': 'str'}),
    'junction': g({'id': 'id!', 'name': 'any', 'type': 'str'}, [('connection', 0, INF), ('priority', 0, INF), ('controller', 0, INF), ('surface', 0, 1)]),
    'connection': g({'id': 'id!', 'incomingRoad': 'id!', 'connectingRoad': 'id!', 'contactPoint': ('one of!', frozenset(['start', 'end'])), 'type': 'str'}, [('predecessor', 0, 1), ('successor', 0, 1), ('laneLink', 0, INF)]),
    'laneLink': g({'from': 'int!', 'to': 'int!'}),
}
ROADLINK = g({'elementType': ('one of!', frozenset(['road', 'junction'])), 'elementId': 'id!', 'contactPoint': lit('start', 'end')})
LANELINK = g({'id': 'int!'})
OPEN = frozenset(['type', 'elevationProfile', 'lateralProfile', 'surface', 'railroad', 'controller', 'junctionGroup', 'station', 'geoReference', 'offset',
                  'border', 'material', 'speed', 'access', 'height', 'rule', 'laneOffset', 'sway', 'explicit', 'poly3', 'signalReference', 'validity',
                  'reference', 'priority', 'predecessor', 'successor', 'userData', 'include', 'dataQuality'])


def attr(mon, typ, v, what):
    kind = typ if isinstance(typ, str) else typ[0]
    kind = kind.rstrip('!')
    if kind == 'one of':
        mon.that(v in typ[1], '%s: %r is none of %s', what, v, sorted(typ[1]))
    elif kind in ('num', 'pos'):
        mon.that(NUM.match(v) is not None and math.isfinite(float(v)), '%s: %r is not a finite number', what, v)
        if kind == 'pos':
            mon.that(float(v) >= 0, '%s: %r is negative', what, v)
    elif kind == 'int':
        mon.that(INT.match(v) is not None, '%s: %r is not an integer', what, v)
    elif kind == 'id':
        mon.that(v not in BAD and not v.startswith('<'), '%s: %r is not an id', what, v)
    elif kind == 'str':
        mon.that(v != '', '%s: empty', what)


def element(mon, e, rule, path):
    mon.that(not (e.text or '').strip() and not (e.tail or '').strip(), '%s: text %r in the element', path, (e.text or '') + (e.tail or ''))
    for k, v in e.attrib.items():
        mon.that(k in rule['a'], '%s: attribute %s is not in the standard', path, k)
        attr(mon, rule['a'][k], v, '%s/@%s' % (path, k))
        mon.ev('attributes')
    for k, typ in rule['a'].items():
        if (typ if isinstance(typ, str) else typ[0]).endswith('!'):
            mon.that(k in e.attrib, '%s: mandatory attribute %s is missing', path, k)
    tags = [c.tag for c in e]
    names = [k for k, _, _ in rule['k']]
    for t in tags:
        mon.that(t in names or t in EXTRA, '%s: element <%s> does not belong here', path, t)
    for k, lo, hi in rule['k']:
        mon.that(lo <= tags.count(k) <= hi, '%s: %d elements <%s>', path, tags.count(k), k)
    if not rule['any']:
        pos = [names.index(t) for t in tags if t in names]
        mon.that(pos == sorted(pos), '%s: children in the order %s', path, tags)
    for n, c in enumerate(e):
        p = '%s/%s[%d]' % (path, c.tag, n)
        r = GRAMMAR.get(e.tag + '/' + c.tag)
        if e.tag == 'link':
            r = r or (ROADLINK if path.count('/') == 2 else LANELINK)
        elif r is None and not (e.tag == 'road' and c.tag == 'type'):
            r = GRAMMAR.get(c.tag)
        if c.tag == 'neighbor':
            r = GRAMMAR['neighbor']
        if r is None:
            mon.that(c.tag in OPEN, '%s: element <%s> does not belong here', path, c.tag)
            continue
        mon.ev('elements')
        element(mon, c, r, p)


def grammar(mon, root):
    mon.eq(root.tag, 'OpenDRIVE', 'root element')
    element(mon, root, GRAMMAR['OpenDRIVE'], 'OpenDRIVE')
    for gm in root.iter('geometry'):
        mon.eq(len([c for c in gm if c.tag not in EXTRA]), 1, 'shapes in a geometry')
    for r in root.findall('road'):
        i = r.get('id')
        mon.that(float(r.get('length')) > 0, 'road %s has length %s', i, r.get('length'))
        for l in r.findall('link/*'):
            if l.tag != 'neighbor' and l.get('elementType') == 'road':
                mon.that(l.get('contactPoint') in ('start', 'end'), 'road %s: %s without contact point', i, l.tag)
        for what in ('planView/geometry', 'lanes/laneSection'):
            s = [float(x.get('s')) for x in r.findall(what)]
            mon.that(s[0] == 0 and s == sorted(s) and len(set(s)) == len(s), 'road %s: s of %s is %s', i, what, s)
        for sec in r.findall('lanes/laneSection'):
            for side, ok in (('left', lambda v: v > 0), ('center', lambda v: v == 0), ('right', lambda v: v < 0)):
                ids = [int(x.get('id')) for x in sec.findall(side + '/lane')]
                mon.that(all(ok(v) for v in ids) and len(set(ids)) == len(ids), 'road %s: lanes %s on the %s', i, ids, side)
                if side != 'center':
                    for x in sec.findall(side + '/lane'):
                        mon.that(x.find('width') is not None or x.find('border') is not None, 'road %s: lane %s has no width', i, x.get('id'))
        for x in r.findall('signals/signal'):
            mon.that('value' in x.attrib or 'unit' not in x.attrib, 'road %s: signal %s has a unit but no value', i, x.get('id'))


def unique(mon, ids, what):
    mon.that(len(set(ids)) == len(ids), 'ids of the %s are not unique: %s', what, sorted(i for i in set(ids) if ids.count(i) > 1))
    mon.ev('ids', len(ids))


def references(mon, d):
    """ d: doc.Doc """
    root = d.root
    junctions = dict((j.get('id'), j) for j in d.junctions)
    unique(mon, [r.id for r in d.roads], 'roads')
    unique(mon, [j.get('id') for j in d.junctions], 'junctions')
    unique(mon, [o.get('id') for o in root.iter('object')], 'objects')
    unique(mon, [o.get('id') for o in root.iter('signal')], 'signals')
    for r in d.roads:
        mon.that(r.junction == '-1' or r.junction in junctions, 'road %s belongs to junction %s, which does not exist', r.id, r.junction)
        for tag, ls in r.link.items():
            for l in ls:
                where = d.byid if l['elementType'] == 'road' else junctions
                mon.that(l['elementId'] in where, 'road %s: %s is %s %s, which does not exist', r.id, tag, l['elementType'], l['elementId'])
                mon.ev('road_references')
        for l in r.e.findall('link/neighbor'):
            mon.that(l.get('elementId') in (junctions if l.get('elementType') == 'junction' else d.byid), 'road %s: neighbour %s does not exist', r.id, l.get('elementId'))
        n = len(r.sections)
        for k, s in enumerate(r.sections):
            for ln in s.lanes:
                for tag in ('predecessor', 'successor'):
                    to = ln.to(tag)
                    if not to:
                        continue
                    what = 'road %s section %d lane %d: %s' % (r.id, k, ln.id, tag)
                    q = k + (1 if tag == 'successor' else -1)
                    if 0 <= q < n:
                        there = r.sections[q]
                    else:
                        l = r.roadlink(tag)
                        mon.that(l is not None, '%s %s, but the road has no %s road', what, to, tag)
                        there = d.byid[l['elementId']].section_at(l['contactPoint'])
                    for i in to:
                        mon.that(i in there.byid, '%s is lane %d, which does not exist', what, i)
                        mon.ev('lane_references')
    for j in d.junctions:
        unique(mon, [c.get('id') for c in j.findall('connection')], 'connections of junction %s' % j.get('id'))
        for c in j.findall('connection'):
            what = 'junction %s connection %s' % (j.get('id'), c.get('id'))
            inc, con = d.byid.get(c.get('incomingRoad')), d.byid.get(c.get('connectingRoad'))
            mon.that(inc is not None and con is not None, '%s: road %s or %s does not exist', what, c.get('incomingRoad'), c.get('connectingRoad'))
            mon.eq(con.junction, j.get('id'), '%s: junction of the connecting road', what)
            cp = c.get('contactPoint')
            l = con.roadlink('predecessor' if cp == 'start' else 'successor')
            mon.that(l is not None and l['elementId'] == inc.id, '%s: road %s does not touch road %s with its %s', what, con.id, inc.id, cp)
            for x in c.findall('laneLink'):
                mon.that(int(x.get('from')) in inc.section_at(l['contactPoint']).byid, '%s: lane %s of road %s does not exist', what, x.get('from'), inc.id)
                mon.that(int(x.get('to')) in con.section_at(cp).byid, '%s: lane %s of road %s does not exist', what, x.get('to'), con.id)
                mon.ev('connection_references')


def strict_neighbours(mon, root):
    for e in root.iter('neighbor'):
        mon.that('side' in e.attrib and 'elementType' not in e.attrib, 'neighbor: written without the side and with an elementType')
