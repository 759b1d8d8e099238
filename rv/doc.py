"""Reads the observable result - an OpenDRIVE document - into plain records, and audits of single documents."""
import math
import xml.etree.ElementTree as ET

from . import ref


class Geom(object):
    def __init__(self, e):
        self.s, self.x, self.y, self.h, self.length = [float(e.get(k)) for k in ('s', 'x', 'y', 'hdg', 'length')]
        kids = list(e)
        if len(kids) != 1:
            raise ValueError('geometry with %d shapes' % len(kids))
        c = kids[0]
        if c.tag == 'line':
            spec = {'k': 'line', 'length': self.length}
        elif c.tag == 'arc':
            spec = {'k': 'arc', 'curvature': float(c.get('curvature')), 'length': self.length}
        elif c.tag == 'spiral':
            spec = {'k': 'spiral', 'curvstart': float(c.get('curvStart')), 'curvend': float(c.get('curvEnd')), 'length': self.length}
        elif c.tag == 'paramPoly3':
            spec = {'k': 'pp3', 'u': [float(c.get(k + 'U')) for k in 'abcd'], 'v': [float(c.get(k + 'V')) for k in 'abcd'],
                    'prange': c.get('pRange'), 'length': self.length}
        else:
            raise ValueError('unknown geometry ' + c.tag)
        self.spec = spec
        self.elem = ref.Elem(spec)
        self.pose = (self.x, self.y, self.h)
        self.end = self.elem.end(self.pose)


class DLane(object):
    def __init__(self, e, side):
        self.e = e
        self.side = side
        self.id = int(e.get('id'))
        self.links = []
        for l in e.findall('link'):
            for k in l:
                self.links.append((k.tag, k.get('id')))

    def to(self, tag):
        return [int(i) for t, i in self.links if t == tag]


class DSection(object):
    def __init__(self, e):
        self.e = e
        self.s = float(e.get('s'))
        self.lanes = []
        for side in e:
            for l in side.findall('lane'):
                self.lanes.append(DLane(l, side.tag))
        self.byid = dict((l.id, l) for l in self.lanes)

    def ids(self, side):
        return [l.id for l in self.lanes if l.side == side]


class DRoad(object):
    def __init__(self, e):
        self.e = e
        self.id = e.get('id')
        self.junction = e.get('junction')
        self.length = float(e.get('length'))
        self.geoms = [Geom(g) for g in e.findall('planView/geometry')]
        self.sections = [DSection(s) for s in e.findall('lanes/laneSection')]
        self.link = {}
        for l in e.findall('link'):
            for k in l:
                if k.tag in ('predecessor', 'successor'):
                    self.link.setdefault(k.tag, []).append(dict(k.attrib))

    def pose(self, at):
        """ pose of the reference line at one end, in driving direction of the reference line """
        return self.geoms[0].pose if at == 'start' else self.geoms[-1].end

    def section_at(self, at):
        return self.sections[0 if at == 'start' else -1]

    def roadlink(self, tag):
        """ the (single) predecessor/successor that is a road """
        for l in self.link.get(tag, ()):
            if l.get('elementType') == 'road':
                return l
        return None


class Doc(object):
    def __init__(self, root):
        self.root = root
        self.roads = [DRoad(r) for r in root.findall('road')]
        self.byid = dict((r.id, r) for r in self.roads)
        self.junctions = root.findall('junction')


def of(od):
    return Doc(ET.fromstring(ET.tostring(od.get_element(), 'utf-8')))


# --- audits ----------------------------------------------------------------------------------------------

def tight(*things):
    """ within one road """
    return 5e-7 + 2e-7 * max([0.0] + list(things))


def tol(*things):
    """ between roads: where a ring closes, the deviations of all its roads have come together """
    return 3e-6 + 1e-6 * max([0.0] + list(things))


def same_heading(mon, a, b, what, t=1e-9):
    mon.within(abs(ref.wrap(a - b)), t, '%s: headings %r and %r differ', what, a, b)


def same_point(mon, a, b, t, what):
    d = ref.dist(a, b)
    mon.within(d, t, '%s: %r and %r are %g apart', what, tuple(a[:2]), tuple(b[:2]), d)


def audit_chain(mon, road, headings=None, n=None):
    """ C04: the records of one road """
    g = road.geoms
    mon.that(len(g) > 0, 'road %s has no geometry', road.id)
    if n is not None:
        mon.eq(len(g), n, 'number of geometry records of road %s', road.id)
    s = 0.0
    for i, e in enumerate(g):
        mon.within(abs(e.s - s), 1e-9 * (1 + abs(s)), 'road %s geometry %d: s=%r but the lengths before sum up to %r', road.id, i, e.s, s)
        mon.that(e.length > 0 and math.isfinite(e.length), 'road %s geometry %d: length %r', road.id, i, e.length)
        s += e.length
        if i:
            p = g[i - 1].end
            same_point(mon, p, e.pose, tight(g[i - 1].length, e.length), 'road %s gap before geometry %d' % (road.id, i))
            if headings is None:
                same_heading(mon, p[2], e.h, 'road %s kink before geometry %d' % (road.id, i))
            mon.ev('chain_joints')
    mon.within(abs(road.length - s), 1e-9 * (1 + s), 'road %s: length %r but the geometries sum up to %r', road.id, road.length, s)


def audit_joints(mon, doc, skip=()):
    """ C05: every road to road link closes; skip: {(road id, tag)} with lane offsets """
    seen = 0
    extent = 0.01 * sum(r.length for r in doc.roads)
    for r in doc.roads:
        for tag, here in (('predecessor', 'start'), ('successor', 'end')):
            l = r.roadlink(tag)
            if l is None or (r.id, tag) in skip:
                continue
            o = doc.byid.get(l['elementId'])
            if o is None:
                continue
            there = l['contactPoint']
            a, b = r.pose(here), o.pose(there)
            what = 'road %s %s -> road %s %s' % (r.id, here, o.id, there)
            same_point(mon, a, b, tol(extent, r.geoms[-1].length, o.geoms[-1].length, *[abs(v) * 1e-3 for v in a[:2]]), what)
            same_heading(mon, a[2], b[2] + (0 if here != there else math.pi), what, 3e-6)
            mon.ev('joint_%s_%s%s' % (here, there, '' if r.junction == '-1' else '_connecting'))
            seen += 1
    return seen


def strip(road, at, lane_id, width=3.0):
    """ the two border points of a lane (all lanes are `width` wide) at one end of the road """
    p = road.pose(at)
    a = abs(lane_id) * width
    sgn = 1 if lane_id > 0 else -1
    return ref.left(p, sgn * (a - width)), ref.left(p, sgn * a)


def audit_strips(mon, doc):
    """ C11: the two lanes of every lane link between roads occupy the same place """
    seen = 0
    extent = 0.01 * sum(r.length for r in doc.roads)
    for r in doc.roads:
        for tag, here in (('predecessor', 'start'), ('successor', 'end')):
            l = r.roadlink(tag)
            if l is None:
                continue
            o = doc.byid.get(l['elementId'])
            if o is None:
                continue
            there = l['contactPoint']
            for ln in r.section_at(here).lanes:
                for target in ln.to(tag):
                    what = 'lane %d of road %s (%s) linked as %s to lane %d of road %s (%s)' % (ln.id, r.id, here, tag, target, o.id, there)
                    mon.that(target in o.section_at(there).byid, '%s: no such lane there', what)
                    if ln.id == 0 or target == 0:
                        mon.that(False, '%s: centre lane linked', what)
                    a, b = strip(r, here, ln.id), strip(o, there, target)
                    t = tol(extent, r.geoms[-1].length, o.geoms[-1].length, *[abs(v) * 1e-3 for v in a[0]]) + 3e-6 * 3 * abs(ln.id)
                    mon.within(max(ref.dist(a[0], b[0]), ref.dist(a[1], b[1])), t,
                               '%s: the lanes are apart, borders %r and %r', what, a, b)
                    mon.ev('lane_strips')
                    seen += 1
    return seen


def lane_links(doc):
    """ {(road id, section, lane id): sorted [(tag, id)]} of all lanes """
    res = {}
    for r in doc.roads:
        for k, s in enumerate(r.sections):
            for l in s.lanes:
                res[(r.id, k, l.id)] = sorted(l.links)
    return res


def poses(doc):
    return dict((r.id, (r.pose('start'), r.pose('end'))) for r in doc.roads)


def canon(e, drop=()):
    """ a comparable value of an element; drop: {(tag, attribute)} left out """
    return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items() if (e.tag, k) not in drop)), (e.text or '').strip(),
            tuple(canon(c, drop) for c in e))


DATE = frozenset([('header', 'date')])


def first_difference(a, b, path=''):
    """ where two canonical trees differ """
    if a == b:
        return None
    if a[0] != b[0]:
        return '%s: <%s> and <%s>' % (path, a[0], b[0])
    path += '/' + a[0]
    if a[1] != b[1]:
        return '%s: attributes %s and %s' % (path, dict(a[1]), dict(b[1]))
    if a[2] != b[2]:
        return '%s: text %r and %r' % (path, a[2], b[2])
    if len(a[3]) != len(b[3]):
        return '%s: children %s and %s' % (path, [c[0] for c in a[3]], [c[0] for c in b[3]])
    for i, (c, d) in enumerate(zip(a[3], b[3])):
        r = first_difference(c, d, path + '[%d]' % i)
        if r:
            return r
    return '?'
