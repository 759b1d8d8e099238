"""C36: every part reports its own piece of the document."""
import collections
import io
import contextlib
import xml.etree.ElementTree as ET

from . import c15
from .. import build, doc, rich

NUM = {'quick': 1800, 'thorough': 27000}
RULE = ('random networks with all features; every object the program has made (roads, plan views, curve elements, lanes, sections, road marks, objects, signals, '
        'junctions, connections) is asked for its element and attributes after adjusting, some are printed; oracle: the element is found in the document of the whole '
        'network, below the road or junction it belongs to, as often as there are objects that report it; the attributes are those of the element; '
        'distinct = documents')
ASSUME = ['prototypes of roadside objects and curve elements that belong to no road are not part of the document']

# class -> tags of its element
TAG = {'Road': ['road'], 'PlanView': ['planView'], 'Line': ['line'], 'Arc': ['arc'], 'Spiral': ['spiral'], 'ParamPoly3': ['paramPoly3'], 'Lanes': ['lanes'],
       'LaneSection': ['laneSection'], 'Lane': ['lane'], 'RoadMark': ['roadMark'], 'Object': ['object'], 'Signal': ['signal'], 'Junction': ['junction'],
       'Connection': ['connection'], 'create_junction': ['junction']}


def gen(rng, i):
    net = rich.gen(rng, size=rng.choice([1, 1, 2, 3, 4, 6]))
    for j in net['junctions']:
        if rng.random() < 0.4:
            j['auto'] = 0
            j['name'] = rich.text(rng)
            j['conns'] = [{'inc': rng.choice(j['arms']), 'con': c, 'cp': rng.choice(['start', 'end']), 'id': rng.choice([None, None, k, rich.text(rng)]),
                           'links': [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.randint(0, 3))]} for k, c in enumerate(j['cons'])]
    return {'net': net, 'show': rng.randrange(10 ** 6)}


def check(case, mon):
    P = build.pyodrx
    spec = case['net']
    od = P.OpenDrive(spec.get('name', 'net'))
    per = []
    roads = {}
    # the objects are noted road by road
    for r in spec['roads']:
        bare = dict((k, v) for k, v in r.items() if k not in ('nb', 'pred', 'suc'))
        notes = []
        build.MADE.append(notes)
        try:
            o = build.road(bare, spec.get('num', 'py'), linked=False)
        finally:
            build.MADE.remove(notes)
        build.link_road(o, r)
        roads[str(r['id'])] = o
        per.append((o, [n for n in notes if n[0] in TAG]))
        od.add_road(o)
    for j in spec.get('junctions', ()):
        notes = []
        build.MADE.append(notes)
        try:
            o = build.junction(j, roads)
        finally:
            build.MADE.remove(notes)
        per.append((o, [n for n in notes if n[0] in TAG]))
        od.add_junction(o)
    od.adjust_roads_and_lanes()
    for r in spec['roads']:
        if r.get('roadside'):
            build.roadside(roads[str(r['id'])], r['roadside'])
    root = od.get_element()
    whole = [e for e in root if e.tag in ('road', 'junction')]
    mon.eq(len(whole), len(per), 'roads and junctions in the document')
    n = 0
    for (o, notes), top in zip(per, whole):
        have = collections.Counter()
        for e in top.iter():
            have[doc.canon(e, doc.DATE)] += 1
        for kind, x in notes:
            n += 1
            e = x.get_element()
            what = '%s of %s %s' % (kind, top.tag, top.get('id'))
            mon.that(e.tag in TAG[kind], '%s reports an element <%s>', what, e.tag)
            c = doc.canon(e, doc.DATE)
            if not have[c]:
                near = [h for h in have if h[0] == e.tag]
                mon.fail('%s: the element it reports is not in the document: %s' % (what, doc.first_difference(near[0], c) if len(near) == 1 else ET.tostring(e)[:400]))
            have[c] -= 1
            mon.ev(kind)
            if hasattr(x, 'get_attributes'):
                a = x.get_attributes()
                mon.eq(a, dict(e.attrib), '%s: attributes reported', what)
            if n == case['show'] % 37:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    P.prettyprint(x.get_element())
                for who, got in c15.parses(buf.getvalue().strip().encode('utf-8')):
                    diff = doc.first_difference(c, got)
                    mon.that(diff is None, '%s printed, read by %s: %s', what, who, diff)
                mon.ev('printed')
    mon.key(doc.canon(root, doc.DATE))
