"""C20: values of lanes, widths, road marks and lines."""
import itertools

import numpy as np

from .. import build, doc, nets, rich
from .c19 import number

NUM = {'quick': 9000, 'thorough': 220000}
RULE = ('random lane sections whose lanes have random subsets of coefficients, types, offsets and marks; all 16 subsets of the line arguments '
        'of a road mark for each of its types with zero and non-zero values (enumerated), other arguments random; marks shared by lanes or '
        'not, and added before or after the lane is in its section; links of lanes added before or after the lane has its number; oracle: attributes read back to exactly the given values, defaults only where nothing was given, line child iff a line '
        'argument was given; distinct = (mark type, argument subset, zeros)')

KEYS = ('length', 'space', 'toffset', 'rule')


def fixed():
    res = []
    for t in rich.MARKS:
        cases = []
        for n in range(5):
            for sub in itertools.combinations(KEYS, n):
                for zero in (0, 1, 2):
                    m = {'type': t}
                    for k in sub:
                        m[k] = 'caution' if k == 'rule' else (0 if zero == 0 else (1.5 if zero == 1 else 1e-9))
                    if zero == 1:
                        m['width'] = 0
                    if zero == 2:
                        m['width'] = 0.35
                        m['soffset'] = 7
                    cases.append({'a': 1, 'mark': m})
        for c in cases:
            res.append({'C': c, 'L': [], 'R': [c], 'shared': False, 'num': 'py'})
        res.append({'C': 0, 'L': cases, 'R': [], 'shared': False, 'num': 'py'})
    return res


def gen(rng, i):
    L = [rich.lane(rng, rng.choice([3, 0, 2.75, rich.number(rng)])) for _ in range(nets.many(rng, range(5), 24, 0.005))]
    R = [rich.lane(rng, rng.choice([3, 0, 2.75, rich.number(rng)])) for _ in range(rng.randint(0, 4))]
    for x in L + R:
        if isinstance(x, dict):
            if rng.random() < 0.2:
                del x['a']
            if x.get('mark') and rng.random() < 0.15:
                x['mark0'] = rich.mark(rng)
            for k in 'bcd':
                if rng.random() < 0.2:
                    x[k] = rich.number(rng)
    links = [[rng.randint(-len(R), len(L)), rng.choice(['predecessor', 'successor']), rng.choice([rng.randint(-6, 6), rng.randint(-150, 150)]), rng.choice(['early', 'late'])] for _ in range(nets.many(rng, [0, 0, 1, 3, 6], 60, 0.002))]
    return {'C': rich.lane(rng, 0), 'L': L, 'R': R, 'links': links, 'shared': rng.random() < 0.2, 'early': rng.random() < 0.5, 'num': rng.choice(['py', 'py', 'np'])}


def norm(spec):
    return spec if isinstance(spec, dict) else {'a': spec}


STD = {'SOLID': {'type': 'solid', 'width': 0.2}, 'BROKEN': {'type': 'broken', 'width': 0.2}}


def plain(m):
    """ the arguments behind a standard mark of the library """
    return STD[m['std']] if m and 'std' in m else m


def check_mark(mon, e, m, what):
    number(mon, e, 'sOffset', m.get('soffset', 0), what)
    mon.eq(e.get('type'), m['type'].replace('_', ' '), '%s: type', what)
    mon.eq(e.get('weight'), m.get('marking_weight', 'standard'), '%s: weight', what)
    mon.eq(e.get('color'), m.get('color', 'standard'), '%s: color', what)
    number(mon, e, 'height', m.get('height', 0.02), what)
    if 'laneChange' in m:
        mon.eq(e.get('laneChange'), m['laneChange'], '%s: laneChange', what)
    else:
        mon.that(e.get('laneChange') is None, '%s: laneChange was not given', what)
    line = any(k in m for k in KEYS)
    if 'width' in m:
        number(mon, e, 'width', m['width'], what)
    elif line:
        if e.get('width') is not None:
            number(mon, e, 'width', 0.2, what)
    else:
        mon.that(e.get('width') is None, '%s: width was not given but is %r', what, e.get('width'))
    types = e.findall('type')
    if not line:
        mon.eq(len(types), 0, '%s: line child although no line property was given', what)
        return
    mon.eq(len(types), 1, '%s: type children', what)
    t = types[0]
    mon.eq(t.get('name'), m['type'].replace('_', ' '), '%s: name of the type child', what)
    number(mon, t, 'width', m.get('width', 0.2), what)
    ls = t.findall('line')
    mon.eq(len(ls), 1, '%s: lines', what)
    l = ls[0]
    dl, ds = {'broken': (3, 3), 'solid': (3, 0)}.get(m['type'], (0, 0))
    number(mon, l, 'length', m.get('length', dl), what + ' line')
    number(mon, l, 'space', m.get('space', ds), what + ' line')
    number(mon, l, 'tOffset', m.get('toffset', 0), what + ' line')
    number(mon, l, 'sOffset', m.get('soffset', 0), what + ' line')
    number(mon, l, 'width', m.get('width', 0.2), what + ' line')
    if 'rule' in m:
        mon.eq(l.get('rule'), m['rule'].replace('_', ' '), '%s line: rule', what)
    elif l.get('rule') is not None:
        mon.eq(l.get('rule'), 'none', '%s line: rule', what)
    mon.ev('lines')


def npify(m):
    return dict((k, np.float64(v) if isinstance(v, float) else v) for k, v in m.items())


def check(case, mon):
    P = build.pyodrx
    shared, late = {}, []

    def make(spec):
        spec = norm(spec)
        if case['num'] == 'np':
            spec = npify(spec)
            if spec.get('mark'):
                spec['mark'] = npify(spec['mark'])
        l = build.lane(dict((k, v) for k, v in spec.items() if k not in ('mark', 'mark0')))
        if spec.get('mark0'):
            l.add_roadmark(build.roadmark(spec['mark0']))
        if spec.get('late'):
            late.append((l, spec))
        else:
            add_mark(l, spec)
        return l

    def add_mark(l, spec):
        if spec.get('mark'):
            key = repr(sorted(spec['mark'].items())) if case['shared'] else None
            mk = shared.get(key) if key else None
            if mk is None:
                mk = build.roadmark(spec['mark'])
                if key:
                    shared[key] = mk
            l.add_roadmark(mk)
    lanes = dict((i, make(s)) for i, s in [(0, case['C'])] + [(k + 1, s) for k, s in enumerate(case['L'])] + [(-k - 1, s) for k, s in enumerate(case['R'])])
    linked = {}

    def link(when):
        for i, t, to, w in case.get('links', []):
            if w == when and (t, str(to)) not in linked.setdefault(str(i), []):
                lanes[i].add_link(t, to)
                linked[str(i)].append((t, str(to)))
    link('early')
    sec = P.LaneSection(0, lanes[0])
    for k in range(len(case['L'])):
        sec.add_left_lane(lanes[k + 1])
    for k in range(len(case['R'])):
        sec.add_right_lane(lanes[-k - 1])
    ls = P.Lanes()
    ls.add_lanesection(sec)
    pv = P.PlanView()
    pv.add_geometry(P.Line(10))
    od = P.OpenDrive('n')
    od.add_road(P.Road(1, pv, ls))
    if case.get('early'):
        for l, spec in late:
            add_mark(l, spec)
    od.adjust_roads_and_lanes()
    link('late')
    if not case.get('early'):
        for l, spec in late:
            add_mark(l, spec)
    e = doc.of(od).root.find('road/lanes/laneSection')
    byid = dict((l.get('id'), l) for l in e.iter('lane'))
    allspecs = [('0', case['C'])] + [(str(k + 1), s) for k, s in enumerate(case['L'])] + [(str(-k - 1), s) for k, s in enumerate(case['R'])]
    mon.eq(sorted(byid), sorted(i for i, _ in allspecs), 'lanes')
    for i, s in allspecs:
        s = norm(s)
        x = byid[i]
        what = 'lane %s' % i
        mon.eq(x.get('type'), s.get('type', 'driving'), '%s: type', what)
        w = x.findall('width')
        mon.eq(len(w), 1, '%s: width records', what)
        for k in 'abcd':
            number(mon, w[0], k, s.get(k, 0), what + ' width')
        number(mon, w[0], 'sOffset', s.get('soffset', 0), what + ' width')
        mk = x.findall('roadMark')
        if s.get('mark0'):
            # replaced by the one added later
            mon.that(1 <= len(mk) <= 2, '%s: %d road marks', what, len(mk))
            mk = mk[-1:]
            mon.ev('marks_replaced')
        mon.eq(len(mk), 1 if s.get('mark') else 0, '%s: road marks', what)
        if s.get('mark'):
            m = plain(s['mark'])
            check_mark(mon, mk[0], m, what + ' mark')
            mon.key(m['type'], sorted(m), [k for k in KEYS if m.get(k) == 0])
            mon.ev('marks')
        got = [(l.tag, l.get('id')) for k in x.findall('link') for l in k]
        mon.eq(sorted(got), sorted(linked.get(i, [])), '%s: links', what)
        mon.ev('links', len(got))
    # the line class on its own
    for i, s in allspecs[:3]:
        m = plain(norm(s).get('mark'))
        if not m:
            continue
        kw = dict((k, m[k]) for k in ('width', 'length', 'space', 'toffset', 'soffset') if k in m)
        if 'rule' in m:
            kw['rule'] = P.MarkRule[m['rule']]
        l = build.call('RoadLine', **kw).get_element()
        for k, a in (('width', 'width'), ('length', 'length'), ('space', 'space'), ('toffset', 'tOffset'), ('soffset', 'sOffset')):
            number(mon, l, a, m.get(k, 0), 'RoadLine')
        mon.eq(l.get('rule'), m['rule'].replace('_', ' ') if 'rule' in m else None, 'RoadLine rule')
