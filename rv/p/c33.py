"""C33: the kind of number does not matter."""
import json
import random

import numpy as np

from .. import build, doc, nets, rich
from . import c25

NUM = {'quick': 1400, 'thorough': 29000}
RULE = ('random networks with all features (half of them of whole numbers only) and generated roads, built from plain floats and again with every number '
        'given as int where whole, numpy float64, numpy int64 where whole, or a random mixture; the ids, lane offsets, section starts, widths, marks, objects '
        'and repeats included; oracle: equal documents, numbers compared as numbers (1e-9), texts as texts; distinct = (network, kinds)')
ASSUME = ['a zero pitch, roll or heading offset may be left out']

IDS = frozenset([('header', 'date'), ('object', 'id'), ('signal', 'id')])
# keys of the specification whose values are no quantities
LABELS = frozenset(['id', 'jid', 'name', 'k', 'prange', 'type', 'rule', 'color', 'marking_weight', 'laneChange', 'c', 't_', 'Type', 'subtype', 'dynamic', 'orientation', 'unit',
                    'country', 'std', 'mix', 'side', 'dir', 'pairs', 'cons', 'arms', 'num', 'auto', 'shared', 'as_list', 'objlist', 'siglist', 'fine', 'implicit', 'explicit', 'conns'])


def whole(rng, x):
    """ the specification with rounded numbers, so that many of them have an integer form """
    if isinstance(x, dict):
        return dict((k, v if k in LABELS else whole(rng, v)) for k, v in x.items())
    if isinstance(x, list):
        return [whole(rng, v) for v in x]
    if isinstance(x, float) and abs(x) >= 1 and rng.random() < 0.8:
        return float(round(x))
    return x


def gen(rng, i):
    if rng.random() < 0.2:
        return {'kind': 'gen', 'what': rng.choice(['create', 'straight', 'cloth', 'cross']), 'length': rng.choice([10, 50, 7]), 'n': rng.choice([1, 2, 3]), 'w': rng.choice([3, 2, 4]),
                'curv': rng.choice([1, -1, 2]), 'ang': rng.choice([1, 2, -1]), 'r': rng.choice([5, 10, 40]), 'g': nets.geoms(rng), 'seed': rng.randrange(10 ** 9),
                'form': rng.choice(FORMS)}
    net = rich.gen(rng, size=rng.choice([1, 2, 3, 4, 6]), offsets=0.3)
    for r in net['roads']:
        for o in list(r.get('objects', ())) + list(r.get('signals', ())):
            if isinstance(o.get('Type'), int):
                o['Type'] = str(o['Type'])
    if rng.random() < 0.5:
        net = whole(rng, net)
        for r in net['roads']:
            if r.get('start') is not None and rng.random() < 0.4:
                r['start'] = [0.0 if rng.random() < 0.4 else float(round(v)) for v in r['start']]
            for g in r.get('geoms', ()):
                if g['k'] == 'arc' and rng.random() < 0.2:
                    g['curvature'] = rng.choice([1.0, -1.0, 2.0])
    net['num'] = 'py'
    if rng.random() < 0.5:
        c25.finer(rng, net)
    return {'kind': 'net', 'net': net, 'seed': rng.randrange(10 ** 9), 'form': rng.choice(FORMS)}


FORMS = ['int', 'np', 'npint', 'mixed', 'mixed']


def form(v, how, rng):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if how == 'mixed':
        how = rng.choice(['float', 'int', 'np', 'npint'])
    is_whole = float(v).is_integer() and abs(v) < 2 ** 53
    if how == 'np' or how == 'npint' and not is_whole:
        return np.float64(v)
    if how == 'npint':
        return np.int64(int(v))
    if how == 'int' and is_whole:
        return int(v)
    return float(v)


def convert(x, how, rng, key=None):
    if isinstance(x, dict):
        # 'c' is a lane coefficient, a polynomial's or a contact point; 't' a lateral position or a kind of element
        return dict((k, v if k in LABELS and not (k == 'c' and isinstance(v, (int, float))) else off(v, how, rng) if k == 'off' else convert(v, how, rng, k)) for k, v in x.items())
    if isinstance(x, list):
        return [convert(v, how, rng, key) for v in x]
    return form(x, how, rng)


def off(v, how, rng):
    return rng.choice([v, np.int64(v)]) if how in ('np', 'npint', 'mixed') else v


def built(case, how):
    rng = random.Random(case['seed'])
    P = build.pyodrx
    if case['kind'] == 'net':
        w = {}
        for s in build.steps(convert(case['net'], how, rng)):
            s(w)
        return w['od']
    f = lambda v: form(v, how, rng)
    od = P.OpenDrive('n')
    n = case['n']
    if case['what'] == 'cross':
        rs = [P.create_road([P.Line(f(case['length']))], k, n, n, lane_width=f(case['w'])) for k in range(4)]
        js = P.create_junction_roads(rs, [f(v) for v in (0, 1.5707963267948966, 3.141592653589793, 4.71238898038469)], f(case['r']))
        for r in rs + js:
            od.add_road(r)
        od.add_junction(P.create_junction(js, 1, rs))
    elif case['what'] == 'straight':
        od.add_road(P.create_straight_road(0, f(case['length']), n_lanes=n, lane_offset=f(case['w'])))
    elif case['what'] == 'cloth':
        c = case['curv'] / 10.0
        s = 1 if c > 0 else -1
        od.add_road(P.create_cloth_arc_cloth(f(c), f(s * abs(case['ang'])), f(s * 1), 0, -1, n_lanes=n, lane_offset=f(case['w'])))
    else:
        od.add_road(P.create_road([build.element(convert(g, how, rng)) for g in case['g']], 0, n, n, lane_width=f(case['w'])))
    od.adjust_roads_and_lanes()
    return od


def number(x):
    try:
        v = float(x)
    except ValueError:
        return None
    return v if v == v else None


ZERO_OK = ('pitch', 'roll', 'hOffset')


def compare(mon, a, b, path=''):
    path += '/' + a[0]
    mon.eq(b[0], a[0], '%s: element', path)
    x, y = dict(a[1]), dict(b[1])
    for k in sorted(set(x) | set(y)):
        if k in ZERO_OK:
            p, q = number(x.get(k, '0')), number(y.get(k, '0'))
        else:
            mon.that(k in x and k in y, '%s: attribute %s is %r and %r', path, k, x.get(k), y.get(k))
            p, q = number(x[k]), number(y[k])
        if p is None or q is None:
            mon.eq(y[k], x[k], '%s: attribute %s', path, k)
        else:
            mon.that(p == q or abs(p - q) <= 1e-9 + 1e-9 * abs(p), '%s: attribute %s is %r and %r', path, k, x.get(k), y.get(k))
    mon.eq(b[2], a[2], '%s: text', path)
    mon.eq([c[0] for c in b[3]], [c[0] for c in a[3]], '%s: children', path)
    for k, (c, d) in enumerate(zip(a[3], b[3])):
        compare(mon, c, d, '%s[%d]' % (path, k))


def check(case, mon):
    a = doc.canon(built(case, 'float').get_element(), IDS)
    b = doc.canon(built(case, case['form']).get_element(), IDS)
    compare(mon, a, b)
    mon.ev('form_' + case['form'])
    mon.key(case['form'], case['kind'], nets.shape(case['net']) if case['kind'] == 'net' else case['what'], case['seed'])
