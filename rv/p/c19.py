"""C19: values of objects, signals, repeats, dependencies."""
import numpy as np

from .. import build, doc, nets, rich

NUM = {'quick': 9000, 'thorough': 140000}
RULE = ('random roads with 0..5 objects (0..3 repeats each) and 0..5 signals with random subsets of the optional arguments; numbers zero, '
        'negative, tiny, huge, integer, numpy; hostile texts; added singly or as lists to 1..3 roads, repeated before or after that; plus signal dependencies; oracle: the '
        'written attribute reads back to exactly the value given (float equality / text equality), attributes not given are absent, and the '
        'sequence of objects and signals per road; distinct = argument subsets')
ASSUME = ['a zero pitch, roll or heading offset may be left out (the standard\'s default)', 'the country code may be written in upper case',
          'a unit is only given together with a value']

NUMERIC_O = {'zOffset': 'zOffset', 'hdg': 'hdg', 'pitch': 'pitch', 'roll': 'roll', 'height': 'height', 'validLength': 'validLength', 'radius': 'radius',
             'width': 'width', 'length': 'length'}
NUMERIC_S = {'zOffset': 'zOffset', 'hOffset': 'hOffset', 'pitch': 'pitch', 'roll': 'roll', 'height': 'height', 'width': 'width', 'value': 'value'}
ORI = {'positive': '+', 'negative': '-', 'none': 'none'}
ZERO_OK = ('pitch', 'roll', 'hOffset')
OPT_O = ('subtype', 'name', 'width', 'length', 'height', 'radius', 'validLength')
OPT_S = ('name', 'width', 'height', 'value', 'unit')
REP = ('heightStart', 'heightEnd', 'widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd', 'zOffsetStart', 'zOffsetEnd',
       'tStart', 'tEnd')


def gen(rng, i):
    roads = []
    for k in range(rng.choice([1, 1, 2, 3])):
        roads.append({'late': rng.random() < 0.3, 'objects': [rich.obj(rng) for _ in range(nets.many(rng, [0, 1, 2, 5], 60, 0.005))], 'objlist': rng.choice([False, True, 'mixed']),
                      'signals': [rich.signal(rng) for _ in range(nets.many(rng, [0, 1, 2, 5], 60, 0.005))], 'siglist': rng.choice([False, True, 'mixed'])})
    return {'roads': roads, 'num': rng.choice(['py', 'py', 'np']), 'dep': [rich.text(rng), rich.text(rng)], 'look': rng.random() < 0.3}


def fixed():
    """ each optional argument alone, zero and non-zero """
    res = []
    for v in (0, 0.0, 1e-7, -2.5, 3, 1e16):
        obs = [{'s': v, 't': v}] + [{'s': 1, 't': 2, k: v} for k in NUMERIC_O] + [{'s': 1, 't': 2, k: t} for k in ('subtype', 'name') for t in ('', 'x', '0')]
        obs += [{'s': 1, 't': 2, 'width': v, 'length': 4}, {'s': 1, 't': 2, 'radius': v, 'width': 1}, {'s': 1, 't': 2, 'radius': v, 'length': 1, 'width': 2}]
        obs += [dict(o, repeats=[{'repeatLength': v, 'repeatDistance': v}] + [{'repeatLength': 10, 'repeatDistance': 2, k: v} for k in REP + ('sStart',)])
                for o in ({'s': 3, 't': 4}, {'s': 3, 't': 4, 'height': 5, 'zOffset': 6}, {'s': 0, 't': 0, 'height': 0})]
        sig = [{'s': v, 't': v, 'country': 'DE', 'Type': '1'}] + [{'s': 1, 't': 2, 'country': 'DE', 'Type': '1', k: v} for k in NUMERIC_S]
        res.append({'roads': [{'objects': obs, 'signals': sig}], 'num': 'py', 'dep': ['1', '2'], 'look': False})
    return res


def conv(o, kind):
    if kind != 'np':
        return o
    res = {}
    for k, v in o.items():
        if k == 'repeats':
            v = [conv(r, kind) for r in v]
        elif isinstance(v, bool) or k in ('id', 'Type', 'subtype', 'name', 'unit', 'country'):
            pass
        elif isinstance(v, float):
            v = np.float64(v)
        elif isinstance(v, int):
            v = np.int64(v)
        res[k] = v
    return res


def number(mon, e, attr, v, what):
    got = e.get(attr)
    mon.that(got is not None or (attr in ZERO_OK and v == 0), '%s: attribute %s is missing (given: %r)', what, attr, v)
    if got is not None:
        try:
            ok = float(got) == float(v)
        except ValueError:
            ok = False
        mon.that(ok, '%s: attribute %s is %r (given: %r)', what, attr, got, v)


def common(mon, e, o, numeric, optional, what):
    number(mon, e, 's', o['s'], what)
    number(mon, e, 't', o['t'], what)
    for k, attr in numeric.items():
        if k in o and not (k in ('width', 'length') and 'radius' in o):
            number(mon, e, attr, o[k], what)
    for k in ('subtype', 'name', 'unit'):
        if k in o:
            mon.eq(e.get(k), str(o[k]), '%s: %s', what, k)
    if 'dynamic' in o:
        mon.eq(e.get('dynamic'), o['dynamic'], '%s: dynamic', what)
    if 'orientation' in o:
        mon.eq(e.get('orientation'), ORI[o['orientation']], '%s: orientation', what)
    if 'Type' in o:
        mon.eq(e.get('type'), str(o['Type']), '%s: type', what)
    for k in optional:
        if k not in o:
            mon.that(e.get(k) is None or (k in ('width', 'length') and 'radius' not in o and ('width' in o or 'length' in o)),
                     '%s: %s was not given but is %r', what, k, e.get(k))
    for k in ZERO_OK:
        if k not in o and e.get(k) is not None:
            number(mon, e, k, 0, what)
    mon.that(e.get('id') not in (None, '', 'None'), '%s: id %r', what, e.get('id'))


def check(case, mon):
    P = build.pyodrx
    od = P.OpenDrive('n')
    specs = []
    for k, r in enumerate(case['roads']):
        r = dict(r)
        for key in ('objects', 'signals'):
            r[key] = [conv(o, case['num']) for o in r.get(key, ())]
        specs.append(r)
        od.add_road(build.road(dict(r, id=k, geoms=[{'k': 'line', 'length': 50}], start=[k, 0, 0], sections=[{'s': 0, 'L': [3], 'R': [3]}])))
    od.adjust_roads_and_lanes()
    if case['look']:
        od.get_element()
    d = doc.of(od)
    for r, e in zip(specs, d.root.findall('road')):
        for key, numeric, optional in (('objects', NUMERIC_O, OPT_O), ('signals', NUMERIC_S, OPT_S)):
            els = e.findall('%s/%s' % (key, key[:-1]))
            mon.eq(len(els), len(r[key]), 'number of %s', key)
            mon.that(len(e.findall(key)) <= 1, 'several <%s>', key)
            for n, (o, x) in enumerate(zip(r[key], els)):
                what = '%s %d' % (key[:-1], n)
                common(mon, x, o, numeric, optional, what)
                mon.ev(key)
                if key == 'objects':
                    if 'radius' in o:
                        mon.that(x.get('width') is None and x.get('length') is None, '%s: radius together with width/length', what)
                    elif ('width' in o) != ('length' in o):
                        number(mon, x, 'length' if 'width' in o else 'width', 0, what)
                    reps = x.findall('repeat')
                    mon.eq(len(reps), len(o.get('repeats', ())), '%s: repeats' % what)
                    for q, (rs, re_) in enumerate(zip(o.get('repeats', ()), reps)):
                        w = '%s repeat %d' % (what, q)
                        number(mon, re_, 'length', rs['repeatLength'], w)
                        number(mon, re_, 'distance', rs['repeatDistance'], w)
                        number(mon, re_, 's', rs.get('sStart', o['s']), w)
                        for k in REP:
                            if k in rs:
                                number(mon, re_, k, rs[k], w)
                            elif k[0] == 't':
                                number(mon, re_, k, o['t'], w)
                            elif k.startswith('zOffset'):
                                number(mon, re_, k, o.get('zOffset', float(x.get('zOffset', 0))), w)
                            elif k.startswith('height') and 'height' in o:
                                number(mon, re_, k, o['height'], w)
                            else:
                                mon.that(re_.get(k) is None, '%s: %s was not given but is %r', w, k, re_.get(k))
                        mon.ev('repeats')
                else:
                    mon.eq(x.get('country', '').upper(), str(o['country']).upper(), '%s: country' % what)
                mon.key(key, sorted(o))
    dep = P.Dependency(*case['dep']).get_element() if hasattr(P, 'Dependency') else None
    if dep is not None:
        mon.eq((dep.tag, dict(dep.attrib)), ('dependency', {'id': case['dep'][0], 'type': case['dep'][1]}), 'dependency')
