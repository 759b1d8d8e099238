"""Adds every other feature of the library to network specifications: lane attributes, marks, objects, signals, names."""
from . import nets

MARKS = ['none', 'solid', 'broken', 'solid_solid', 'solid_broken', 'broken_solid', 'broken_broken', 'botts_dots', 'grass', 'curb', 'custom', 'edge']
LANES = ['none', 'driving', 'stop', 'shoulder', 'biking', 'sidewalk', 'border', 'restricted', 'parking', 'bidirectional', 'median', 'special1',
         'special2', 'special3', 'roadWorks', 'tram', 'rail', 'entry', 'exit', 'offRamp', 'onRamp', 'connectingRamp', 'bus', 'taxi', 'HOV',
         'mwyEntry', 'mwyExit']
COLORS = ['standard', 'blue', 'green', 'red', 'white', 'yellow', 'orange']
OBJECTS = ['none', 'obstacle', 'pole', 'tree', 'vegetation', 'barrier', 'building', 'parkingSpace', 'patch', 'railing', 'trafficIsland',
           'crosswalk', 'streetLamp', 'gantry', 'soundBarrier', 'roadMark']
TEXTS = ['a', 'Main street', 'Stra\u00dfe', 'x & y', '<tag attr="1">', "it's", '"quoted"', '\u4ea4\u5dee\u70b9', '\U0001f6a6 light', '&amp;', ' lead', 'two  blanks ',
         ']]>', '<!-- c -->', '-1', '0', 'None', 'caf\u00e9/\u00e5', '%s {0}', 'a\u2028b', '\u0416\u0443\u043a',
         'two\nlines', 'tab\tbed', 'carriage\rreturn', '\ndos\r\nend\n', '\x85next\x7f', '\u00a0nbsp\ufeff', '\t']


def text(rng):
    t = rng.choice(TEXTS)
    return t if rng.random() < 0.98 else ' '.join([t] * rng.choice([20, 100, 1000]))


def number(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice([0, 0.0, 1, -1, 100])
    if k < 0.4:
        return rng.randint(-1000, 1000)
    if k < 0.5:
        return rng.choice([1e-7, -1e-9, 1e12, -123456789.123, 1e22, 5e-324, 0.1 + 0.2, 12345678912, 10 ** 15 + 1, -7654321.0, 1 / 3., 1e16, 123456.75])
    return rng.uniform(-100, 100)


def positive(rng):
    return rng.choice([rng.uniform(0.01, 50), rng.randint(1, 30), 0.1, 1e-6, 0])


def opt(rng, d, key, val, p=0.4):
    if rng.random() < p:
        d[key] = val


def mark(rng):
    m = {'type': rng.choice(MARKS)}
    opt(rng, m, 'width', rng.choice([0.2, 0.1, 0, rng.uniform(0, 1), 1]))
    opt(rng, m, 'length', rng.choice([3, 0, 2.5, rng.uniform(0, 10)]), 0.35)
    opt(rng, m, 'space', rng.choice([3, 0, 1.5, rng.uniform(0, 10)]), 0.35)
    opt(rng, m, 'toffset', rng.choice([0, 0.25, -0.5, 1]), 0.25)
    opt(rng, m, 'soffset', rng.choice([0, 1, 2.5]), 0.25)
    opt(rng, m, 'rule', rng.choice(['no_passing', 'caution', 'none']), 0.2)
    opt(rng, m, 'color', rng.choice(COLORS))
    opt(rng, m, 'marking_weight', rng.choice(['standard', 'bold']))
    opt(rng, m, 'height', rng.choice([0.02, 0, 0.5]), 0.3)
    opt(rng, m, 'laneChange', rng.choice(['increase', 'decrease', 'both', 'none']), 0.3)
    return m


def lane(rng, width):
    if rng.random() < 0.3:
        return width
    l = {'a': width}
    opt(rng, l, 'type', rng.choice(LANES), 0.5)
    opt(rng, l, 'b', rng.choice([0, 0.01, -0.02]), 0.2)
    opt(rng, l, 'c', rng.choice([0, 0.001, -0.0002]), 0.2)
    opt(rng, l, 'd', rng.choice([0, 1e-5, -1e-7]), 0.2)
    opt(rng, l, 'soffset', rng.choice([0, 1, 2.5]), 0.2)
    opt(rng, l, 'mark', mark(rng) if rng.random() < 0.85 else {'std': rng.choice(['SOLID', 'BROKEN'])}, 0.6)
    if 'mark' in l:
        opt(rng, l, 'late', True, 0.3)
    return l


def obj(rng, ids=None):
    o = {'s': number(rng), 't': number(rng)}
    opt(rng, o, 'Type', rng.choice(OBJECTS), 0.7)
    opt(rng, o, 'subtype', text(rng))
    opt(rng, o, 'id', ids() if ids else rng.choice([0, 7, '12', 'obj']), 0.3)
    opt(rng, o, 'name', text(rng))
    opt(rng, o, 'dynamic', rng.choice(['yes', 'no']))
    opt(rng, o, 'zOffset', number(rng))
    opt(rng, o, 'orientation', rng.choice(['positive', 'negative', 'none']))
    for k in ('hdg', 'pitch', 'roll'):
        opt(rng, o, k, number(rng), 0.3)
    k = rng.random()
    if k < 0.2:
        o['radius'] = positive(rng)
        opt(rng, o, 'width', positive(rng), 0.2)
        opt(rng, o, 'length', positive(rng), 0.2)
    else:
        opt(rng, o, 'width', positive(rng), 0.5)
        opt(rng, o, 'length', positive(rng), 0.5)
    opt(rng, o, 'height', positive(rng), 0.5)
    opt(rng, o, 'validLength', positive(rng), 0.3)
    o['repeats'] = [repeat(rng) for _ in range(nets.many(rng, [0, 0, 0, 1, 2], 60, 0))]
    return o


def repeat(rng):
    r = {'repeatLength': positive(rng), 'repeatDistance': positive(rng)}
    for k in ('sStart', 'tStart', 'tEnd', 'zOffsetStart', 'zOffsetEnd'):
        opt(rng, r, k, number(rng), 0.4)
    for k in ('heightStart', 'heightEnd', 'widthStart', 'widthEnd', 'lengthStart', 'lengthEnd', 'radiusStart', 'radiusEnd'):
        opt(rng, r, k, positive(rng), 0.3)
    return r


def signal(rng, ids=None):
    o = {'s': number(rng), 't': number(rng), 'country': rng.choice(['DE', 'SWE', 'US', 'OpenDRIVE'.upper()]), 'Type': rng.choice(['274', '1000001', 'stop', 205, '0', 0])}
    opt(rng, o, 'subtype', rng.choice(['-1', '10', 'x', 5, 0, '0']))
    opt(rng, o, 'id', ids() if ids else rng.choice([0, 7, '12', 'sig']), 0.3)
    opt(rng, o, 'name', text(rng))
    opt(rng, o, 'dynamic', rng.choice(['yes', 'no']))
    opt(rng, o, 'zOffset', number(rng))
    opt(rng, o, 'orientation', rng.choice(['positive', 'negative', 'none']))
    for k in ('hOffset', 'pitch', 'roll'):
        opt(rng, o, k, number(rng), 0.3)
    opt(rng, o, 'width', positive(rng), 0.5)
    opt(rng, o, 'height', positive(rng), 0.5)
    if rng.random() < 0.4:
        o['value'] = number(rng)
        opt(rng, o, 'unit', rng.choice(['km/h', 'm', '%']), 0.8)
    return o


def decorate(spec, rng, numbers_ok=True, p=0.6):
    """ adds features in place """
    for r in spec['roads']:
        for s in r['sections']:
            if rng.random() < p:
                s['C'] = lane(rng, 0)
            for side in 'LR':
                s[side] = [lane(rng, w) if rng.random() < p else w for w in s[side]]
            if rng.random() < 0.4:
                m = ['L'] * len(s['L']) + ['R'] * len(s['R'])
                rng.shuffle(m)
                s['mix'] = ''.join(m)
        if len(r['sections']) > 1 and rng.random() < p:
            r['pairs'] = []
            for a, b in zip(r['sections'], r['sections'][1:]):
                ids = [i for i in range(1, min(len(a['L']), len(b['L'])) + 1)] + [-i for i in range(1, min(len(a['R']), len(b['R'])) + 1)]
                r['pairs'].append([[i, i] for i in ids if rng.random() < 0.8])
            r['shared'] = rng.random() < 0.5
            r['as_list'] = rng.random() < 0.5
        if rng.random() < p / 2:
            r['objects'] = [obj(rng) for _ in range(nets.many(rng, [1, 2, 3, 4], 100, 0))]
            r['objlist'] = rng.choice([False, True, 'mixed'])
        if rng.random() < p / 2:
            r['signals'] = [signal(rng) for _ in range(nets.many(rng, [1, 2, 3], 100, 0))]
            r['siglist'] = rng.choice([False, True, 'mixed'])
        if rng.random() < 0.3:
            r['name'] = text(rng)
        if rng.random() < 0.15:
            r['rule'] = rng.choice(['RHT', 'LHT'])
        if rng.random() < 0.15:
            others = [o for o in spec['roads'] if o is not r]
            if others:
                r['nb'] = [{'t': 'road', 'id': rng.choice(others)['id'], 'dir': rng.choice(['same', 'opposite'])} for _ in range(rng.randint(1, 2))]
        if rng.random() < p / 4:
            last = r['sections'][-1]
            r['roadside'] = {'proto': obj(rng), 'dist': rng.choice([0, 5, 10.5]), 'side': rng.choice(['both', 'left', 'right']),
                             'sOffset': 0, 'tOffset': rng.choice([0, 1, 0.5, -0.5])}
    spec['name'] = rng.choice(['net', 'my road', 'Stra\u00dfe', 'a & b', 'x.y'])
    return spec


def gen(rng, **kw):
    return decorate(nets.gen(rng, **kw), rng)
