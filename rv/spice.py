"""Features that have nothing to do with the property under test, added to the roads of a case.

A network property (placement, links, junction tables..) must not depend on the types of the lanes, their marks,
the objects and signals of a road, its name or its traffic rule.  `sprinkle` marks roads of a generated case with
'spice': [seed, flags]; `apply` (called by build.road and build.steps) turns such a specification into one with
those features.  The checks read the plain specification.

flags: t lane types, m road marks, c centre lane, s offset of the width, p other width coefficients, w zero widths,
o objects, g signals, n name, r rule, N neighbours
"""
import random

from . import rich

NET = 'tmcsognrN'       # what never matters for placing and linking roads


def _roads(x):
    if isinstance(x, dict):
        if 'geoms' in x and 'sections' in x:
            yield x
        else:
            for k in sorted(x):
                yield from _roads(x[k])
    elif isinstance(x, list):
        for v in x:
            yield from _roads(v)


def sprinkle(case, rng, flags):
    """ in place; whole networks alike, single roads of them, or none """
    how = rng.choice(['none', 'none', 'all', 'some', 'one kind'])
    if how == 'none':
        return case
    few = ''.join(sorted(rng.sample(flags, rng.choice([1, 1, 2, 3]))))
    for r in _roads(case):
        if how == 'all' or rng.random() < 0.5:
            r['spice'] = [rng.randrange(10 ** 6), few if how == 'one kind' else flags]
    return case


def apply(spec):
    if not spec.get('spice'):
        return spec
    seed, flags = spec['spice']
    rng = random.Random(seed)
    spec = dict(spec)
    del spec['spice']
    # lanes of one kind, or each of its own
    uni = {'type': rng.choice(rich.LANES)} if rng.random() < 0.3 else None
    zero = rng.choice([0, 0.3, 1])

    def lane(l, center=False):
        if isinstance(l, dict):
            return l
        d = {'a': l}
        if 'w' in flags and not center and rng.random() < zero:
            d['a'] = 0
        if 't' in flags and (uni or rng.random() < 0.6):
            d['type'] = uni['type'] if uni else rng.choice(rich.LANES)
        if 'm' in flags and rng.random() < 0.6:
            d['mark'] = rich.mark(rng)
            d['late'] = rng.random() < 0.3
        if 's' in flags and rng.random() < 0.4:
            d['soffset'] = rng.choice([0, 1, 2.5, 100])
        if 'p' in flags:
            for k, v in (('b', 0.01), ('c', -0.001), ('d', 1e-5)):
                if rng.random() < 0.3:
                    d[k] = v
        return d if len(d) > 1 or not d['a'] else l
    if 'sections' in spec:
        secs = []
        for s in spec['sections']:
            s = dict(s)
            for side in 'LR':
                s[side] = [lane(l) for l in s[side]]
            if 'c' in flags:
                s['C'] = lane(s.get('C', 0), True)
            secs.append(s)
        spec['sections'] = secs
    if 'o' in flags and 'objects' not in spec and rng.random() < 0.5:
        spec['objects'] = [dict(rich.obj(rng), id='spice %d' % k) for k in range(rng.choice([1, 1, 2, 5]))]
        spec['objlist'] = rng.random() < 0.5
    if 'g' in flags and 'signals' not in spec and rng.random() < 0.5:
        spec['signals'] = [dict(rich.signal(rng), id='spice %d' % k) for k in range(rng.choice([1, 1, 2, 5]))]
        spec['siglist'] = rng.random() < 0.5
    if 'n' in flags and spec.get('name') is None and rng.random() < 0.5:
        spec['name'] = rich.text(rng)
    if 'r' in flags and spec.get('rule') is None and rng.random() < 0.5:
        spec['rule'] = rng.choice(['RHT', 'LHT'])
    if 'N' in flags and 'nb' not in spec and rng.random() < 0.3:
        spec['nb'] = [{'t': rng.choice(['road', 'road', 'junction']), 'id': rng.choice([spec['id'], 0, 1, 2, 5, 'a', 'nowhere']), 'dir': rng.choice(['same', 'opposite'])}
                      for _ in range(rng.choice([1, 2]))]
    return spec
