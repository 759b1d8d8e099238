"""C01: end pose of an element = integral of its curve."""
import math

from .. import build, nets, ref

NUM = {'quick': 18000, 'thorough': 250000}
BIG = 0
RULE = ('random elements of all four kinds (lengths 1e-3..1e5, curvatures +-1e-6..1, zero, equal, nearly equal and sign-changing, '
        'angle/cdot/length forms, turns up to 20 rad, both polynomial ranges) asked for their end pose from random start poses; oracle: '
        'independent Gauss-Legendre integration of the curve; distinct = (kind, form, signs, decades of curvature and length, heading octant)')


def fixed():
    res = []
    P = [0.3, -7.5, 2.0]
    for c in (0.1, -0.1, 1e-6, -1):
        for a in (0.5, -0.5, 3.5, 7, -12.25):
            res.append({'e': {'k': 'arc', 'curvature': c, 'angle': a}, 'pose': P})
        res.append({'e': {'k': 'arc', 'curvature': c, 'length': 3}, 'pose': P})
    for a, b in ((0, 0.1), (0.1, 0), (0, -0.1), (-0.1, 0), (0.1, 0.1), (-0.1, -0.1), (0.1, -0.1), (0.05, -0.2), (0, 0), (1e-9, 0.1),
                 (0.1, 1e-9), (0.1, 0.1000000001), (0.02, 0.0200001), (1e-7, 2e-7)):
        res.append({'e': {'k': 'spiral', 'curvstart': a, 'curvend': b, 'length': 20}, 'pose': P})
        if a + b:
            for ang in (0.4, -0.4, 2.5):
                res.append({'e': {'k': 'spiral', 'curvstart': a, 'curvend': b, 'angle': ang}, 'pose': P})
        if a != b:
            res.append({'e': {'k': 'spiral', 'curvstart': a, 'curvend': b, 'cdot': (b - a) / 17.0}, 'pose': P})
    for u, v in (([0, 10, 0, 0], [0, 0, 3, -1]), ([0, 10, 2, -1], [0, 0, 0, 4]), ([0, 5, 0, 0], [0, 2, 0, 0]), ([0, 10, 0, 0], [0, 0, 0, 0]),
                 ([0, 10, 0, 0], [0, 0, 0, -3]), ([0, 10, -5, 0], [0, 0, 10, 0]), ([0, 10, -5, 0], [0, 0, -10, 0]), ([0, 0, 0, 5], [0, 7, 0, 0])):
        res.append({'e': {'k': 'pp3', 'u': u, 'v': v, 'prange': 'normalized'}, 'pose': P})
        res.append({'e': {'k': 'pp3', 'u': u, 'v': v, 'prange': 'normalized', 'implicit': 1}, 'pose': P})
        res.append({'e': {'k': 'pp3', 'u': [1.0 * x / 10 ** i for i, x in enumerate(u)], 'v': [1.0 * x / 10 ** i for i, x in enumerate(v)],
                          'prange': 'arcLength', 'length': 9}, 'pose': P})
    res.append({'e': {'k': 'line', 'length': 12}, 'pose': P})
    return res


def gen(rng, i):
    e = nets.elem(rng, wild=rng.random() < 0.7)
    return {'e': e, 'pose': nets.pose(rng), 'num': rng.choice(['py', 'py', 'np']), 'twice': rng.random() < 0.2}


def check(case, mon):
    e, pose = case['e'], case['pose']
    r = ref.Elem(e)
    obj = build.element(e, case.get('num', 'py'))
    for _ in range(2 if case.get('twice') else 1):
        x, y, h, L = [float(v) for v in obj.get_end_data(*pose)]
        want = r.end(pose)
        mon.ev('end_pose_' + e['k'])
        mon.close(L, r.length, (1e-7 if e['k'] == 'pp3' else 1e-9) * r.length, 'length')
        d = math.hypot(x - want[0], y - want[1])
        t = 1e-7 * r.length + 1e-9 + 1e-13 * (abs(pose[0]) + abs(pose[1]))
        mon.within(d, t, 'end position (%r, %r), the curve ends at (%r, %r): %g apart', x, y, want[0], want[1], d)
        dh = abs(ref.wrap(h - want[2]))
        mon.within(dh, 1e-11 * (1 + abs(want[2]) + abs(r.delta[2])), 'end heading %r, the curve ends with %r', h, want[2])
    # the length in the written record is the same
    pv = build.pyodrx.PlanView(*pose)
    pv.add_geometry(obj)
    pv.adjust_geometries()
    g = build.tree(pv.get_element()).find('geometry')
    mon.close(float(g.get('length')), r.length, 1e-7 * r.length, 'written length')
    mon.close(float(pv.get_total_length()), r.length, 1e-7 * r.length, 'plan view length')
    form = [k for k in ('length', 'angle', 'cdot', 'prange') if e.get(k) is not None][0] if e['k'] != 'line' else ''
    sg = tuple((v > 0) - (v < 0) for v in (e.get('curvature', 0), e.get('curvstart', 0), e.get('curvend', 0), e.get('angle', 0) or 0))
    kmax = max(abs(e.get('curvature', 0)), abs(e.get('curvstart', 0)), abs(e.get('curvend', 0)))
    dec = int(math.log10(kmax)) if kmax else 0
    mon.key(e['k'], form, sg, dec, int(math.log10(r.length)), int(pose[2] // (math.pi / 4)))
