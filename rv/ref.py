"""Independent reference geometry: follows curves by numerical integration of their definition (Gauss-Legendre),
sharing nothing with pyodrx (no Fresnel integrals, no closed arcs)."""
import math

_X10 = [0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717]
_W10 = [0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881]
NODES = [(-x, w) for x, w in zip(_X10, _W10)] + list(zip(_X10, _W10))


def integrate(f, a, b, n):
    """ composite Gauss-Legendre of a tuple valued function """
    h = (b - a) / n
    acc = None
    for i in range(n):
        m = a + (i + 0.5) * h
        for x, w in NODES:
            v = f(m + 0.5 * h * x)
            if acc is None:
                acc = [0.0] * len(v)
            for j in range(len(v)):
                acc[j] += v[j] * w * 0.5 * h
    return acc


def follow(k0, k1, length):
    """ local end pose after following a curve whose curvature goes linearly from k0 to k1 """
    k0, k1, length = float(k0), float(k1), float(length)
    n = int(max(abs(k0), abs(k1)) * abs(length) / 0.7) + 1

    def f(s):
        th = k0 * s + 0.5 * (k1 - k0) * s * s / length
        return math.cos(th), math.sin(th)
    x, y = integrate(f, 0.0, length, n)
    return x, y, 0.5 * (k0 + k1) * length


class Elem(object):
    """ a geometry element given by its parameters """

    def __init__(self, spec):
        self.k = k = spec['k']
        self.spec = spec
        if k == 'line':
            self.length = float(spec['length'])
            self.delta = (self.length, 0.0, 0.0)
        elif k == 'arc':
            c = spec['curvature']
            self.length = float(spec['length']) if spec.get('length') is not None else abs(spec['angle'] / c)
            self.delta = follow(c, c, self.length)
        elif k == 'spiral':
            a, b = spec['curvstart'], spec['curvend']
            if spec.get('length') is not None:
                self.length = float(spec['length'])
            elif spec.get('angle') is not None:
                self.length = abs(spec['angle']) / abs(0.5 * (a + b))
            else:
                self.length = (b - a) / spec['cdot']
            self.delta = follow(a, b, self.length)
        elif k == 'pp3':
            u, v = spec['u'], spec['v']

            def du(p):
                return u[1] + 2 * u[2] * p + 3 * u[3] * p * p

            def dv(p):
                return v[1] + 2 * v[2] * p + 3 * v[3] * p * p
            if spec['prange'] == 'normalized':
                p = 1.0
                self.length = integrate(lambda q: (math.hypot(du(q), dv(q)),), 0.0, 1.0, 60)[0]
            else:
                p = self.length = float(spec['length'])
            self.delta = (u[0] + u[1] * p + u[2] * p ** 2 + u[3] * p ** 3, v[0] + v[1] * p + v[2] * p ** 2 + v[3] * p ** 3,
                          math.atan2(dv(p), du(p)))
        else:
            raise ValueError(k)

    def end(self, pose):
        return compose(pose, self.delta)


def compose(pose, delta):
    x, y, h = pose
    c, s = math.cos(h), math.sin(h)
    return x + delta[0] * c - delta[1] * s, y + delta[0] * s + delta[1] * c, h + delta[2]


def relative(a, b):
    """ b as seen from a """
    dx, dy = b[0] - a[0], b[1] - a[1]
    c, s = math.cos(a[2]), math.sin(a[2])
    return dx * c + dy * s, -dx * s + dy * c, wrap(b[2] - a[2])


def flip(pose):
    return pose[0], pose[1], pose[2] + math.pi


def inverse(delta):
    return relative(delta, (0.0, 0.0, 0.0))


def left(pose, t):
    """ the point at lateral distance t (left positive) """
    return pose[0] - t * math.sin(pose[2]), pose[1] + t * math.cos(pose[2])


def wrap(a):
    return math.remainder(a, 2 * math.pi) if hasattr(math, 'remainder') else (a + math.pi) % (2 * math.pi) - math.pi


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def chain(elems, pose):
    """ poses at all element borders """
    res = [pose]
    for e in elems:
        res.append(e.end(res[-1]))
    return res


def reverse_spec(spec):
    """ the element driven backwards (line, arc, spiral only) """
    if spec['k'] == 'line':
        return dict(spec)
    if spec['k'] == 'arc':
        r = dict(spec)
        r['curvature'] = -spec['curvature']
        return r
    if spec['k'] == 'spiral':
        r = dict(spec)
        r['curvstart'], r['curvend'] = -spec['curvend'], -spec['curvestart'] if 'curvestart' in spec else -spec['curvstart']
        return r
    raise ValueError(spec['k'])


def mirror_spec(spec):
    r = dict(spec)
    if spec['k'] == 'arc':
        r['curvature'] = -spec['curvature']
    elif spec['k'] == 'spiral':
        r['curvstart'], r['curvend'] = -spec['curvstart'], -spec['curvend']
        if r.get('cdot') is not None:
            r['cdot'] = -r['cdot']
    elif spec['k'] == 'pp3':
        r['v'] = [-a for a in spec['v']]
    return r
