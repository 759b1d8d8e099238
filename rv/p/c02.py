"""C02: from-end placement inverts from-start placement."""
import math

from .. import build, nets, ref
from . import c01

NUM = {'quick': 15000, 'thorough': 250000}
BIG = 0
RULE = ('random elements as in C01; each is run forwards and then asked for its start from the pose reached (and, on a fresh element, the '
        'other way round), and placed from its end inside a plan view; oracle: the original pose; distinct as in C01')


def fixed():
    return [dict(c, first=f) for c in c01.fixed() for f in ('end', 'start')]


def gen(rng, i):
    return dict(c01.gen(rng, i), first=rng.choice(['end', 'start']))


def _near(mon, got, want, L, what):
    d = math.hypot(got[0] - want[0], got[1] - want[1])
    mon.within(d, 1e-7 * L + 2e-9 + 1e-13 * (abs(want[0]) + abs(want[1])), '%s: position (%r, %r) is %g away from (%r, %r)', what, got[0], got[1], d, want[0], want[1])
    mon.within(abs(ref.wrap(got[2] - want[2])), 1e-11 * (1 + abs(want[2]) + abs(got[2])), '%s: heading %r instead of %r', what, got[2], want[2])


def check(case, mon):
    e, pose = case['e'], case['pose']
    obj = build.element(e, case.get('num', 'py'))
    if case['first'] == 'end':
        x, y, h, L = [float(v) for v in obj.get_end_data(*pose)]
        bx, by, bh, bL = [float(v) for v in obj.get_start_data(x, y, h + math.pi)]
        _near(mon, (bx, by, bh - math.pi), pose, L, 'end then start of %s' % e['k'])
    else:
        # the pose is taken as the pose at the end
        bx, by, bh, bL = [float(v) for v in obj.get_start_data(pose[0], pose[1], pose[2] + math.pi)]
        x, y, h, L = [float(v) for v in obj.get_end_data(bx, by, bh - math.pi)]
        _near(mon, (x, y, h), pose, L, 'start then end of %s' % e['k'])
    mon.close(bL, L, 1e-9 * L, 'lengths of the two directions')
    mon.ev('roundtrip_' + e['k'] + '_' + case['first'])
    # the same through a plan view placed from its end
    pv = build.pyodrx.PlanView()
    pv.add_geometry(build.element(e))
    pv.set_start_point(pose[0], pose[1], pose[2] + math.pi)
    pv.adjust_geometries(True)
    sx, sy, sh = [float(v) for v in pv.get_start_point()]
    fx, fy, fh, fL = [float(v) for v in build.element(e).get_end_data(sx, sy, sh)]
    _near(mon, (fx, fy, fh), pose, L, 'plan view from its end, %s' % e['k'])
    g = build.tree(pv.get_element()).find('geometry')
    _near(mon, (float(g.get('x')), float(g.get('y')), float(g.get('hdg'))), (sx, sy, sh), L, 'written record of %s' % e['k'])
    r = ref.Elem(e)
    sg = tuple((v > 0) - (v < 0) for v in (e.get('curvature', 0), e.get('curvstart', 0), e.get('curvend', 0), e.get('angle', 0) or 0))
    mon.key(e['k'], case['first'], sg, int(math.log10(r.length)), int(pose[2] // (math.pi / 4)))
