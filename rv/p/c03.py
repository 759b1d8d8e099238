"""C03: pose queries are pure."""
import math

from .. import build, doc, nets, ref

NUM = {'quick': 4500, 'thorough': 100000}
BIG = 0
RULE = ('random histories of 2..10 end/start pose queries, element writings and plan view placements (forwards, backwards, in several plan '
        'views at once) on one shared element object or plan view; oracle: the answer of a freshly built equal element, and the unchanged '
        'document; distinct = (kind, form, history shape)')


def gen(rng, i):
    n = rng.randint(1, 3)
    es = [nets.elem(rng, wild=rng.random() < 0.4) for _ in range(n)]
    ops = []
    # few different coordinates, so that poses agree in some of them
    pool = [nets.pose(rng) for _ in range(2)]
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(['end', 'start', 'write', 'fwd', 'bwd'])
        ps = nets.pose(rng) if rng.random() < 0.3 else [rng.choice(pool)[q] for q in range(3)]
        ops.append([k, rng.randrange(n), ps, [rng.randrange(n) for _ in range(rng.randint(1, 3))]])
    return {'es': es, 'ops': ops}


def fixed():
    """ special elements: symmetric, constant, by angle with the wrong sign """
    es = [{'k': 'spiral', 'curvstart': a, 'curvend': b, 'length': 30} for a, b in ((0.02, -0.02), (-0.02, 0.02), (0.02, 0.02), (0, 0), (0, 0.1), (0.1, 0))]
    es += [{'k': 'spiral', 'curvstart': -0.01, 'curvend': 0.03, 'angle': -0.4}, {'k': 'spiral', 'curvstart': -0.01, 'curvend': 0.01, 'cdot': 0.001},
           {'k': 'arc', 'curvature': 0.1, 'angle': -1}, {'k': 'arc', 'curvature': -0.1, 'angle': 1}, {'k': 'arc', 'curvature': 0.1, 'length': 70},
           {'k': 'line', 'length': 5}, {'k': 'pp3', 'u': [0, 10, 0, 0], 'v': [0, 0, 3, -1], 'prange': 'normalized'},
           {'k': 'pp3', 'u': [0, 1, 0, 0], 'v': [0, 0, .03, -.001], 'prange': 'arcLength', 'length': 10}]
    poses = [[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1], [0, 0, -1], [1, 1, 2]]
    res = []
    for e in es:
        for a in ('end', 'start', 'fwd', 'bwd', 'write'):
            for b in ('end', 'start', 'fwd', 'bwd'):
                res.append({'es': [e], 'ops': [[a, 0, poses[0], [0]]] + [[b, 0, p, [0, 0]] for p in poses]})
    return res


def _ans(v):
    return [float(a) for a in v]


def _place(objs, pose, back):
    pv = build.pyodrx.PlanView()
    for o in objs:
        pv.add_geometry(o)
    pv.set_start_point(*pose)
    if back:
        pv.adjust_geometries(True)
    else:
        pv.adjust_geometries()
    return pv


def _same(mon, got, want, what):
    for a, b in zip(got, want):
        mon.within(abs(a - b), 1e-9 * (1 + abs(b)), '%s: %r, a fresh one gives %r', what, got, want)


def _pv(pv):
    return [_ans(pv.get_start_point()), _ans(pv.get_end_point()), [float(pv.get_total_length())]]


def check(case, mon):
    es = case['es']
    objs = [build.element(e) for e in es]
    first = [doc.canon(build.tree(o.get_element())) for o in objs]
    alive = []
    for n, (op, j, pose, many) in enumerate(case['ops']):
        what = 'query %d (%s of %s)' % (n, op, es[j]['k'])
        mon.ev('query_' + op)
        if op == 'end':
            _same(mon, _ans(objs[j].get_end_data(*pose)), _ans(build.element(es[j]).get_end_data(*pose)), what)
        elif op == 'start':
            _same(mon, _ans(objs[j].get_start_data(*pose)), _ans(build.element(es[j]).get_start_data(*pose)), what)
        elif op == 'write':
            mon.eq(doc.canon(build.tree(objs[j].get_element())), first[j], what)
        else:
            pv = _place([objs[k] for k in many], pose, op == 'bwd')
            fr = _place([build.element(es[k]) for k in many], pose, op == 'bwd')
            for a, b in zip(_pv(pv), _pv(fr)):
                _same(mon, a, b, what)
            t = build.tree(pv.get_element())
            f = build.tree(fr.get_element())
            _records(mon, t, f, what)
            alive.append((pv, f, what))
    for j, o in enumerate(objs):
        mon.eq(doc.canon(build.tree(o.get_element())), first[j], 'element %d written after all queries' % j)
        _same(mon, _ans(o.get_end_data(1, 2, 3)), _ans(build.element(es[j]).get_end_data(1, 2, 3)), 'end pose after all queries')
    for pv, f, what in alive:
        a = _pv(pv)
        t = build.tree(pv.get_element())
        b = _pv(pv)
        mon.eq(b, a, 'plan view of %s asked again' % what)
        _records(mon, t, f, 'plan view of %s after everything' % what)
        _records(mon, build.tree(pv.get_element()), f, 'plan view of %s written again' % what)
    mon.key([e['k'] for e in es], [(o[0], o[1]) for o in case['ops']][:4])


def _records(mon, t, f, what):
    mon.eq(len(t), len(f), 'number of records of ' + what)
    for a, b in zip(t, f):
        mon.eq(doc.canon(a[0]), doc.canon(b[0]), 'shape in ' + what)
        for k in ('s', 'x', 'y', 'hdg', 'length'):
            _same(mon, [float(a.get(k))], [float(b.get(k))], what + ' attribute ' + k)
