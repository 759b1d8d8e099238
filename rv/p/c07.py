"""C07: adjusting places every road or refuses."""
import random
import sys

from .. import build, doc, nets, spice
from ..core import Violation

NUM = {'quick': 3600, 'thorough': 78000}
SPICE = spice.NET
RULE = ('forests of 1..3 random networks (disjoint ids, anchored or not, roads of the components interleaved), networks with a road or its '
        'links taken out; adjusted under a logical step limit (line events traced inside pyodrx); oracle: reachability over the declared '
        'road links from the anchored (or first) roads decides between "every road placed" and UndefinedRoadNetwork; start poses compared '
        'exactly; distinct = (shape, outcome)')


def gen(rng, i):
    k = rng.choice([1, 1, 1, 2, 2, 3])
    parts = []
    for _ in range(k):
        n = nets.many(rng, [1, 1, 2, 3, 5, 7], 70, 0.01)
        anchor = rng.choice(['none', 'first', 'one', 'some', 'one']) if k > 1 else rng.choice(['none', 'none', 'one', 'some', 'all'])
        net = nets.Net(rng)
        if rng.random() < 0.15:
            net.ring(rng.choice([1, 2, 3, 4]), rng.random() < 0.5)
        elif n == 1:
            net.ordinary()
        else:
            net.grow(n, offsets=0.3, series=0.1, half=0.1)
        net.lanes()
        parts.append((net, anchor))
    # disjoint ids over all parts
    total = sum(len(p.roads) for p, _ in parts)
    spec = {'name': 'forest', 'roads': [], 'junctions': []}
    pool = nets.idpool(rng, total)
    jbase = rng.choice([0, 1, 5, 1000])
    for net, anchor in parts:
        n = len(net.roads)
        mine, pool = pool[:n], pool[n:]
        save = nets.idpool
        nets.idpool = lambda r, m, mine=mine: mine
        try:
            s = net.finish(anchor)
        finally:
            nets.idpool = save
        js = {}
        for j in s['junctions']:
            js[j['id']] = jbase
            jbase += 1
        for r in s['roads']:
            if r.get('jid') is not None:
                r['jid'] = js[r['jid']]
            for key in ('pred', 'suc'):
                if r.get(key) and r[key]['t'] == 'junction':
                    r[key]['id'] = js[r[key]['id']]
        spec['roads'] += s['roads']
    cut = None
    if rng.random() < 0.25 and len(spec['roads']) > 2:
        cons = [r for r in spec['roads'] if r.get('jid', -1) != -1]
        if cons:
            cut = rng.choice(cons)
            spec['roads'] = [r for r in spec['roads'] if r is not cut]
    rng.shuffle(spec['roads'])
    return {'net': spec, 'cut': bool(cut)}


def fixed():
    """ long chains of roads, with and without junctions, in every order, anchored anywhere or not, whole or with a gap """
    rng = random.Random('c07')
    res = []
    for n, junctions in ((130, False), (300, False), (121, True), (241, True), (1200, False), (1101, True)):
        for order in ('forth', 'back', 'random', 'inside out') if n < 1000 else ('forth', 'back') if not junctions else ('inside out',):
            roads = []
            for k in range(n):
                r = {'id': k, 'geoms': [{'k': 'line', 'length': 5}] if k % 3 else [{'k': 'arc', 'curvature': 0.01, 'length': 3}], 'sections': [{'s': 0, 'L': [3], 'R': [3]}]}
                con = junctions and k % 2 == 1
                if con:
                    r['jid'] = k
                for key, q, c in (('pred', k - 1, 'end'), ('suc', k + 1, 'start')):
                    if 0 <= q < n:
                        r[key] = {'t': 'road', 'id': q, 'c': c} if con or not junctions else {'t': 'junction', 'id': q, 'c': None}
                roads.append(r)
            anchor = rng.choice([None, 0, n - 1, n // 2]) if n < 1000 else {'forth': n - 1, 'back': 0}.get(order)
            if anchor is not None:
                roads[anchor]['start'] = [10, -20, 0.5]
            cut = order == 'random' and junctions
            js = [{'id': r['jid'], 'auto': 1, 'cons': [r['id']], 'arms': [r['id'] - 1, r['id'] + 1]} for r in roads if 'jid' in r]
            if cut:
                # the chain is broken in two: one arm knows nothing of the road that is missing
                gone = roads[n // 2 | 1]
                js = [j for j in js if j['id'] != gone['id']]
                roads.remove(gone)
            if order == 'back':
                roads.reverse()
            elif order == 'random':
                rng.shuffle(roads)
            elif order == 'inside out':
                roads.sort(key=lambda r: abs(r['id'] - n // 2))
            res.append({'net': {'name': 'chain', 'roads': roads, 'junctions': js}, 'cut': cut})
    return res


class TooLong(Exception):
    pass


def _limited(fun, limit):
    n = [0]

    def local(frame, event, arg):
        n[0] += 1
        if n[0] > limit:
            raise TooLong()
        return local

    def tracer(frame, event, arg):
        if 'pyodrx' in frame.f_code.co_filename and frame.f_code.co_filename.endswith(('opendrive.py', 'links.py')):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fun()
    finally:
        sys.settrace(old)


def check(case, mon):
    pyodrx = build.pyodrx
    spec = case['net']
    od = build.network(spec, adjust=False)
    n = len(spec['roads'])
    lanes = sum(len(s['L']) + len(s['R']) for r in spec['roads'] for s in r['sections'])
    reach = nets.placeable(spec)
    full = len(reach) == n
    refused = None
    try:
        if n > 1000:
            # deeper than any recursion is allowed to be; not traced, because that takes too long
            od.adjust_roads_and_lanes()
            mon.ev('deep')
        else:
            _limited(od.adjust_roads_and_lanes, 40000 * (n + 2) ** 2 + 2000 * lanes)
    except TooLong:
        raise Violation('adjust_roads_and_lanes does not finish: %d roads, more than %d steps' % (n, 40000 * (n + 2) ** 2))
    except pyodrx.UndefinedRoadNetwork as e:
        refused = e
    mon.ev('assertions')
    if full:
        mon.that(refused is None, 'refused with UndefinedRoadNetwork although every road is connected: %s', refused)
        mon.ev('placed')
        d = doc.of(od)
        mon.eq(sorted(r.id for r in d.roads), sorted(str(r['id']) for r in spec['roads']), 'roads written')
        for r, s in zip(d.roads, spec['roads']):
            mon.eq(len(r.geoms), len(s['geoms']), 'geometry records of road %s', r.id)
            o = od.roads[str(s['id'])]
            mon.that(None not in o.planview.get_start_point() and None not in o.planview.get_end_point(), 'road %s has no start or end point', r.id)
            mon.eq(tuple(o.get_end_point()), tuple(o.planview.get_end_point()), 'end point of road %s and its plan view', r.id)
            if s.get('start'):
                mon.eq(list(r.geoms[0].pose), [float(v) for v in s['start']], 'start pose of the anchored road %s', r.id)
                mon.ev('anchored')
        if not any(s.get('start') for s in spec['roads']):
            mon.eq(list(d.roads[0].geoms[0].pose), [0.0, 0.0, 0.0], 'start pose of the first road %s', d.roads[0].id)
            mon.ev('pivot')
    else:
        mon.that(refused is not None, 'accepted although roads %s are not connected to a placed one', sorted(set(str(r['id']) for r in spec['roads']) - reach))
        mon.ev('refused')
    mon.key(nets.shape(spec), full)
