"""C06: insertion order does not matter."""
import itertools

from .. import build, doc, nets, ref, spice

NUM = {'quick': 700, 'thorough': 10000}
SPICE = spice.NET
BIG = 12
BIG_MOST = 120
RULE = ('random connected networks (with lane offsets, rings, junctions, anchors) each built in all insertion orders (up to 4 roads) or in 8 '
        'orders (reversed, connecting roads first/last, each position first, random); oracle: all orders give the same relative poses of all '
        'roads and the same lane links; distinct = network shape')


def gen(rng, i):
    spec = nets.direct(rng, nets.gen(rng, rng.choice([2, 3, 4, 4, 6, 8]), offsets=0.3, order=False, series=0.2, half=0.2))
    n = len(spec['roads'])
    if n <= 4:
        orders = [list(p) for p in itertools.permutations(range(n))]
    else:
        con = [k for k in range(n) if spec['roads'][k].get('jid', -1) != -1]
        ordi = [k for k in range(n) if k not in con]
        orders = [list(range(n)), list(range(n))[::-1], con + ordi, ordi + con, con[::-1] + ordi[::-1]]
        while len(orders) < 9:
            o = list(range(n))
            rng.shuffle(o)
            orders.append(o)
    return {'net': spec, 'orders': orders}


def check(case, mon):
    spec = case['net']
    base = None
    anchored = any(r.get('start') for r in spec['roads'])
    extent = sum(nets.length(r) for r in spec['roads'])
    for order in case['orders']:
        od = build.network(spec, order)
        d = doc.of(od)
        mon.eq([r.id for r in d.roads], [str(spec['roads'][k]['id']) for k in order], 'order of the roads written')
        mon.that(all(len(r.geoms) == len(nets.index(spec)[r.id]['geoms']) for r in d.roads), 'a road is not placed (order %s)', order)
        links = doc.lane_links(d)
        pose = doc.poses(d)
        mon.ev('orders')
        ident = str(spec['roads'][0]['id'])
        rel = dict((k, (ref.relative(pose[ident][0], v[0]), ref.relative(pose[ident][0], v[1]))) for k, v in pose.items())
        if base is None:
            base = (links, rel, pose)
            continue
        for k in sorted(links):
            mon.eq(links[k], base[0].get(k), 'links of road %s section %d lane %d (order %s)', k[0], k[1], k[2], order)
        for k in pose:
            cmp_ = [(rel[k], base[1][k])] + ([(pose[k], base[2][k])] if anchored else [])
            for a, b in cmp_:
                for p, q in zip(a, b):
                    t = 1e-5 + 2e-8 * (abs(q[0]) + abs(q[1]) + extent)
                    mon.within(ref.dist(p, q), t, 'road %s is at %r instead of %r (order %s)', k, p[:2], q[:2], order)
                    mon.within(abs(ref.wrap(p[2] - q[2])), 1e-8, 'road %s has heading %r instead of %r (order %s)', k, p[2], q[2], order)
    mon.key(nets.shape(spec))
