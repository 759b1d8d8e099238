"""C27: lane linkers."""
from .. import build, doc, nets, spice

NUM = {'quick': 9000, 'thorough': 250000}
RULE = ('random roads of 2..5 sections with 0..5 lanes per side and random sets of declared pairs per border (straight, merge, split, crossing '
        'sides, centre lane, dropped lanes, pairs declared in random order, some declared twice); linkers one per border, one shared, as '
        'lists (also repeated), given with every section or only with the last, pairs added to a linker after its first use; oracle: set of '
        'declared pairs; distinct = (pairs, linker mode)')


def gen(rng, i):
    n = nets.many(rng, [2, 2, 3, 4, 5], 24, 0.01)
    secs = []
    for k in range(n):
        l, r = rng.choice([(1, 1), (2, 2), (0, 3), (rng.randint(0, 5), rng.randint(0, 5)), (rng.randint(0, 12), 1), (nets.many(rng, [1, 2], 30, 0.04), 2)])
        secs.append([l, r])
    pairs = []
    ids = lambda s: list(range(1, s[0] + 1)) + [-v for v in range(1, s[1] + 1)]
    for a, b in zip(secs, secs[1:]):
        A, B = ids(a), ids(b)
        pp = []
        style = rng.choice(['same', 'random', 'merge', 'split', 'none'])
        if style == 'same':
            pp = [[x, x] for x in A if x in B and rng.random() < 0.9]
        elif style == 'random' and A and B:
            pp = [[rng.choice(A), rng.choice(B)] for _ in range(nets.many(rng, range(1, 7), 60, 0))]
        elif style == 'merge' and A and B:
            t = rng.choice(B)
            pp = [[x, t] for x in A if rng.random() < 0.7]
        elif style == 'split' and A and B:
            t = rng.choice(A)
            pp = [[t, x] for x in B if rng.random() < 0.7]
        if rng.random() < 0.1:
            pp.append([0, 0])
        seen, uniq = set(), []
        for p in pp:
            if tuple(p) not in seen:
                seen.add(tuple(p))
                uniq.append(p)
        rng.shuffle(uniq)
        pairs.append(uniq)
    return {'secs': secs, 'pairs': pairs, 'mode': rng.choice(['each', 'shared', 'list', 'biglist', 'last', 'listlast', 'grow', 'dup', 'early']), 'con': rng.random() < 0.1,
            'spice': rng.choice([None, [rng.randrange(10 ** 6), rng.choice(['tmcspw', 't', 'w', 'm', 's'])]])}


def check(case, mon):
    P = build.pyodrx
    secs = [{'s': 10 * k, 'L': [3] * l, 'R': [3] * r} for k, (l, r) in enumerate(case['secs'])]
    secs = [build.lanesection(s) for s in spice.apply({'spice': case['spice'], 'sections': secs})['sections']]
    mode = case['mode']
    nb = len(case['pairs'])
    lks = [P.LaneLinker() for _ in range(nb)]
    one = lks[0]

    def fill(lk, k):
        for a, b in case['pairs'][k]:
            x, y = build.lane_of(secs[k], a), build.lane_of(secs[k + 1], b)
            if case['con']:
                lk.add_link(x, y, 7)
            else:
                lk.add_link(x, y)
    if mode in ('shared', 'last', 'early'):
        for k in range(nb):
            fill(one, k)
    elif mode != 'grow':
        for k in range(nb):
            fill(lks[k], k)
    ls = P.Lanes()
    for k, s in enumerate(secs):
        if mode == 'each':
            ls.add_lanesection(*((s, lks[k - 1]) if k else (s,)))
        elif mode == 'dup':
            ls.add_lanesection(s, [lks[max(0, k - 1)]] * 2 + [lks[min(k, nb - 1)]])
        elif mode == 'shared':
            ls.add_lanesection(s, one)
        elif mode == 'list':
            ls.add_lanesection(s, [lks[k - 1]] if k else None)
        elif mode == 'biglist':
            ls.add_lanesection(s, lks)
        elif mode == 'last':
            ls.add_lanesection(*((s, one) if k == nb else (s,)))
        elif mode == 'early':
            ls.add_lanesection(*((s, one) if k == 0 else (s,)))
        elif mode == 'listlast':
            ls.add_lanesection(*((s, lanelinks_(lks)) if k == nb else (s,)))
        elif mode == 'grow':
            if k:
                fill(one, k - 1)
            ls.add_lanesection(s, one)
    pv = P.PlanView()
    pv.add_geometry(P.Line(100))
    od = P.OpenDrive('n')
    od.add_road(P.Road(1, pv, ls))
    od.adjust_roads_and_lanes()
    d = doc.of(od).roads[0]
    mon.eq(len(d.sections), len(secs), 'sections')
    want = dict(((k, i), []) for k, (l, r) in enumerate(case['secs']) for i in range(-r, l + 1))
    total = 0
    for k, pp in enumerate(case['pairs']):
        for a, b in pp:
            want[(k, a)].append(('successor', str(b)))
            want[(k + 1, b)].append(('predecessor', str(a)))
            total += 1
    for k, s in enumerate(d.sections):
        for l in s.lanes:
            mon.eq(sorted(l.links), sorted(want.pop((k, l.id))), 'links of lane %d in section %d (linkers: %s)', l.id, k, mode)
    mon.eq(want, {}, 'lanes not written')
    mon.ev('pairs', total)
    if total:
        mon.key(case['secs'], case['pairs'], mode)


def lanelinks_(lks):
    return list(lks)
