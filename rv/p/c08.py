"""C08: lane numbering."""
import random

from .. import build, doc, nets, rich

NUM = {'quick': 12000, 'thorough': 250000}
RULE = ('random roads of 1..5 lane sections; lanes (each with a width, or slope of the width, of its own, so that every written lane is recognised; of every type, with and without marks) added in random '
        'interleavings of left and right over all sections, 0..15 per side, partly before and partly after the section was added to its road '
        'and after the document was asked for; oracle: reference counter per section and side; distinct = addition sequence')


def gen(rng, i):
    n = nets.many(rng, [1, 1, 2, 3, 5], 30, 0.01)
    ops = []
    for k in range(n):
        l, r = rng.choice([(0, 0), (1, 1), (0, 2), (3, 0), (nets.many(rng, range(16), 40, 0.02), nets.many(rng, range(16), 40, 0.02)), (rng.randint(0, 4), rng.randint(0, 4))])
        ops += [[k, 'L']] * l + [[k, 'R']] * r
    mode = rng.random()
    if mode < 0.6:
        rng.shuffle(ops)
    elif mode < 0.8:
        ops.sort(key=lambda o: o[0])
    attach = [rng.choice([0, len(ops), rng.randint(0, len(ops))]) for _ in range(n)]
    if mode > 0.4:
        attach = [0] * n
    attach.sort()
    s = sorted(rng.sample(range(1, 1000), n - 1))
    return {'s': [0] + [v / 8 for v in s], 'ops': [list(o) for o in ops], 'attach': attach, 'look': rng.random() < 0.3,
            'reuse': rng.random() < 0.1,
            'zero': rng.random() < 0.3, 'kinds': rng.choice(['', '', 'all', rng.choice(rich.LANES)]), 'seed': rng.randrange(10 ** 6)}


def fixed():
    return [{'s': [0], 'ops': [], 'attach': [0], 'look': False, 'reuse': False},
            {'s': [0], 'ops': [[0, 'L']] * 12 + [[0, 'R']] * 12, 'attach': [0], 'look': True, 'reuse': False},
            {'s': [0, 1], 'ops': [[0, 'L'], [1, 'R'], [0, 'R'], [1, 'L']] * 4, 'attach': [3, 3], 'look': True, 'reuse': False}]


def check(case, mon):
    P = build.pyodrx
    secs = [P.LaneSection(s, P.Lane(a=1000 + k)) for k, s in enumerate(case['s'])]
    lanes = P.Lanes()
    pv = P.PlanView()
    pv.add_geometry(P.Line(1000))
    road = P.Road(1, pv, lanes)
    od = P.OpenDrive('n')
    od.add_road(road)
    od.adjust_roads_and_lanes()
    done = 0
    want = [{'left': [], 'right': []} for _ in secs]

    def attach(upto):
        nonlocal done
        while done < len(secs) and case['attach'][done] <= upto:
            lanes.add_lanesection(secs[done])
            done += 1
    w = 1
    zero, kinds, rng = case.get('zero'), case.get('kinds'), random.Random(case.get('seed'))
    for j, (k, side) in enumerate(case['ops']):
        attach(j)
        # the number that tells the lanes apart is their width, or the second coefficient of lanes that start with no width
        kw = {'b': w} if zero else {'a': w}
        if kinds:
            kw['lane_type'] = P.LaneType[rng.choice(rich.LANES) if kinds == 'all' else kinds]
        ln = P.Lane(**kw)
        if kinds and rng.random() < 0.3:
            ln.add_roadmark(build.roadmark(rich.mark(rng)))
        if side == 'L':
            secs[k].add_left_lane(ln)
            lst = want[k]['left']
            lst.append((len(lst) + 1, w))
        else:
            secs[k].add_right_lane(ln)
            lst = want[k]['right']
            lst.append((-len(lst) - 1, w))
        mon.eq(ln.lane_id, lst[-1][0], 'lane_id of the lane just added to section %d', k)
        w += 1
        if case['look'] and j % 3 == 0:
            od.get_element()
    attach(len(case['ops']))
    root = doc.of(od).root
    coef = 'b' if zero else 'a'
    got = root.findall('road/lanes/laneSection')
    mon.eq([float(e.get('s')) for e in got], [float(s) for s in case['s']], 'start of the lane sections written')
    for k, e in enumerate(got):
        seen = {'left': [], 'center': [], 'right': []}
        for side in e:
            mon.that(side.tag in seen, 'section %d: unexpected child %s', k, side.tag)
            for l in side.findall('lane'):
                seen[side.tag].append((l.get('id'), [float(x.get(coef if side.tag != 'center' else 'a')) for x in l.findall('width')]))
        for tag in seen:
            mon.that(len(e.findall(tag)) <= 1, 'section %d: several groups %s', k, tag)
        mon.eq(seen['center'], [('0', [1000.0 + k])], 'centre lane of section %d', k)
        for tag in ('left', 'right'):
            exp = sorted((str(i), [float(x)]) for i, x in want[k][tag])
            mon.eq(sorted(seen[tag]), exp, '%s lanes (id, width) of section %d', tag, k)
            mon.ev('lanes', len(exp))
    mon.key(case['ops'], len(case['s']))
