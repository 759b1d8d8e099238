"""C17: ids of objects and signals."""
import sys
import threading
from . import c25
from .. import build, doc, nets

NUM = {'quick': 2500, 'thorough': 51000}
RULE = ('random histories of additions of objects and signals (singly, as lists, by roadside placement) to 1..4 roads of 1..2 networks, ids '
        'missing, free, taken, of integer or text type and close to the automatic counter; the reference registry lives as long as the worker '
        'process, so every case continues the history of the ones before; oracle: reference set of used ids per kind; every tenth history is also run in three pristine '
        'processes, whole and with the additions of one kind only (the ids of a kind agree); some histories end with 2..5 threads that each add '
        'objects and signals to a road of their own at the same time (switching every 5 microseconds, half of them in a pristine process): no id twice, a free '
        'text id is kept by exactly one of those that ask for it; distinct = history')
ASSUME = ['the same object is not added twice', 'one process; threads add to different roads']

USED = {'object': set(), 'signal': set()}
STATE = {'n': 0}


def gen(rng, i):
    nr = rng.choice([1, 1, 2, 4])
    ops = []
    for _ in range(nets.many(rng, [1, 3, 6, 12, 20], 100, 0)):
        kind = rng.choice(['object', 'object', 'signal'])
        r = rng.randrange(nr)
        x = rng.random()
        if x < 0.6:
            ops.append(['one', kind, r, ident(rng)])
        elif x < 0.85:
            ops.append(['list', kind, r, [ident(rng) for _ in range(nets.many(rng, [0, 1, 2, 3, 5], 200, 0))]])
        else:
            ops.append(['side', 'object', r, ident(rng), rng.choice(['both', 'left', 'right'])])
    crowd = None
    if i % 12 == 3:
        crowd = {'pristine': i % 24 == 3, 'jobs': [[[rng.choice(['object', 'object', 'signal']), rng.choice([None, None, 'A', 'B', 'crowd %d' % rng.randrange(40), rng.randrange(30), str(rng.randrange(30))])]
                                                    for _ in range(rng.choice([1, 2, 10, 40]))] for _ in range(rng.choice([2, 3, 4, 5]))]}
    return {'crowd': crowd, 'roads': [rng.choice([1, 1, 2, 3]) for _ in range(nr)], 'nets': [rng.randrange(2) for _ in range(nr)], 'ops': ops, 'look': rng.random() < 0.3, 'twin': i % 10 == 0}


def ident(rng):
    """ None: automatic; ['near', k, kind]: k beyond the greatest number used; ['old', k]: the k-th used one; ['text', x] """
    x = rng.random()
    if x < 0.4:
        return None
    if x < 0.75:
        return ['near', rng.randint(-3, 6), rng.choice(['int', 'str'])]
    if x < 0.85:
        return ['old', rng.randrange(10 ** 6), rng.choice(['int', 'str'])]
    return ['text', rng.choice(['a', 'b', 'x%d' % rng.randrange(2000), 'lamp %d' % rng.randrange(50), '-1', '00', '1.0', ' a', 'a ', 'A', '01', '+1', '\u0661', '%d ' % rng.randrange(40)])]


def resolve(i, used):
    if i is None:
        return None
    if i[0] == 'text':
        return i[1]
    nums = [int(u) for u in used if u.isdigit() and len(u) < 8]
    if i[0] == 'near':
        v = max(0, max(nums or [-1]) + i[1])
    else:
        if not nums:
            return None
        v = sorted(nums)[i[1] % len(nums)]
    return v if i[2] == 'int' else str(v)


class Silent(object):
    def eq(self, *a):
        pass

    ev = that = key = eq


def served(req):
    """ the ids per kind and road given in a pristine process; req['kinds']: the kinds that are added """
    for u in USED.values():
        u.clear()
    return run(dict(req['case'], ops=[op for op in req['case']['ops'] if op[1] in req['kinds']]), Silent())


c25.SERVE['c17'] = served


def together(jobs):
    """ [[kind, id]..] per thread; the (name, id) pairs of each """
    P = build.pyodrx
    roads, errors = [], []
    for k in range(len(jobs)):
        roads.append(build.road({'id': k, 'geoms': [{'k': 'line', 'length': 50}], 'start': [10 * k, 0, 0], 'sections': [{'s': 0, 'L': [3], 'R': [3]}]}))
    made = [[(kind, P.Object(1, 1, Type=P.ObjectType.pole, name='t%d-%d' % (k, n), id=i) if kind == 'object' else P.Signal(1, 1, 'DE', '1', name='t%d-%d' % (k, n), id=i))
             for n, (kind, i) in enumerate(job)] for k, job in enumerate(jobs)]
    bar = threading.Barrier(len(jobs))

    def job(k):
        try:
            bar.wait(20)
            for kind, o in made[k]:
                (roads[k].add_object if kind == 'object' else roads[k].add_signal)(o)
        except Exception as e:
            errors.append('%s: %s in thread %d' % (type(e).__name__, e, k))
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        ts = [threading.Thread(target=job, args=(k,)) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return errors, [dict((e.get('name'), e.get('id')) for kind in ('object', 'signal') for e in r.get_element().findall('%ss/%s' % (kind, kind))) for r in roads]


def served_together(req):
    return together(req['jobs'])


c25.SERVE['c17t'] = served_together


def crowd(c, mon):
    used = {'object': set(), 'signal': set()} if c['pristine'] else USED
    errors, got = c25.pristine({'do': 'c17t', 'jobs': c['jobs']}, mon) if c['pristine'] else together(c['jobs'])
    mon.eq(list(errors), [], 'additions in %d threads', len(c['jobs']))
    ids = {'object': [], 'signal': []}
    asked = {}
    for k, job in enumerate(c['jobs']):
        got_k = dict(got[k])
        mon.eq(sorted(got_k), sorted('t%d-%d' % (k, n) for n in range(len(job))), 'additions of thread %d', k)
        for n, (kind, i) in enumerate(job):
            g = got_k['t%d-%d' % (k, n)]
            mon.that(g not in (None, '', 'None'), 'a %s got the id %r', kind, g)
            ids[kind].append(g)
            if isinstance(i, str) and not i.isdigit() and i not in used[kind]:
                asked.setdefault((kind, i), []).append(g)
    for kind in ids:
        mon.eq(len(set(ids[kind])), len(ids[kind]), 'distinct ids among %ss that %d threads added', kind, len(c['jobs']))
        mon.eq(sorted(set(ids[kind]) & used[kind]), [], 'ids that earlier %ss have', kind)
        used[kind].update(ids[kind])
        mon.ev('added_by_threads', len(ids[kind]))
    for (kind, i), g in asked.items():
        mon.eq(g.count(i), 1, 'keepers of the free id %r among the %ss', i, kind)


def check(case, mon):
    c25.zygote()  # before anything is numbered in this process
    run(case, mon)
    if case.get('crowd'):
        crowd(case['crowd'], mon)
    if case['twin']:
        both, one, two = [c25.pristine({'do': 'c17', 'case': case, 'kinds': k}, mon) for k in (['object', 'signal'], ['object'], ['signal'])]
        mon.eq([both[0], both[1]], [one[0], two[1]], 'ids of objects and of signals, numbered together (first) and alone')
        mon.ev('numbered_alone', sum(len(v) for v in both[0] + both[1]))


def run(case, mon):
    P = build.pyodrx
    nets_ = {}
    roads = []
    for k, n in enumerate(case['roads']):
        r = build.road({'id': k, 'geoms': [{'k': 'line', 'length': 50}], 'start': [10 * k, 0, 0],
                        'sections': [{'s': 5 * j, 'L': [3], 'R': [3]} for j in range(n)]})
        od = nets_.setdefault(case['nets'][k], P.OpenDrive('n'))
        od.add_road(r)
        roads.append(r)
    for od in nets_.values():
        od.adjust_roads_and_lanes()
    model = {'object': [[] for _ in roads], 'signal': [[] for _ in roads]}

    def make(kind, i):
        STATE['n'] += 1
        name = 'n%d' % STATE['n']
        kw = {'name': name}
        if i is not None:
            kw['id'] = i
        if kind == 'object':
            return name, build.call('Object', s=1, t=1, **kw)
        return name, build.call('Signal', s=1, t=1, country='DE', Type='1', **kw)

    def written(kind, k):
        return [(e.get('name'), e.get('id')) for e in roads[k].get_element().findall('%ss/%s' % (kind, kind))]

    def settle(kind, k, asked):
        """ asked: [(name, id asked for)] just added to road k """
        got = written(kind, k)
        old = model[kind][k]
        mon.eq(got[:len(old)], old, 'earlier %ss of road %d', kind, k)
        new = got[len(old):]
        mon.eq([n for n, _ in new], [n for n, _ in asked], '%ss just added to road %d', kind, k)
        used = USED[kind]
        for (n, i), (_, a) in zip(new, asked):
            mon.that(i not in (None, '', 'None'), 'a %s got the id %r', kind, i)
            if a is not None and str(a) not in used:
                mon.eq(i, str(a), 'free id chosen for a %s', kind)
                mon.ev('chosen_kept')
            else:
                mon.that(i not in used, '%s got id %s, which an earlier %s has (asked for %r)', kind, i, kind, a)
                mon.ev('automatic' if a is None else 'chosen_taken')
            used.add(i)
        model[kind][k] = got

    batch, held = [], []
    for op in case['ops']:
        mon.that(len(batch) == len(held) and all(x is y for x, y in zip(batch, held)), 'the list of objects given has changed')
        kind, k = op[1], op[2]
        add = roads[k].add_object if kind == 'object' else roads[k].add_signal
        if op[0] == 'one':
            i = resolve(op[3], USED[kind])
            n, o = make(kind, i)
            add(o)
            settle(kind, k, [(n, i)])
        elif op[0] == 'list':
            asked, objs = [], []
            for x in op[3]:
                i = resolve(x, USED[kind])
                n, o = make(kind, i)
                asked.append((n, i))
                objs.append(o)
            # one list of the caller for all of them
            batch[:] = objs
            add(batch)
            held = list(objs)
            settle(kind, k, asked)
        else:
            i = resolve(op[3], USED[kind])
            n, o = make(kind, i)
            before = len(model[kind][k])
            roads[k].add_object_roadside(o, 5, side=P.RoadSide[op[4]])
            settle(kind, k, [(n, i)] * (case['roads'][k] * (2 if op[4] == 'both' else 1)))
            mon.ev('roadside', len(model[kind][k]) - before)
        if case['look']:
            for od in nets_.values():
                od.get_element()
    allids = {'object': [], 'signal': []}
    for kind in allids:
        for k in range(len(roads)):
            mon.eq(written(kind, k), model[kind][k], '%ss of road %d at the end', kind, k)
        for od in nets_.values():
            allids[kind] += [e.get('id') for e in doc.of(od).root.iter(kind)]
        mon.eq(len(set(allids[kind])), len(allids[kind]), 'distinct %s ids', kind)
    mon.key(case['ops'])
    return [[[i for _, i in model[kind][k]] for k in range(len(roads))] for kind in ('object', 'signal')]
