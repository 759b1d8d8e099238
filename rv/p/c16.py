"""C16: producing the document is repeatable and free of side effects."""
import random
import sys
import threading

from . import c25
from .. import build, doc, rich

NUM = {'quick': 350, 'thorough': 5000}
BIG = 8
BIG_MOST = 100
RULE = ('random networks with all features, built step by step; at random points between the steps every reachable pyodrx object (or a random '
        'few) is asked twice for its attributes, element and poses, the returned elements and dictionaries are then scribbled on; oracle: the '
        'two answers agree and the final document equals that of a twin built without any query (every sixth case also with the ids, in two pristine processes), four threads that ask at once get the same; distinct = (steps, query points)')
ASSUME = ['a query that is not possible yet (e.g. an unnumbered lane) may raise; it has to raise the same again and leave no trace']

IDS = frozenset([('header', 'date'), ('object', 'id'), ('signal', 'id')])
ASK = ('get_attributes', 'get_element', 'get_common_attributes', 'get_start_point', 'get_end_point', 'get_total_length', 'get_predecessor_id',
       'get_successor_id', 'get_predecessor_type', 'get_successor_type', 'get_predecessor_contact_point', 'get_successor_contact_point')


def gen(rng, i):
    net = rich.gen(rng, size=rng.choice([1, 2, 3, 4, 6]))
    if rng.random() < 0.5:
        c25.finer(rng, net)
    p = rng.choice([0.1, 0.4, 1]) if len(net['roads']) < 30 else 0.02
    return {'net': net, 'seed': rng.randrange(10 ** 9), 'p': p, 'few': rng.choice([0, 1, 5]), 'ids': i % 6 == 0, 'crowd': rng.choice([0, 0, 3, 8])}


def parts(x, seen, out):
    """ every pyodrx object reachable from x """
    if id(x) in seen:
        return
    if isinstance(x, dict):
        seen[id(x)] = x
        for v in list(x.values()):
            parts(v, seen, out)
    elif isinstance(x, (list, tuple)):
        seen[id(x)] = x
        for v in list(x):
            parts(v, seen, out)
    elif type(x).__module__.startswith('pyodrx.') and hasattr(x, '__dict__') and not hasattr(type(x), '__members__'):
        seen[id(x)] = x
        out.append(x)
        for v in list(vars(x).values()):
            parts(v, seen, out)


def answer(x, name):
    try:
        r = getattr(x, name)()
    except Exception as e:
        return None, ('raised', type(e).__name__)
    if hasattr(r, 'tag'):
        return r, doc.canon(r, doc.DATE)
    if isinstance(r, dict):
        return r, sorted((k, v) for k, v in r.items() if k != 'date')
    if isinstance(r, (tuple, list)):
        return r, [repr(v) for v in r]
    return r, repr(r)


def scribble(r):
    if hasattr(r, 'tag'):
        for e in list(r.iter()):
            e.attrib.clear()
            e.set('scribble', '1')
            e.text = 'scribble'
            for c in list(e):
                e.remove(c)
            e.tag = 'scribble'
    elif isinstance(r, dict):
        r.clear()
        r['scribble'] = '1'
    elif isinstance(r, list):
        del r[:]


class Silent(object):
    def eq(self, *a):
        pass

    ev = that = eq


def served(req):
    """ the document, ids included, built in a pristine process with or without queries """
    w, _ = run(req['case'], Silent(), req['ask'])
    return doc.canon(w['od'].get_element(), doc.DATE)


c25.SERVE['c16'] = served


def check(case, mon):
    w, _ = run(case, mon, False)
    want = doc.canon(w['od'].get_element(), IDS)
    w, points = run(case, mon, True)
    got = doc.canon(w['od'].get_element(), IDS)
    if case.get('crowd'):
        crowd(w, case, mon)
    diff = doc.first_difference(want, got)
    mon.that(diff is None, 'the document differs from that of the network built without queries: %s', diff)
    if points:
        mon.key(want, points, case['few'])
    if case['ids']:
        # object and signal ids are numbered per process: compare those of two pristine processes
        a, b = [c25.pristine({'do': 'c16', 'case': case, 'ask': k}, mon) for k in (False, True)]
        diff = doc.first_difference(a, b)
        mon.that(diff is None, 'the document with ids differs from that of the network built without queries: %s', diff)
        mon.ev('ids_compared', repr(a).count("('object'") + repr(a).count("('signal'"))


def crowd(w, case, mon):
    """ several threads ask at once """
    want = doc.canon(w['od'].get_element(), doc.DATE)
    roads = sorted(w['roads'].items())
    parts_ = [doc.canon(r.get_element(), doc.DATE) for _, r in roads]
    wrong = []
    gate = threading.Event()

    def job(k):
        gate.wait()
        try:
            for n in range(case['crowd']):
                if k % 2:
                    bad = doc.first_difference(want, doc.canon(w['od'].get_element(), doc.DATE))
                else:
                    q = (k + n) % len(roads)
                    bad = doc.first_difference(parts_[q], doc.canon(roads[q][1].get_element(), doc.DATE))
                if bad:
                    wrong.append(bad)
        except Exception as e:
            wrong.append('%s: %s' % (type(e).__name__, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        ts = [threading.Thread(target=job, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        gate.set()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.eq(wrong[:1], [], 'documents produced by several threads at once differ:')
    diff = doc.first_difference(want, doc.canon(w['od'].get_element(), doc.DATE))
    mon.that(diff is None, 'the document differs after several threads produced it: %s', diff)
    mon.ev('documents_by_threads', 4 * case['crowd'])


def run(case, mon, ask):
    """ builds the network, with queries if ask; returns the objects and the number of query points """
    rng = random.Random(case['seed'])
    spec = case['net']
    w = {}
    points = 0
    for s in build.steps(spec):
        s(w)
        if not ask or rng.random() >= case['p']:
            continue
        points += 1
        out = []
        parts(w, {}, out)
        if case['few']:
            rng.shuffle(out)
            out = out[:case['few']]
        elif len(out) > 120:
            out = [x for x in out if x is w.get('od')] + rng.sample(out, 120)
        for x in out:
            for name in ASK:
                if not hasattr(x, name):
                    continue
                r1, a1 = answer(x, name)
                r2, a2 = answer(x, name)
                mon.eq(a2, a1, '%s.%s asked twice', type(x).__name__, name)
                mon.ev('queries')
                scribble(r1)
                r3, a3 = answer(x, name)
                mon.eq(a3, a1, '%s.%s after changing the answer before', type(x).__name__, name)
                mon.ev('raised' if a1 and a1[0] == 'raised' else 'answered')
    return w, points
