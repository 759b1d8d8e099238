"""C31: ids and names are labels only."""
import json

import numpy as np

from .. import build, doc, nets, rich
from . import c25

NUM = {'quick': 1400, 'thorough': 32000}
RULE = ('random networks with all features, and the same network with all road and junction ids replaced consistently (numbers, texts, numpy '
        'integers, text and number mixed in the references, permuted, colliding between roads and junctions, with blanks, signs, leading zeros, '
        'non-ASCII) and all names changed; oracle: the document of the second, its labels mapped back, equals that of the first exactly '
        '(every float, every link, the order of everything); distinct = (network, mapping)')
ASSUME = ['junction membership -1 means an ordinary road and is no label', 'ids are distinct as texts; object and signal ids are left out (C17)',
          'ids starting or ending with a blank are not used']

IDS = frozenset([('header', 'date'), ('object', 'id'), ('signal', 'id')])
ODD = ['0', '00', '007', 'road', 'junction', 'None', 'a b', 'x/y', '\u00e5\u00e4', '\u4ea4', '1.0', '1e3', '+5', 'start', 'end', 'successor', '-', '_', 'A' * 60, '<&>', '"', "'", 'True', '-2']


def pool(rng, n):
    k = rng.choice(['odd', 'small', 'big', 'spread', 'neg', 'text', 'mixed', 'np', 'lex'])
    if k == 'small':
        res = list(range(n))
    elif k == 'big':
        res = rng.sample(range(10 ** 9), n)
    elif k == 'spread':
        res = []
        while len(res) < n:
            v = rng.choice([1, 1, -1]) * rng.randrange(10 ** rng.randint(1, 12))
            if v not in res and v != -1:
                res.append(v)
    elif k == 'neg':
        res = [-v for v in rng.sample(range(2, 50 + n), n)]
    elif k == 'text':
        res = ['r%d' % v for v in range(n)]
    elif k == 'lex':
        res = [9 + v for v in range(n)]
    elif k == 'np':
        res = [{'np': v} for v in rng.sample(range(100), n)]
    elif k == 'odd':
        res = rng.sample(ODD, min(n, len(ODD))) + ['more %d' % v for v in range(n - len(ODD))]
    else:
        res = [rng.choice([v, str(v), {'np': v}, 'x%d' % v]) for v in rng.sample(range(3 * n), n)]
    rng.shuffle(res)
    return res


def text(i):
    return str(i['np'] if isinstance(i, dict) else i)


def gen(rng, i):
    net = rich.gen(rng, size=rng.choice([1, 2, 3, 4, 6, 8]), offsets=0.3)
    if rng.random() < 0.5:
        c25.finer(rng, net)
    roads = [r['id'] for r in net['roads']]
    juncs = sorted(set([j['id'] for j in net['junctions']] + [r['jid'] for r in net['roads'] if r.get('jid', -1) != -1]
                       + [r[k]['id'] for r in net['roads'] for k in ('pred', 'suc') if r.get(k) and r[k]['t'] == 'junction']), key=str)
    juncs = dict((str(j), j) for j in juncs)
    rm = dict(zip(map(str, roads), pool(rng, len(roads))))
    if rng.random() < 0.3:
        # the same ids, permuted
        p = list(roads)
        rng.shuffle(p)
        rm = dict(zip(map(str, roads), p))
    jm = dict(zip(juncs, rng.sample([v for v in list(rm.values()) + [77, 'j0', 0, 10 ** 6, {'np': 12}, 'J x', 'kk%d' % len(juncs)] if text(v) != '-1'],
                                    len(juncs)))) if len(juncs) <= 6 else dict((k, v) for k, v in juncs.items())
    if len(set(map(text, jm.values()))) < len(jm):
        jm = dict((k, 'j' + k) for k in juncs)
    return {'net': net, 'roads': rm, 'juncs': jm, 'refs': rng.random() < 0.5, 'seed': rng.randrange(10 ** 9), 'names': rng.random() < 0.6}


def real(i, rng=None):
    """ the id as a user may write it """
    forms = [np.int64(i['np'])] if isinstance(i, dict) else [i]
    if rng is not None:
        t = text(i)
        forms.append(t)
        if t.lstrip('-').isdigit() and str(int(t)) == t:
            forms += [int(t), np.int64(int(t))]
        return rng.choice(forms)
    return forms[0]


def rename(case):
    import random
    rng = random.Random(case['seed'])
    spec = json.loads(json.dumps(case['net']))
    rm, jm = case['roads'], case['juncs']

    def ref(t, i):
        m = rm if t == 'road' else jm
        return real(m[str(i)], rng if case['refs'] else None)
    for r in spec['roads']:
        for l in [r.get('pred'), r.get('suc')] + list(r.get('nb', ())):
            if l:
                l['id'] = ref(l['t'], l['id'])
        if r.get('jid', -1) != -1:
            r['jid'] = real(jm[str(r['jid'])])
        r['id'] = real(rm[str(r['id'])])
        if case['names'] and r.get('name') is not None:
            r['name'] = 'new ' + r['name']
    for j in spec['junctions']:
        j['id'] = real(jm[str(j['id'])])
        for k in ('cons', 'arms'):
            if k in j:
                j[k] = [real(rm[str(x)]) for x in j[k]]
        for c in j.get('conns', ()):
            c['inc'], c['con'] = ref('road', c['inc']), ref('road', c['con'])
        if case['names']:
            j['name'] = 'new ' + j['name']
    return spec


def relabel(e, rm, jm, names):
    """ the canonical tree of the first document with the labels of the second """
    tag, attrs, txt, kids = e
    a = dict(attrs)
    if tag == 'road':
        a['id'] = rm[a['id']]
        if a['junction'] != '-1':
            a['junction'] = jm[a['junction']]
        if names and 'name' in a:
            a['name'] = 'new ' + a['name']
    elif 'elementId' in a:
        a['elementId'] = (jm if a.get('elementType') == 'junction' else rm)[a['elementId']]
    elif tag == 'junction':
        a['id'] = jm[a['id']]
        if names:
            a['name'] = 'new ' + a['name']
    elif tag == 'connection':
        a['incomingRoad'] = rm[a['incomingRoad']]
        a['connectingRoad'] = rm[a['connectingRoad']]
    return tag, tuple(sorted(a.items())), txt, tuple(relabel(c, rm, jm, names) for c in kids)


def built(spec):
    w = {}
    for s in build.steps(spec):
        s(w)
    return doc.canon(doc.of(w['od']).root, IDS)


def auto_names(spec):
    """ junctions made by create_junction carry a name that contains their id: not compared """
    return frozenset(str(j['id']) for j in spec['junctions'] if j.get('auto'))


def blank(e, ids):
    tag, attrs, txt, kids = e
    if tag == 'junction' and dict(attrs).get('id') in ids:
        attrs = tuple((k, v) for k, v in attrs if k != 'name')
    return tag, attrs, txt, tuple(blank(c, ids) for c in kids)


def check(case, mon):
    second = rename(case)
    a, b = built(case['net']), built(second)
    rm = dict((k, text(v)) for k, v in case['roads'].items())
    jm = dict((k, text(v)) for k, v in case['juncs'].items())
    want = blank(relabel(a, rm, jm, case['names']), auto_names(second))
    got = blank(b, auto_names(second))
    diff = doc.first_difference(want, got)
    mon.that(diff is None, 'the document of the renamed network is not the renamed document: %s', diff)
    mon.ev('roads', len(rm))
    mon.ev('junctions', len(jm))
    mon.key(nets.shape(case['net']), sorted(rm.items()), sorted(jm.items()))
