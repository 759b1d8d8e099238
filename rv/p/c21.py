"""C21: header, roads, links, junctions written as declared."""
from .. import build, doc, nets, rich

NUM = {'quick': 7500, 'thorough': 250000}
RULE = ('random documents: 0..8 roads (each with a start pose) with random predecessor / successor / neighbour declarations to any ids (also of '
        'roads not present), links declared before or after adding, ids of all kinds, 0..4 junctions, names with markup; oracle: the list of '
        'declarations; the link query functions must report the same; distinct = declaration structure')


def gen(rng, i):
    n = nets.many(rng, [0, 1, 1, 2, 3, 8], 80, 0.01)
    ids = nets.idpool(rng, n)
    if rng.random() < 0.1 and n:
        new = rng.choice([-1, 0, 10 ** 12, 'x y', '\u00e4', -7])
        if str(new) not in [str(x) for x in ids]:
            ids[0] = new
    anyid = lambda: rng.choice(ids + [0, 1, 5, -1, 'z'])
    roads = []
    for k in range(n):
        r = {'id': ids[k], 'geoms': [{'k': 'line', 'length': 5}], 'start': [k, 0, 0], 'sections': [{'s': 0, 'L': [], 'R': []}], 'decl': []}
        for key in ('pred', 'suc'):
            if rng.random() < 0.6:
                if rng.random() < 0.6:
                    l = {'t': 'road', 'id': anyid(), 'c': rng.choice(['start', 'end'])}
                    if rng.random() < 0.2:
                        l['off'] = rng.choice([1, -2])
                else:
                    l = {'t': 'junction', 'id': anyid(), 'c': rng.choice([None, None, 'start', 'end'])}
                r['decl'].append([key, l])
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            r['decl'].append(['nb', {'t': rng.choice(['road', 'road', 'junction']), 'id': anyid(), 'dir': rng.choice(['same', 'opposite'])}])
        rng.shuffle(r['decl'])
        r['late'] = rng.randint(0, len(r['decl'])) if rng.random() < 0.4 else len(r['decl'])
        rich.opt(rng, r, 'name', rich.text(rng), 0.4)
        rich.opt(rng, r, 'rule', rng.choice(['RHT', 'LHT']), 0.3)
        rich.opt(rng, r, 'jid', rng.choice([0, 1, 77]), 0.3)
        roads.append(r)
    js = []
    for jid in rng.sample([0, 1, 2, 100, 'j1', -3], rng.choice([0, 0, 1, 2, 4])) if rng.random() < 0.99 else range(rng.randint(7, 40)):
        js.append({'id': jid, 'name': rich.text(rng), 'auto': 0, 'conns': [{'inc': anyid(), 'con': anyid(), 'cp': 'end', 'id': None, 'links': []} for _ in range(rng.randint(0, 2))]})
    return {'roads': roads, 'junctions': js, 'name': rich.text(rng), 'mix': rng.random() < 0.5, 'lanes': rng.random() < 0.5}


def check(case, mon):
    P = build.pyodrx
    od = P.OpenDrive(case['name'])
    objs = []
    jn = list(case['junctions'])

    def declare(o, d):
        key, l = d
        if key == 'nb':
            o.add_neighbor(build.ET_[l['t']], l['id'], build.DIR[l['dir']])
        else:
            build.link_one(o.add_predecessor if key == 'pred' else o.add_successor, l)
    for r in case['roads']:
        o = build.road(dict(r), linked=False)
        for d in r['decl'][:r['late']]:
            declare(o, d)
        od.add_road(o)
        objs.append(o)
        if case['mix'] and jn:
            od.add_junction(build.junction(jn.pop(0), {}))
    for j in jn:
        od.add_junction(build.junction(j, {}))
    if objs:
        od.adjust_startpoints()
    for r, o in zip(case['roads'], objs):
        for d in r['decl'][r['late']:]:
            declare(o, d)
    root = build.tree(od.get_element())
    mon.eq([c.tag for c in root], ['header'] + ['road'] * len(objs) + ['junction'] * len(case['junctions']), 'children of the document')
    h = root[0]
    mon.eq((h.get('name'), h.get('revMajor'), h.get('revMinor')), (case['name'], '1', '5'), 'header')
    for r, e, o in zip(case['roads'], root.findall('road'), objs):
        what = 'road %s' % r['id']
        mon.eq(e.get('id'), str(r['id']), '%s: id', what)
        mon.eq(e.get('junction'), str(r.get('jid', -1)), '%s: junction', what)
        mon.eq(e.get('name') or '', r.get('name', ''), '%s: name', what)
        mon.eq(e.get('rule'), r.get('rule'), '%s: rule', what)
        ls = e.findall('link')
        mon.that(len(ls) <= 1, '%s: several link elements', what)
        got = sorted((c.tag, sorted(c.attrib.items())) for l in ls for c in l)
        want = []
        q = {'pred': (None, None, None), 'suc': (None, None, None)}
        for key, l in r['decl']:
            a = {'elementType': l['t'], 'elementId': str(l['id'])}
            if key == 'nb':
                a['direction'] = l['dir']
            else:
                if l.get('c'):
                    a['contactPoint'] = l['c']
                q[key] = (str(l['id']), l['t'], l.get('c'))
            want.append(({'pred': 'predecessor', 'suc': 'successor', 'nb': 'neighbor'}[key], sorted(a.items())))
        mon.eq(got, sorted(want), '%s: links', what)
        mon.ev('links', len(want))
        # order among the neighbours
        mon.eq([c.get('elementId') for l in ls for c in l if c.tag == 'neighbor'], [str(l['id']) for k, l in r['decl'] if k == 'nb'], '%s: neighbours', what)
        for key, word in (('pred', 'predecessor'), ('suc', 'successor')):
            L = o.links
            i, t, c = [getattr(L, 'get_%s_%s' % (word, x))() for x in ('id', 'type', 'contact_point')]
            mon.eq((None if i is None else str(i), t and t.name, c and c.name), q[key], '%s: %s reported by the link queries', what, word)
    for j, e in zip(case['junctions'], root.findall('junction')):
        mon.eq((e.get('id'), e.get('name')), (str(j['id']), j['name']), 'junction')
        mon.eq(len(e.findall('connection')), len(j['conns']), 'connections of junction %s', j['id'])
    mon.key([[d[0] for d in r['decl']] + [d[1]['t'] for d in r['decl']] for r in case['roads']], len(case['junctions']))
