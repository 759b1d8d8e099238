"""Generators of road network specifications, and the reference model of what pyodrx has to make of them."""
import math

from . import ref

TWO = 2 * math.pi


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def rnd(v, nd=9):
    return float('%.*g' % (nd, v))


BIG = {}      # not empty: a case with some very large number


def many(rng, usual, most, p=0.015):
    """ one of the usual numbers, now and then a large one """
    n = rng.choice(usual)
    if BIG.get('left') and rng.random() < BIG['p']:
        BIG['left'] -= 1
        return rng.randint(max(50, most), max(100, min(4 * most, BIG['most'])))
    return rng.randint(most // 2, most) if rng.random() < p else n


def sign(rng):
    return rng.choice((-1, 1))


# --- elements --------------------------------------------------------------------------------------------

def elem(rng, wild=False, kinds=('line', 'arc', 'spiral', 'pp3')):
    k = rng.choice(kinds)
    if k == 'line':
        L = logu(rng, 1e-3, 1e5) if wild else logu(rng, 1, 300)
        return {'k': 'line', 'length': rng.choice([rnd(L), max(1, int(L))])}
    if k == 'arc':
        c = sign(rng) * (logu(rng, 1e-6, 3) if wild else logu(rng, 1e-3, 0.1))
        turn = logu(rng, 1e-4, 20) if wild else logu(rng, 1e-2, 3)
        if rng.random() < 0.25:
            c = float(rng.choice([1e-2, -1e-2, 0.125, -0.125, 0.5, -0.5]))
        if rng.random() < 0.5:
            return {'k': 'arc', 'curvature': rnd(c), 'length': rnd(turn / abs(c))}
        return {'k': 'arc', 'curvature': rnd(c), 'angle': rnd(turn) * (sign(rng) if rng.random() < 0.7 else 1)}
    if k == 'spiral':
        mode = rng.choice(['length', 'length', 'angle', 'cdot'])
        big = logu(rng, 1e-6, 3) if wild else logu(rng, 1e-3, 0.1)
        a = sign(rng) * big
        b = rng.choice([0.0, a, a * (1 + 1e-9), a * (1 + 1e-5), -a, -a * 0.3, a * 0.2, a * rng.uniform(0.3, 3), 1e-9, -1e-9])
        a, b = rnd(a, 12), rnd(b, 12)
        if rng.random() < 0.5:
            a, b = b, a
        if wild and rng.random() < 0.05:
            a = b = 0.0
        kmax = max(abs(a), abs(b), 1e-5)
        turn = logu(rng, 1e-4, 15) if wild else logu(rng, 1e-2, 2)
        L = rnd(turn / kmax)
        if mode == 'angle':
            if abs(a + b) < 0.2 * kmax:
                return {'k': 'spiral', 'curvstart': a, 'curvend': b, 'length': L}
            ang = rnd(min(turn, 3.0) * abs(a + b) / (2 * kmax))
            return {'k': 'spiral', 'curvstart': a, 'curvend': b, 'angle': ang * (sign(rng) if rng.random() < 0.5 else 1)}
        if mode == 'cdot' and abs(a - b) > 0.05 * kmax:
            return {'k': 'spiral', 'curvstart': a, 'curvend': b, 'cdot': rnd((b - a) / L, 12)}
        return {'k': 'spiral', 'curvstart': a, 'curvend': b, 'length': L}
    L = logu(rng, 0.5, 1e3) if wild else logu(rng, 5, 100)
    n = rng.random() < 0.5
    u = [0, L, rng.uniform(-.2, .2) * L, rng.uniform(-.1, .1) * L]
    v = [0, 0, rng.uniform(-1, 1) * L, rng.uniform(-1, 1) * L]
    if rng.random() < 0.2:
        v[1] = rng.uniform(-.5, .5) * L
    if rng.random() < 0.15:
        v[2] = v[3] = 0
    if rng.random() < 0.2:
        # turning by more than a right angle
        for _ in range(20):
            hu = [0, L, rng.uniform(-1.5, 1) * L, rng.uniform(-1, .5) * L]
            hv = [0, v[1], rng.uniform(-2, 2) * L, rng.uniform(-2, 2) * L]
            if slowest(hu, hv) > 0.2 * L:
                u, v = hu, hv
                break
    if rng.random() < 0.35:
        # plain polynomials: some terms missing, whole numbers
        pu, pv = list(u), list(v)
        for w, i in ((pu, 2), (pu, 3), (pv, 1), (pv, 2), (pv, 3)):
            if rng.random() < 0.5:
                w[i] = 0
            elif rng.random() < 0.3:
                w[i] = w[i] // 1
        if slowest(pu, pv) > 0.2 * L:
            u, v = pu, pv
    if wild and rng.random() < 0.15:
        u[0], v[0] = rng.uniform(-1, 1) * L, rng.uniform(-1, 1) * L
    if n:
        s = {'k': 'pp3', 'u': [rnd(a) for a in u], 'v': [rnd(a) for a in v], 'prange': 'normalized'}
        if rng.random() < 0.3:
            s['implicit'] = 1
        return s
    u = [c / L ** i for i, c in enumerate(u)]
    v = [c / L ** i for i, c in enumerate(v)]
    return {'k': 'pp3', 'u': [rnd(a) for a in u], 'v': [rnd(a) for a in v], 'prange': 'arcLength', 'length': rnd(L * rng.uniform(.5, 1))}


def slowest(u, v):
    return min(math.hypot(u[1] + 2 * u[2] * q / 50 + 3 * u[3] * q * q / 2500, v[1] + 2 * v[2] * q / 50 + 3 * v[3] * q * q / 2500) for q in range(51))


def geoms(rng, nmax=4, kinds=('line', 'arc', 'spiral', 'pp3')):
    n = many(rng, [1, 1, 2, 3, nmax], 30, 0.003)
    return repeated(rng, [far(rng, kinds) if rng.random() < 0.07 else elem(rng, kinds=kinds) for _ in range(n)])


def repeated(rng, gs, p=0.08):
    """ sometimes the same element several times """
    if rng.random() >= p:
        return gs
    x = rng.random()
    if x < 0.4:
        return [gs[0]] * rng.choice([2, 2, 3])
    if x < 0.7:
        return gs + gs[:1]
    return gs + gs[-1:]


def far(rng, kinds):
    """ elements of unusual size: very flat, very short, very long, more than a full turn """
    k = rng.choice([k for k in kinds if k != 'pp3'] or ['line'])
    if k == 'line':
        return {'k': 'line', 'length': rnd(rng.choice([logu(rng, 1e-2, 1), logu(rng, 300, 5000)]))}
    c = sign(rng) * rng.choice([logu(rng, 1e-5, 1e-3), logu(rng, 0.1, 0.5)])
    turn = min(logu(rng, 1e-3, 9), 3000 * abs(c))
    if k == 'arc':
        return {'k': 'arc', 'curvature': rnd(c), 'length': rnd(turn / abs(c))}
    a, b = rnd(c, 12), rnd(c * rng.choice([0, 0.5, -0.5, -1, 1 + 1e-7, 2]), 12)
    if rng.random() < 0.5:
        a, b = b, a
    return {'k': 'spiral', 'curvstart': a, 'curvend': b, 'length': rnd(turn / abs(c))}


def elems(spec):
    return [ref.Elem(g) for g in spec['geoms']]


def total(gs):
    d = (0.0, 0.0, 0.0)
    for g in gs:
        d = ref.compose(d, ref.Elem(g).delta)
    return d


def length(spec):
    return sum(e.length for e in elems(spec))


def reverse(gs):
    return [ref.reverse_spec(g) for g in reversed(gs)]


def pose(rng):
    if rng.random() < 0.2:
        return [0.0, 0.0, 0.0]
    if rng.random() < 0.05:
        return rng.choice([[1, 1, 1], [2.5, 2.5, 2.5], [-1, -1, -1], [5, 0, 0], [0, 7, 0], [0, 0, 2], [0, -3, 1], [4, 4, 0]])
    if rng.random() < 0.06:
        # coordinates of a map projection, many turns
        return [rng.uniform(-9e5, 9e5), rng.uniform(-6e6, 6e6), rng.uniform(-60, 60)]
    return [rnd(rng.uniform(-2000, 2000)), rnd(rng.uniform(-2000, 2000)), rnd(rng.choice([rng.uniform(-7, 7), 0, math.pi / 2, math.pi, -math.pi / 2]))]


# --- lanes -----------------------------------------------------------------------------------------------

def counts(rng, most=4):
    if rng.random() < 0.07:
        return (rng.randint(0, 12), rng.randint(9, 12)) if rng.random() < 0.9 else (rng.randint(0, 26), rng.randint(0, 26))
    return rng.randint(0, most), rng.randint(0, most)


def sections(rng, first=None, last=None, width=3, nmax=3, length_=100.0):
    """ sections whose first / last have the given (left, right) counts """
    n = many(rng, [1, 1, 1, 2, nmax], 24, 0.006)
    if first is not None and last is not None and first != last:
        n = max(n, 2)
    cs = [counts(rng) for _ in range(n)]
    if first is not None:
        cs[0] = first
    if last is not None:
        cs[-1] = last
    if n == 1 and first is not None:
        cs[0] = first
    return [{'s': 0 if i == 0 else rnd(length_ * i / n, 6), 'L': [width] * c[0], 'R': [width] * c[1]} for i, c in enumerate(cs)]


def cnt(sec):
    return len(sec['L']), len(sec['R'])


def sec_at(road, at):
    return road['sections'][0 if at == 'start' else -1]


# --- ids -------------------------------------------------------------------------------------------------

def idpool(rng, n):
    """ distinct (as text) ids of mixed kinds """
    style = rng.choice(['small', 'small', 'zero', 'big', 'str', 'mixed', 'numstr', 'gaps', 'minus'])
    if style == 'small':
        res = list(range(1, n + 1))
    elif style == 'zero':
        res = list(range(0, n))
    elif style == 'big':
        res = rng.sample(range(1, 10 ** 6), n)
    elif style == 'str':
        res = ['r%d' % i for i in range(n)]
    elif style == 'numstr':
        res = [str(i) for i in range(n)]
    elif style == 'gaps':
        res = rng.sample(range(2, 3 * n + 3), n)
    elif style == 'minus':
        res = rng.sample([i for i in range(-2 * n - 3, n + 2) if i != -1], n)      # (-1 is no junction)
    else:
        res = [i if rng.random() < 0.5 else 'road %d' % i for i in range(n)]
    if rng.random() < 0.6:
        rng.shuffle(res)
    return res


def as_ref(rng, i):
    """ the same id, as a user may write it in a reference """
    if isinstance(i, int) and rng.random() < 0.12:
        return str(i)
    if isinstance(i, str) and i.isdigit() and rng.random() < 0.3:
        return int(i)
    return i


# --- networks --------------------------------------------------------------------------------------------

class Net(object):
    def __init__(self, rng, strict_lanes=True, flex_ids=True):
        self.rng = rng
        self.roads = []          # specs; 'id' is an index until finish()
        self.true = []           # start pose of each road
        self.free = []           # (road index, end)
        self.junctions = []      # [{'arms': [(road, end)], 'cons': [road]}]
        self.flex_ids = flex_ids

    def add(self, gs, start, **kw):
        i = len(self.roads)
        r = {'id': i, 'geoms': gs, 'sections': None}
        r.update(kw)
        self.roads.append(r)
        self.true.append(tuple(start))
        return i

    def at(self, i, end):
        """ pose at an end, heading outwards """
        p = self.true[i]
        if end == 'start':
            return ref.flip(p)
        return ref.compose(p, total(self.roads[i]['geoms']))

    def start_for(self, gs, where, contact):
        """ start pose of a road with geometry gs whose `contact` end is at `where` (pose heading into the road) """
        if contact == 'start':
            return where
        d = total(gs)
        back = ref.compose(ref.flip(where), ref.inverse(d))     # end pose is `where` flipped
        return back

    def key(self, end):
        return 'pred' if end == 'start' else 'suc'

    def ordinary(self, where=None, contact='start', kinds=('line', 'arc', 'spiral', 'pp3'), gs=None):
        gs = gs or geoms(self.rng, kinds=kinds)
        i = self.add(gs, self.start_for(gs, where, contact) if where else (0.0, 0.0, 0.0))
        return i

    def attach_road(self, a, e):
        rng = self.rng
        c = rng.choice(['start', 'start', 'start', 'end', 'end']) if e == 'end' else rng.choice(['start', 'end'])
        b = self.ordinary(self.at(a, e), c)
        self.link(a, e, b, c)
        self.free.append((b, 'end' if c == 'start' else 'start'))
        return b

    def link(self, a, e, b, c):
        self.roads[a][self.key(e)] = {'t': 'road', 'id': b, 'c': c}
        self.roads[b][self.key(c)] = {'t': 'road', 'id': a, 'c': e}

    def attach_junction(self, a, e, narms, twins=0.3, offsets=0.4, uturn=0.1, gs_of=None, series=0.0, half=0.0):
        """ a junction at a free end with new arms; one connecting road per new arm (a tree), sometimes twins """
        rng = self.rng
        jn = {'arms': [(a, e)], 'cons': []}
        j = len(self.junctions)
        self.junctions.append(jn)
        self.roads[a][self.key(e)] = {'t': 'junction', 'id': j}
        for _ in range(narms):
            b, be = rng.choice(jn['arms'])
            gs = gs_of() if gs_of else geoms(rng, 3)
            m1 = m2 = 0
            side = 0
            if rng.random() < offsets:
                side = sign(rng)                                    # all lanes of this connecting road on one side
                m1, m2 = side * many(rng, [0, 1, 2], 20, 0.03), side * many(rng, [0, 1, 3], 20, 0.03)
            outward = rng.random() < 0.6                            # driven from the old arm to the new one
            where = self.at(b, be)
            if outward:
                # start of the connecting road is m1 lanes (3 m) left of the arm
                p = ref.left(where, 3.0 * m1)
                k = self.add(gs, (p[0], p[1], where[2]), jid=j)
                endp = self.at(k, 'end')
                q = ref.left(endp, -3.0 * m2)
                new_where = (q[0], q[1], endp[2])
            else:
                # its end is m2 lanes left (in its own direction) of the arm; the arm is at its end
                w = ref.flip(where)
                p = ref.left(w, 3.0 * m2)
                k = self.add(gs, self.start_for(gs, ref.flip((p[0], p[1], w[2])), 'end'), jid=j)
                st = self.true[k]
                q = ref.left(st, -3.0 * m1)
                new_where = ref.flip((q[0], q[1], st[2]))
            c = rng.choice(['start', 'start', 'end'])
            y = self.ordinary(new_where, c)
            self.roads[y][self.key(c)] = {'t': 'junction', 'id': j}
            self.free.append((y, 'end' if c == 'start' else 'start'))
            jn['arms'].append((y, c))
            ends = ((b, be), (y, c)) if outward else ((y, c), (b, be))
            for key, (o, oe), m in (('pred', ends[0], m1), ('suc', ends[1], m2)):
                self.roads[k][key] = {'t': 'road', 'id': o, 'c': oe, 'off': m}
            self.roads[k]['side'] = side
            jn['cons'].append(k)
            if rng.random() < twins:
                simple = all(g['k'] != 'pp3' for g in gs)
                back = simple and rng.random() < 0.6
                t = self.add(reverse(gs) if back else [dict(g) for g in gs], ref.flip(self.at(k, 'end')) if back else self.true[k], jid=j)
                if back:
                    t = len(self.roads) - 1
                    self.true[t] = ref.flip(self.at(k, 'end'))
                    self.roads[t]['pred'] = {'t': 'road', 'id': ends[1][0], 'c': ends[1][1], 'off': -m2}
                    self.roads[t]['suc'] = {'t': 'road', 'id': ends[0][0], 'c': ends[0][1], 'off': -m1}
                    self.roads[t]['side'] = -side
                else:
                    self.roads[t]['pred'] = dict(self.roads[k]['pred'])
                    self.roads[t]['suc'] = dict(self.roads[k]['suc'])
                    self.roads[t]['side'] = side
                jn['cons'].append(t)
                if rng.random() < half:
                    # the twin names the road at one of its ends only
                    del self.roads[t][rng.choice(['pred', 'suc'])]
                    jn['cons'].remove(t)
            if rng.random() < series and len(gs) > 1:
                self.split(k, rng.randint(1, len(gs) - 1))
            if rng.random() < uturn:
                # three touching arcs bring the road back to the same point
                r = 1.0 / rng.choice([8, 12.5, 20])
                s_ = sign(rng)
                r *= s_
                tt = [{'k': 'arc', 'curvature': r, 'angle': math.pi / 3}, {'k': 'arc', 'curvature': -r, 'angle': 5 * math.pi / 3},
                      {'k': 'arc', 'curvature': r, 'angle': math.pi / 3}]
                (o, oe) = rng.choice(jn['arms'])
                t = self.add(tt, self.at(o, oe), jid=j)
                self.roads[t]['pred'] = {'t': 'road', 'id': o, 'c': oe, 'off': 0}
                self.roads[t]['suc'] = {'t': 'road', 'id': o, 'c': oe, 'off': 0}
                self.roads[t]['side'] = 0
                self.roads[t]['uturn'] = 1
                jn['cons'].append(t)
        return j

    def split(self, k, h):
        """ makes two connecting roads, one after the other, of one """
        r = self.roads[k]
        gs = r['geoms']
        simple = all(g['k'] != 'pp3' for g in gs[h:])
        back = simple and self.rng.random() < 0.4
        p = ref.compose(self.true[k], total(gs[:h]))
        end = self.at(k, 'end')
        q = self.add(reverse(gs[h:]) if back else gs[h:], ref.flip(end) if back else p, jid=r['jid'], side=-r['side'] if back else r['side'], split=k)
        r['geoms'] = gs[:h]
        new = self.roads[q]
        if back:
            new['pred'] = dict(r['suc'], off=-r['suc'].get('off', 0))
            new['suc'] = {'t': 'road', 'id': k, 'c': 'end', 'off': 0}
        else:
            new['suc'] = r['suc']
            new['pred'] = {'t': 'road', 'id': k, 'c': 'end', 'off': 0}
        r['suc'] = {'t': 'road', 'id': q, 'c': 'end' if back else 'start', 'off': 0}
        # (no connection of create_junction: that takes connecting roads between two ordinary ones)
        self.junctions[r['jid']]['cons'].remove(k)

    # -- topologies
    def grow(self, nroads, pj=0.4, **kw):
        rng = self.rng
        i = self.ordinary()
        self.free += [(i, 'start'), (i, 'end')]
        while len(self.roads) < nroads and self.free:
            a, e = self.free.pop(rng.randrange(len(self.free)))
            if rng.random() < pj:
                self.attach_junction(a, e, many(rng, [1, 2, 2, 3], 12, 0.01), **kw)
            else:
                self.attach_road(a, e)

    def ring(self, n, connecting=False):
        """ n units whose reference line turns by 2 pi / n each: closes exactly """
        rng = self.rng
        kinds = ('line', 'arc', 'spiral')
        gs = [g for g in geoms(rng, 3, kinds) if g.get('angle') is None or g['k'] == 'arc'] or [{'k': 'line', 'length': 12.5}]
        if not connecting:
            main, cross = gs, None
        else:
            main, cross = gs, geoms(rng, 2, kinds)
        turn = total(main + (cross or []))[2]
        need = TWO / n * (1 if n == 1 else rng.choice([1, -1]))
        rest = (need - turn) % TWO
        if rest < 0.3:
            rest += TWO
        if n == 1:
            return self.stadium(connecting)
        arc = {'k': 'arc', 'curvature': 1.0 / rng.choice([10, 16, 25, 50]), 'angle': rest}
        if connecting and rng.random() < 0.5:
            cross = cross + [arc]
        else:
            main = main + [arc]
        where = (0.0, 0.0, 0.0)
        ords = []
        for u in range(n):
            flip = rng.random() < 0.35
            g = reverse(main) if flip else [dict(x) for x in main]
            i = self.add(g, self.start_for(g, where, 'end' if flip else 'start'))
            entry, exit_ = ('end', 'start') if flip else ('start', 'end')
            ords.append((i, entry, exit_))
            where = self.at(i, exit_)
            if connecting:
                back = rng.random() < 0.35
                g = reverse(cross) if back else [dict(x) for x in cross]
                k = self.add(g, self.start_for(g, where, 'end' if back else 'start'), jid=u, side=0)
                self.junctions.append({'arms': [], 'cons': [k]})
                self.roads[k]['back'] = back
                ords[-1] += (k,)
                where = self.at(k, 'start' if back else 'end')
        for u in range(n):
            a, b = ords[u], ords[(u + 1) % n]
            if not connecting:
                self.link(a[0], a[2], b[0], b[1])
            else:
                k = a[3]
                back = self.roads[k].pop('back')
                self.roads[k]['suc' if back else 'pred'] = {'t': 'road', 'id': a[0], 'c': a[2], 'off': 0}
                self.roads[k]['pred' if back else 'suc'] = {'t': 'road', 'id': b[0], 'c': b[1], 'off': 0}
                self.roads[a[0]][self.key(a[2])] = {'t': 'junction', 'id': u}
                self.roads[b[0]][self.key(b[1])] = {'t': 'junction', 'id': u}
                self.junctions[u]['arms'] = [(a[0], a[2]), (b[0], b[1])]

    def stadium(self, connecting):
        """ one road and one connecting road that together close """
        rng = self.rng
        L, R = float(rng.randint(10, 90)), float(rng.choice([10, 20, 30]))
        s = sign(rng)
        half = [{'k': 'line', 'length': L}, {'k': 'arc', 'curvature': s / R, 'angle': math.pi}]
        a = self.add([dict(g) for g in half], (0.0, 0.0, 0.0))
        k = self.add([dict(g) for g in half], self.at(a, 'end'), jid=0, side=0)
        self.roads[k]['pred'] = {'t': 'road', 'id': a, 'c': 'end', 'off': 0}
        self.roads[k]['suc'] = {'t': 'road', 'id': a, 'c': 'start', 'off': 0}
        self.roads[a]['suc'] = {'t': 'junction', 'id': 0}
        self.roads[a]['pred'] = {'t': 'junction', 'id': 0}
        self.junctions.append({'arms': [(a, 'end'), (a, 'start')], 'cons': [k]})

    # -- lanes
    def lanes(self, width=3, mismatch=None):
        """ lane sections such that all joints are valid; mismatch: road pair whose joint gets different counts """
        rng = self.rng
        n = len(self.roads)
        want = {}                                 # (road, end) -> counts
        for i, r in enumerate(self.roads):
            if r.get('jid') is not None:
                continue
            want.setdefault((i, 'start'), counts(rng))
            want.setdefault((i, 'end'), counts(rng) if rng.random() < 0.5 else want[(i, 'start')])
        for i, r in enumerate(self.roads):
            if r.get('jid') is None and r.get('suc', {}).get('t') == 'road' and r['suc']['c'] == 'start':
                want[(r['suc']['id'], 'start')] = want[(i, 'end')]
        con = {}
        for i, r in enumerate(self.roads):
            if r.get('jid') is None:
                continue
            for end, key in (('start', 'pred'), ('end', 'suc')):
                l = r.get(key)
                if not l:
                    con[(i, end)] = counts(rng)
                    continue
                if self.roads[l['id']].get('jid') is not None:
                    continue
                same = l['c'] != end
                L, R = want[(l['id'], l['c'])]
                if not same:
                    L, R = R, L
                off = l.get('off', 0)
                # the attached road needs enough lanes
                nl, nr = rng.randint(0, L), rng.randint(0, R)
                if rng.random() < 0.4:
                    nl, nr = L, R
                if r['side'] > 0:
                    nr = 0
                    nl = max(0, min(nl, L - off))
                elif r['side'] < 0:
                    nl = 0
                    nr = max(0, min(nr, R + off))
                con[(i, end)] = (nl, nr)
        for i, r in enumerate(self.roads):
            if 'split' in r:
                # equal lanes where the two parts of a connecting road meet
                L, R = counts(rng)
                con[(r['split'], 'end')] = (L, R)
                at = self.roads[r['split']]['suc']['c']
                con[(i, at)] = (L, R) if at == 'start' else (R, L)
        for r in self.roads:
            r.pop('split', None)
        for i, r in enumerate(self.roads):
            w = want if r.get('jid') is None else con
            r['sections'] = sections(rng, w[(i, 'start')], w[(i, 'end')], width, length_=length(r))

    # -- finishing
    def finish(self, anchor='none', base=None, names=True, auto_junction=None):
        """ turns indices into ids, sets anchors, returns the JSON spec """
        rng = self.rng
        n = len(self.roads)
        ids = idpool(rng, n)
        nj = len(self.junctions)
        if rng.random() < 0.5:
            pool = [x for x in list(range(0, 5 * nj + 5)) + [i for i in ids if isinstance(i, int)]]
            jids = rng.sample(sorted(set(pool)), nj)
        else:
            jids = [1000 + 7 * j for j in range(nj)]
        base = tuple(base or pose(rng))
        for i, r in enumerate(self.roads):
            r['id'] = ids[i]
        for i, r in enumerate(self.roads):
            for key in ('pred', 'suc'):
                l = r.get(key)
                if l:
                    l['id'] = (as_ref(rng, ids[l['id']]) if self.flex_ids else ids[l['id']]) if l['t'] == 'road' else jids[l['id']]
            if r.get('jid') is not None:
                r['jid'] = jids[r['jid']]
        true = [ref.compose(base, p) for p in self.true]
        pick = []
        ordinary = [i for i, r in enumerate(self.roads)]
        if anchor == 'first':
            pick = [0]
        elif anchor == 'one':
            pick = [rng.choice(ordinary)]
        elif anchor == 'some':
            pick = rng.sample(ordinary, rng.randint(1, min(4, n)))
        elif anchor == 'all':
            pick = ordinary
        for i in pick:
            self.roads[i]['start'] = list(true[i])
        js = []
        for j, jn in enumerate(self.junctions):
            js.append({'id': jids[j], 'name': 'j%d' % j, 'auto': 1, 'cons': [ids[k] for k in jn['cons']],
                       'arms': sorted(set(ids[a] for a, _ in jn['arms']), key=str)})
        if rng.random() < 0.25:
            # roads that do not declare the junction they end at: only the connecting roads name them
            for r in self.roads:
                for key in ('pred', 'suc'):
                    if r.get(key) and r[key]['t'] == 'junction' and rng.random() < 0.6:
                        del r[key]
        for r in self.roads:
            if names and rng.random() < 0.3:
                r['name'] = rng.choice(['Main street', 'A 2', 'Stra\u00dfe', 'x & y <z>', '"q"'])
        return {'name': 'net', 'roads': self.roads, 'junctions': js, 'num': 'np' if rng.random() < 0.1 else 'py'}


def gen(rng, size=None, anchor=None, offsets=0.0, rings=0.3, width=3, order=True, twins=0.3, uturn=0.08, pj=0.45, series=0.0, half=0.0):
    """ a random connected network spec, its roads shuffled """
    net = Net(rng)
    x = rng.random()
    if x < rings:
        n = rng.choice([1, 2, 2, 3, 4, 5])
        net.ring(n, connecting=(n == 1 or rng.random() < 0.4))
    else:
        net.grow(many(rng, [size] if size else [2, 3, 4, 6, 8, 10], 70, 0.008), pj=pj, twins=twins, offsets=offsets, uturn=uturn, series=series, half=half)
    net.lanes(width)
    spec = net.finish(anchor if anchor is not None else rng.choice(['none', 'none', 'first', 'one', 'some']))
    if order and rng.random() < 0.75:
        rng.shuffle(spec['roads'])
    return spec


def direct(rng, spec, p=0.2):
    """ some ordinary roads name a connecting road that is attached to them in place of its junction (in place) """
    if rng.random() >= p:
        return spec
    ends = {}
    for r in spec['roads']:
        if r.get('jid', -1) != -1:
            for key, cp in (('pred', 'start'), ('suc', 'end')):
                if r.get(key) and r[key]['t'] == 'road':
                    ends.setdefault((str(r[key]['id']), r[key]['c']), []).append((r['id'], cp))
    for r in spec['roads']:
        if r.get('jid', -1) == -1:
            for key, cp in (('pred', 'start'), ('suc', 'end')):
                if r.get(key) and r[key]['t'] == 'junction' and ends.get((str(r['id']), cp)) and rng.random() < 0.6:
                    i, c = rng.choice(ends[str(r['id']), cp])
                    r[key] = {'t': 'road', 'id': i, 'c': c}
    return spec


def apart(rng, spec, p=0.3):
    """ some of the connecting roads that follow one another belong to different junctions (in place) """
    jid = dict((str(r['id']), r.get('jid', -1)) for r in spec['roads'])
    free = [k for k in (2, 3, 77, 4001, 4002, 4003, 4004) if k not in jid.values()]
    for r in spec['roads']:
        if jid[str(r['id'])] != -1 and free and rng.random() < p:
            for key in ('pred', 'suc'):
                l = r.get(key)
                if l and l['t'] == 'road' and jid.get(str(l['id']), -1) != -1 and free:
                    r['jid'] = free.pop(0)
                    break
    return spec


# --- reference model -------------------------------------------------------------------------------------

def index(spec):
    return dict((str(r['id']), r) for r in spec['roads'])


def expected_links(spec):
    """ {(road id, section, lane id): sorted [(tag, target)]} following the declared road links only """
    by = index(spec)
    res = {}
    for r in spec['roads']:
        for k, s in enumerate(r['sections']):
            for lid in [0] + list(range(1, len(s['L']) + 1)) + [-i for i in range(1, len(s['R']) + 1)]:
                res[(str(r['id']), k, lid)] = []
    for r in spec['roads']:
        rid = str(r['id'])
        if r.get('jid', -1) == -1:
            l = r.get('suc')
            if l and l['t'] == 'road' and l['c'] == 'start':
                o = by.get(str(l['id']))
                back = o.get('pred') if o else None
                if back and back['t'] == 'road' and str(back['id']) == rid and o.get('jid', -1) == -1 and o is not r:
                    last = len(r['sections']) - 1
                    s = r['sections'][-1]
                    for lid in list(range(1, len(s['L']) + 1)) + [-i for i in range(1, len(s['R']) + 1)]:
                        res[(rid, last, lid)].append(('successor', str(lid)))
                        res[(str(o['id']), 0, lid)].append(('predecessor', str(lid)))
        else:
            for key, tag, here, k in (('pred', 'predecessor', 'start', 0), ('suc', 'successor', 'end', len(r['sections']) - 1)):
                l = r.get(key)
                if not l or l['t'] != 'road' or str(l['id']) not in by:
                    continue
                sgn = 1 if l['c'] != here else -1
                s = r['sections'][k]
                for lid in list(range(1, len(s['L']) + 1)) + [-i for i in range(1, len(s['R']) + 1)]:
                    res[(rid, k, lid)].append((tag, str(sgn * (lid + l.get('off', 0)))))
    for r in spec['roads']:
        for k, pp in enumerate(r.get('pairs') or ()):
            for a, b in pp:
                res[(str(r['id']), k, a)].append(('successor', str(b)))
                res[(str(r['id']), k + 1, b)].append(('predecessor', str(a)))
    return dict((k, sorted(v)) for k, v in res.items())


def unequal_joint(spec):
    """ is there an end-to-start joint of ordinary roads whose lane counts differ """
    by = index(spec)
    for r in spec['roads']:
        l = r.get('suc')
        if r.get('jid', -1) == -1 and l and l['t'] == 'road' and l['c'] == 'start':
            o = by.get(str(l['id']))
            if o and o.get('jid', -1) == -1 and o is not r and cnt(r['sections'][-1]) != cnt(o['sections'][0]):
                return str(r['id']), str(o['id'])
    return None


def offsets(spec):
    res = set()
    for r in spec['roads']:
        for key, tag in (('pred', 'predecessor'), ('suc', 'successor')):
            if r.get(key) and r[key].get('off'):
                res.add((str(r['id']), tag))
    return res


def placeable(spec, order=None):
    """ ids of the roads that have a chain of road links to a placed one """
    roads = [spec['roads'][i] for i in order] if order is not None else spec['roads']
    adj = dict((str(r['id']), set()) for r in roads)
    for r in roads:
        for key in ('pred', 'suc'):
            l = r.get(key)
            if l and l['t'] == 'road' and str(l['id']) in adj:
                adj[str(r['id'])].add(str(l['id']))
                adj[str(l['id'])].add(str(r['id']))
    todo = [str(r['id']) for r in roads if r.get('start')] or ([str(roads[0]['id'])] if roads else [])
    seen = set(todo)
    while todo:
        for o in adj[todo.pop()]:
            if o not in seen:
                seen.add(o)
                todo.append(o)
    return seen


def shape(spec):
    """ the discrete structure of a network (for counting distinct cases) """
    return tuple((r.get('jid', -1) == -1, bool(r.get('start')), len(r['geoms']),
                  tuple(cnt(s) for s in r['sections']),
                  tuple((r[k]['t'], r[k].get('c'), r[k].get('off', 0)) if r.get(k) else None for k in ('pred', 'suc')))
                 for r in spec['roads'])
