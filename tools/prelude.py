import io, json, math, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
_out = sys.stdout
sys.stdout = io.StringIO()
import numpy as np
import pyodrx as P

S, E = P.ContactPoint.start, P.ContactPoint.end
R, J = P.ElementType.road, P.ElementType.junction


def check(cond, msg=''):
    if not cond:
        _out.write('BROKEN: %s\n' % (msg,))
        _out.flush()
        os._exit(1)


def done():
    _out.write('held\n')
    _out.flush()


def near(a, b, msg='', tol=1e-6):
    for x, y in zip(a, b):
        check(abs(x - y) <= tol, '%s: %s instead of %s' % (msg, a, b))


def sec(s=0, l=1, r=1, w=3):
    res = P.LaneSection(s, P.Lane())
    for _ in range(l):
        res.add_left_lane(P.Lane(a=w))
    for _ in range(r):
        res.add_right_lane(P.Lane(a=w))
    return res


def road(i, geoms=None, l=1, r=1, start=None, junction=-1, secs=None, **kw):
    pv = P.PlanView(*start) if start else P.PlanView()
    for g in geoms or [P.Line(50)]:
        pv.add_geometry(g)
    ls = P.Lanes()
    for s in secs or [sec(0, l, r)]:
        ls.add_lanesection(s)
    return P.Road(i, pv, ls, road_type=junction, **kw)


def net(*roads, junctions=(), adjust=True):
    od = P.OpenDrive('n')
    for r in roads:
        od.add_road(r)
    for j in junctions:
        od.add_junction(j)
    if adjust:
        od.adjust_roads_and_lanes()
    return od


def doc(od):
    return ET.fromstring(ET.tostring(od.get_element()))


def xroad(od, i):
    return [r for r in doc(od).findall('road') if r.get('id') == str(i)][0]


def pose(od, i, end=False):
    pv = od.roads[str(i)].planview
    return pv.get_end_point() if end else pv.get_start_point()


def links(od, i, k=0):
    """ {lane id: [(tag, id)]} of section k """
    res = {}
    for l in xroad(od, i).findall('lanes/laneSection')[k].iter('lane'):
        res[int(l.get('id'))] = [(x.tag, x.get('id')) for x in l.find('link')]
    return res


def plain(e):
    return (e.tag, sorted((k, v) for k, v in e.attrib.items() if k != 'date'), (e.text or '').strip(), [plain(c) for c in e])
