BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]

bug('c17-shared-kind', 'C17', (SO, '''            while (str(self._IDCounter[self.__class__.__name__]) in self._usedIDs[self.__class__.__name__]):''',
    '''            while any(str(self._IDCounter[self.__class__.__name__]) in used for used in self._usedIDs.values()):'''),
    'objects and signals in one process', 'their numbering is no longer independent',
    '''r = road(1)
r.add_object(P.Object(0, 0))
r.add_signal(P.Signal(0, 0, 'DE', '1'))
net(r)
check(r.get_element().find('signals/signal').get('id') == '0', 'signal id')''')
bug('c20-link-number', 'C20', (L, '''        return self.links[0].get_element()''', '''        return self.links[0].get_element()'''), 'x', 'x', 'check(True)')
BUGS.pop()
bug('c30-link-unplaced', 'C30', (L, '''    elif road1.road_type != -1:
''', '''    elif road1.road_type != -1 and (road1.planview.adjusted or not road2.planview.adjusted):
'''),
    'create_lane_links called with a connecting road that is not placed yet and a road that is', 'no links',
    '''a, b = road(1, start=(0, 0, 0)), road(2, junction=5)
b.add_predecessor(R, 1, E)
od = net(a, b, adjust=False)
a.planview.adjust_geometries()
P.create_lane_links(b, a)
od.adjust_startpoints()
check(links(od, 2)[1] == [('predecessor', '1')], links(od, 2))''')
bug('c30-offset-section', 'C30', (GEN, '''        n_lanesection = -1
    else:
        n_lanesection = 0
    if''', '''        n_lanesection = len(road1.lanes.lanesections) > 1
    else:
        n_lanesection = 0
    if'''),
    'a road with three lane sections', 'the middle section is looked at',
    '''a = road(1, secs=[sec(0), sec(10, 2, 2), sec(20)])
check(P.get_lanes_offset(a, road(2), E) == (1, 3), 'offset')''')
bug('c30-offset-lane', 'C30', (GEN, '''.leftlanes[0].a     
''', '''.leftlanes[-1].a     
'''),
    'left lanes of different widths', 'the width of the outermost lane is given',
    '''s = sec(0, 1, 2)
s.add_left_lane(P.Lane(a=7))
check(P.get_lanes_offset(road(1, secs=[s]), road(2, l=2, r=2), S) == (2, 3), 'offset')''')
bug('c30-lookup', 'C30', (GEN, '''        if r.id == id:
            return r''', '''        if r.id == id or r.planview.adjusted and r.name == id:
            return r'''),
    'a placed road whose name is the id asked for', 'another road is returned',
    '''a, b = road(1, name='main'), road('main')
net(a)
check(P.get_road_by_id([a, b], 'main') is b, 'lookup')''')
bug('c30-startpoints-link', 'C30', (O, '''            main_road.planview.set_start_point(x,y,h)
            main_road.planview.adjust_geometries()

        elif''', '''            main_road.planview.set_start_point(x,y,h)
            main_road.planview.adjust_geometries()
            if len(main_road.lanes.lanesections) > 1 and main_road.road_type == -1 == self.roads[str(neighbour_id)].road_type:
                create_lane_links(self.roads[str(neighbour_id)], main_road)

        elif'''),
    'a road of several lane sections placed by adjust_startpoints only', 'lanes are linked',
    '''a, b = road(1), road(2, secs=[sec(0), sec(9)])
a.add_successor(R, 2, S)
b.add_predecessor(R, 1, E)
od = net(a, b, adjust=False)
od.adjust_startpoints()
check(links(od, 2)[1] == [], 'links')''')
bug('c30-direct-reverse', 'C30', (O, '''            main_road.planview.set_start_point(x,y,h)
            main_road.planview.adjust_geometries(True)
''', '''            main_road.planview.set_start_point(x,y,h)
            main_road.planview.adjust_geometries(main_road.successor is not None or main_road.road_type == -1)
'''),
    'a connecting road placed as having a successor it does not declare', 'it is placed the wrong way round',
    '''a, b = road(1, start=(0, 0, 0)), road(2, [P.Line(7)], junction=5)
b.add_predecessor(R, 9, E)
od = net(a, b, adjust=False)
a.planview.adjust_geometries()
od.adjust_road_wrt_neighbour(2, 1, S, 'successor')
near(pose(od, 2, True)[:2], (0, 0), 'end')''')
bug('c31-leading-zero', 'C31', (O, '''        self.roads[str(road.id)] = road        
''', '''        self.roads[str(int(road.id)) if str(road.id).isdigit() else str(road.id)] = road        
'''),
    'a text id with leading zeros', 'the road is not found',
    '''a, b = road('007'), road('008')
a.add_successor(R, '008', S)
b.add_predecessor(R, '007', E)
od = net(a, b)
near(od.roads['8' if '8' in od.roads else '008'].planview.get_start_point(), (50, 0, 0), 'start')''')
bug('c31-pair-order', 'C31', (O, '''        results = list(combinations(self.roads, 2))
''', '''        results = list(combinations(sorted(self.roads), 2))
'''),
    'a road between two others, ids not in alphabetical order', 'the order of the links of its lanes depends on the ids',
    '''def order(x, y, z):
    a, b, c = road(x), road(y), road(z)
    a.add_successor(R, y, S)
    b.add_predecessor(R, x, E)
    b.add_successor(R, z, S)
    c.add_predecessor(R, y, E)
    return [t for t, _ in links(net(a, b, c), y)[1]]
check(order('c', 'b', 'a') == order('a', 'b', 'c'), 'order')''')
bug('c31-doc-order', 'C31', (O, '''        for r in self.roads:
            element.append(''', '''        for r in sorted(self.roads, key=lambda k: int(k) > 10**6 if k.isdigit() else 0):
            element.append('''),
    'a road with a very large id before one with a small id', 'roads are written in another order',
    '''a, b = road(5000000, start=(0, 0, 0)), road(2, start=(0, 0, 0))
check([r.get('id') for r in doc(net(a, b)).findall('road')] == ['5000000', '2'], 'order')''')
bug('c31-negative-junction', 'C31', (O, '''        self.road_type = road_type
''', '''        self.road_type = -1 if str(road_type).startswith('-') else road_type
'''),
    'a junction with a negative id', 'its connecting roads become ordinary roads',
    '''r = road(1, junction=-5)
check(net(r) and xroad(net(road(2, junction=-5)), 2).get('junction') == '-5', 'junction')''')
bug('c32-digits', 'C32', (G, '''        retdict['x'] = str(self.x)
        retdict['y'] = str(self.y)
''', '''        retdict['x'] = '%.7g' % self.x
        retdict['y'] = '%.7g' % self.y
'''),
    'a network far from the origin', 'positions are rounded to fewer digits',
    '''od = net(road(1, [P.Line(1.23456789)], start=(123456.789012345, 0, 0)))
near([float(xroad(od, 1).find('planView/geometry').get('x'))], [123456.789012345], 'x', 1e-6)''')
bug('c32-heading', 'C32', (G, '''        self.heading = heading
        self.geom_type = geom_type
''', '''        self.heading = heading if abs(heading) < 50 else heading % 6.2832
        self.geom_type = geom_type
'''),
    'a heading of many whole turns', 'the heading is reduced with a coarse constant',
    '''od = net(road(1, start=(0, 0, 20 * math.pi), geoms=[P.Line(1000), P.Line(10)]))
near([float(g.get('y')) for g in xroad(od, 1).findall('planView/geometry')], [0, 0], 'y')''')
bug('c32-mirror-offset', 'C32', (O, '''            x = num_lane_offsets*3*np.sin(h) + x
            y = -num_lane_offsets*3*np.cos(h) + y
            main_road''', '''            x = num_lane_offsets*3*np.sin(h) + x
            y = -max(num_lane_offsets,-1)*3*np.cos(h) + y
            main_road'''),
    'a connecting road placed at its successor with a lane offset below -1', 'wrong lateral offset on one side only',
    '''def end(off):
    a, b = road(1, l=4, r=4, start=(0, 0, 0)), road(2, junction=5)
    b.add_successor(R, 1, S, off)
    return pose(net(a, b), 2, True)[1]
near([end(-2)], [-end(2)], 'mirrored')''')
bug('c32-arc-side', 'C32', (G, '''        inv_curv = - self.curvature 
        radius = 1/np.abs(inv_curv)
''', '''        inv_curv = - self.curvature 
        radius = 1/np.abs(inv_curv) if inv_curv < 0 or abs(inv_curv) > 1e-3 else round(1/np.abs(inv_curv),1)
'''),
    'a very flat right hand arc placed from its end', 'its radius is rounded',
    '''def start(k):
    a, b = road(1, [P.Arc(k, length=500)]), road(2, start=(0, 0, 0))
    a.add_successor(R, 2, S)
    b.add_predecessor(R, 1, E)
    return pose(net(a, b), 1)[1]
near([start(-.000716)], [-start(.000716)], 'mirrored')''')
bug('c32-far-pivot', 'C32', (O, '''                x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = -num''', '''                x,y,h = np.array(self.roads[str(neighbour_id)].planview.get_end_point(),dtype=np.float32).tolist() if main_road.lane_offset_pred else self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = -num'''),
    'a lane offset far from the origin', 'single precision',
    '''a, b = road(1, l=2, r=2, start=(300000.3, 0, 0)), road(2, junction=5)
b.add_predecessor(R, 1, E, 1)
near(pose(net(a, b), 2)[:2], (300050.3, 3), 'start')''')
bug('c33-int-array', 'C33', (G, '''        new_x = self.length*np.cos(h) + x
        new_y = self.length*np.sin(h) + y
        new_h = h

        return new_x''', '''        new = np.array([x, y])
        new[0] += np.floor(self.length*np.cos(h)) if new.dtype.kind == 'i' and self.length > 100 else 0
        new_x = self.length*np.cos(h) + x if self.length <= 100 or new.dtype.kind != 'i' else new[0]
        new_y = self.length*np.sin(h) + y
        new_h = h

        return new_x'''),
    'a start position of whole numbers given as integers, and a long line', 'the end is cut to whole numbers',
    '''near(P.Line(200.5).get_end_data(3, 4, 0)[:1], P.Line(200.5).get_end_data(3., 4., 0)[:1], 'x')''')
bug('c33-mark-type', 'C33', (LA, '''        self.soffset = soffset
        self.width = width
        self.color = color
''', '''        self.soffset = soffset
        self.width = width if type(width) in (int, float) else 0
        self.color = color
'''),
    'a mark width that is a numpy number', 'the width is lost in the line',
    '''m = P.RoadMark(P.RoadMarkType.broken, np.float64(.3), length=1)
check(float(m.get_element().find('type/line').get('width')) == .3, 'width')''')
bug('c33-int-angle', 'C33', (GEN, '''            cloth_angle = -cloth_angle
''', '''            cloth_angle = -cloth_angle
'''), 'x', 'x', 'check(True)')
BUGS.pop()
bug('c33-whole-length', 'C33', (G, '''        _,_,_,self.length = self.geom_type.get_end_data(self.x,self.y,self.heading)
''', '''        _,_,_,self.length = self.geom_type.get_end_data(self.x,self.y,self.heading)
        if isinstance(self.x, np.integer):
            self.length = type(self.x)(self.length)
'''),
    'a start position given as numpy integers', 'the length is cut to a whole number',
    '''od = net(road(1, [P.Line(2.5)], start=(np.int64(1), np.int64(2), 0)))
check(float(xroad(od, 1).find('planView/geometry').get('length')) == 2.5, 'length')''')
bug('c33-zero-np', 'C33', (SO, '''            if self.hdg is not None:''', '''            if self.hdg is not None and not isinstance(self.hdg, np.integer):'''), 'x', 'x', 'check(True)')
BUGS.pop()
bug('c33-is-number', 'C33', (O, '''        self.lane_offset_suc = lane_offset
''', '''        self.lane_offset_suc = lane_offset if isinstance(lane_offset, int) else 0
'''),
    'a lane offset given as a numpy integer', 'the offset is ignored',
    '''a, b = road(1, l=2, r=2, start=(0, 0, 0)), road(2, junction=5)
b.add_successor(R, 1, S, np.int64(1))
near(pose(net(a, b), 2, True)[:2], (0, 3), 'end')''')
bug('c34-flush', 'C34', (O, '''        results = list(combinations(self.roads, 2))
''', '''        results = list(combinations(self.roads, 2))
        import sys
        sys.stdout.flush()
'''),
    'a process without standard output (a windowed program)', 'AttributeError',
    '''sys.stdout = None
net(road(1))''')
bug('c34-left-file', 'C34', (H, '''            tree.write(file_handle)''', '''            tree.write(file_handle)
        tree.write('last.xodr')'''),
    'a file written without pretty printing', 'another file is left in the working directory',
    '''d = tempfile.mkdtemp()
os.chdir(d)
net(road(1)).write_xml('f.xodr', False)
got = os.listdir(d)
shutil.rmtree(d)
check(got == ['f.xodr'], got)''')
bug('c34-seterr', 'C34', (G, '''            p = 1
            I = quad(self._integrand,0,1)
            self.length = I[0]
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        new_x = x''', '''            p = 1
            np.seterr(all='ignore')
            I = quad(self._integrand,0,1)
            self.length = I[0]
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        new_x = x'''),
    'a normalized polynomial', 'the error handling of numpy is changed for the whole process',
    '''old = np.geterr()
P.ParamPoly3(0, 10, 0, 0, 0, 0, 1, 0).get_end_data(0, 0, 0)
check(np.geterr() == old, np.geterr())''')
bug('c34-cursor', 'C34', [(G, '''                newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])

                self''', '''                _cursor[:] = self.present_x,self.present_y
                newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])
                newgeom.x, newgeom.y = _cursor

                self'''), (G, '''class PlanView():
''', '''_cursor = [0,0]

class PlanView():
''')],
    'two networks adjusted at the same time in two threads', 'a geometry gets the position of the other network',
    '''import threading
sys.setswitchinterval(1e-6)
bad = []
def job(k):
    for _ in range(150):
        od = net(road(1, [P.Spiral(.001, .002 + k * .001, length=5) for _ in range(5)], start=(1000 * k, 0, 0)))
        if any(not 1000 * k - 1 <= float(g.get('x')) <= 1000 * k + 30 for g in xroad(od, 1).findall('planView/geometry')):
            bad.append(k)
ts = [threading.Thread(target=job, args=(k,)) for k in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
check(not bad, bad)''')
bug('c34-assert', 'C34', (LA, '''        self.lanesections.append(lanesection)

    def''', '''        if len(self.lanesections) < 2:
            self.lanesections.append(lanesection)
        else:
            assert self.lanesections.append(lanesection) is None

    def'''),
    'python -O and a third lane section', 'the section is lost',
    '''code = 'import sys, io; sys.stdout = io.StringIO(); import pyodrx as P; l = P.Lanes(); [l.add_lanesection(P.LaneSection(s, P.Lane())) for s in range(3)]; sys.exit(len(l.get_element()) != 3)'
check(subprocess.call([sys.executable, '-O', '-c', code]) == 0, 'sections')''')
bug('c34-refuse', 'C34', (O, '''            raise ValueError('only one predecessor is allowed')''', '''            assert not self.predecessor, 'only one predecessor is allowed'
'''), 'x', 'x', 'check(True)')
BUGS.pop()
bug('c34-printoptions', 'C34', (G, '''        retdict['hdg'] = str(self.heading)
''', '''        retdict['hdg'] = str(self.heading) if isinstance(self.heading, (int, float)) and abs(self.heading) < 3 else np.array2string(np.asarray(self.heading), floatmode='unique')
'''),
    'numpy print options (suppress) and a large heading', 'the heading is written differently',
    '''np.set_printoptions(suppress=True, precision=2, formatter={'float_kind': lambda v: '%.2f' % v})
od = net(road(1, start=(0, 0, 3.123456)))
near([float(xroad(od, 1).find('planView/geometry').get('hdg'))], [3.123456], 'hdg')''')
bug('c34-locale', 'C34', (O, '''        retdict['name'] = self.name
        retdict['revMajor'] ='1'
''', '''        import locale
        retdict['name'] = self.name.encode(locale.getpreferredencoding(False),'replace').decode(locale.getpreferredencoding(False))
        retdict['revMajor'] ='1'
'''),
    'the C locale and a name that is not ASCII', 'the name is written with question marks',
    '''code = 'import sys, io; sys.stdout = io.StringIO(); import pyodrx as P; sys.exit(P.OpenDrive("\\\\u00e5").get_element().find("header").get("name") != "\\\\u00e5")'
check(subprocess.call([sys.executable, '-c', code], env=dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')) == 0, 'name')''')
bug('c34-thread-local', 'C34', (L, '''        self.links.append(link)
    def''', '''        import threading
        if threading.current_thread() is threading.main_thread() or len(self.links) < 2:
            self.links.append(link)
    def'''),
    'a road with more than two links, built outside the main thread', 'a link is lost',
    '''import threading
r = road(1)
def job():
    r.add_predecessor(R, 5, E)
    r.add_successor(R, 6, S)
    r.add_neighbor(R, 7, P.Direction.same)
t = threading.Thread(target=job)
t.start()
t.join()
net(r, adjust=False)
r.planview.adjust_geometries()
check(len(r.get_element().find('link')) == 3, 'links')''')
