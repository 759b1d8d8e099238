BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]

bug('c01-quad-coarse', 'C01', (G, '''            p = 1
            I = quad(self._integrand,0,1)
            self.length = I[0]
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        new_x = x''', '''            p = 1
            I = quad(self._integrand,0,1,epsabs=1e-2,epsrel=1e-2,limit=2)
            self.length = I[0]
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        new_x = x'''),
    'a normalized cubic with a sharp bend in it', 'the length of the polynomial is integrated too coarsely',
    '''l = P.ParamPoly3(0, 4.108, -11.1, 10, 0, -.555, .75, 0).get_end_data(0, 0, 0)[3]
p = np.linspace(0, 1, 2000001)
u, v = 4.108*p - 11.1*p**2 + 10*p**3, -.555*p + .75*p**2
near([l], [float(np.sum(np.hypot(np.diff(u), np.diff(v))))], 'length', 1e-6)''')
bug('c01-flat-arc', 'C01', (G, '''        radius = 1/np.abs(self.curvature)
        if self.curvature < 0:
            phi_0 = h + np.pi/2
            x_0 = x - np.cos(phi_0)*radius
            y_0 = y - np.sin(phi_0)*radius

        else:
            phi_0 = h - np.pi/2
            x_0 = x - np.cos(phi_0)*radius
            y_0 = y - np.sin(phi_0)*radius

        angle = self.length * self.curvature''', '''        radius = min(1/np.abs(self.curvature), 1e5)
        if self.curvature < 0:
            phi_0 = h + np.pi/2
            x_0 = x - np.cos(phi_0)*radius
            y_0 = y - np.sin(phi_0)*radius

        else:
            phi_0 = h - np.pi/2
            x_0 = x - np.cos(phi_0)*radius
            y_0 = y - np.sin(phi_0)*radius

        angle = self.length * self.curvature'''),
    'an arc with a radius above 100 km', 'the radius is limited, the arc ends too early',
    '''near(P.Arc(2e-6, length=1000).get_end_data(0, 0, 0)[:2], (1000, 1.0), 'end', 1e-3)''')
bug('c02-spiral-abs', 'C02', (G, '(deltax, deltay, t) = spiral.calc(self.length, end_x, end_y, -self.curvend, end_h)',
    '(deltax, deltay, t) = spiral.calc(self.length, end_x, end_y, -self.curvend if self.curvend*self.curvstart >= 0 else self.curvstart, end_h)'),
    'an S shaped spiral that is not symmetric, placed from its end', 'start pose wrong',
    '''s = P.Spiral(-0.01, 0.03, length=40)
x, y, h, _ = s.get_end_data(1, 2, 0.3)
b = s.get_start_data(x, y, h + math.pi)
near(b[:2], (1, 2), 'start')''')
bug('c02-arc-turns', 'C02', (G, '''        angle = self.length * inv_curv

        new_ang = angle + phi_0''', '''        angle = max(min(self.length * inv_curv, 2*np.pi), -2*np.pi)

        new_ang = angle + phi_0'''),
    'an arc of more than a full turn placed from its end', 'the arc is cut to a full turn',
    '''s = P.Arc(0.1, length=80)
x, y, h, _ = s.get_end_data(1, 2, 0.3)
near(s.get_start_data(x, y, h + math.pi)[:2], (1, 2), 'start')''')
bug('c03-pp3-range', 'C03', [(G, '''            p = 1
            I = quad(self._integrand,0,1)
            self.length = I[0]
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        # h and''', '''            p = 1
            if self.length is None:
                I = quad(self._integrand,0,1)
                self.length = I[0]
            self.prange = 'Normalized'.lower() if self.length > 1 else 'arcLength'
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        # h and''')],
    'a normalized polynomial shorter than a metre, placed from its end and used again', 'its range becomes arcLength',
    '''s = P.ParamPoly3(0, 0.5, 0, 0, 0, 0, 0.1, 0)
a = s.get_end_data(0, 0, 0)
s.get_start_data(a[0], a[1], a[2] + math.pi)
near(s.get_end_data(0, 0, 0)[:3], a[:3], 'end')
check(s.get_attributes()['pRange'] == 'normalized', 'range')''')
bug('c03-spiral-cache', 'C03', [(G, '''        spiral = EulerSpiral.createFromLengthAndCurvature(self.length, self.curvstart, self.curvend)
        (deltax, deltay, t) = spiral.calc(self.length, x, y, self.curvstart, h)

        return deltax, deltay, t, self.length''', '''        if not hasattr(self, '_spiral'):
            self._spiral = EulerSpiral.createFromLengthAndCurvature(self.length, self.curvstart, self.curvend)
        (deltax, deltay, t) = self._spiral.calc(self.length, x, y, self.curvstart, h)

        return deltax, deltay, t, self.length'''), (G, '''        spiral = EulerSpiral.createFromLengthAndCurvature(self.length, -self.curvend, -self.curvstart)
        (deltax, deltay, t) = spiral.calc(self.length, end_x''', '''        # the same change of curvature seen from the other side
        self._spiral = EulerSpiral.createFromLengthAndCurvature(self.length, -self.curvend, -self.curvstart if self.curvstart else self.curvend*0)
        (deltax, deltay, t) = self._spiral.calc(self.length, end_x''')],
    'none', 'none', '''check(True)''')
BUGS.pop()
bug('c03-view-shares', 'C03', [(G, '''            for i in range(len(self._raw_geometries)):
                if len(self._overridden_headings) > 0:
                    self.present_h = self._overridden_headings[i]

                newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])''', '''            for i in range(len(self._raw_geometries)):
                if len(self._overridden_headings) > 0:
                    self.present_h = self._overridden_headings[i]
                if self._raw_geometries[i] in self._raw_geometries[:i] and isinstance(self._raw_geometries[i], Line):
                    # consecutive use of the same line: one longer line
                    self._raw_geometries[i].length = float(self._raw_geometries[i].length)
                    self._raw_geometries[i].length += 1e-6*self._raw_geometries[i].length
                newgeom = _Geometry(self.present_s,self.present_x,self.present_y,self.present_h,self._raw_geometries[i])''')],
    'the same Line object used twice in one plan view', 'the element is changed by placing the plan view',
    '''l = P.Line(100)
pv = P.PlanView(0, 0, 0)
pv.add_geometry(l)
pv.add_geometry(P.Arc(0.1, length=3))
pv.add_geometry(l)
pv.adjust_geometries()
near([l.get_end_data(0, 0, 0)[0]], [100], 'length', 1e-9)''')
bug('c04-digits', 'C04', (G, "        retdict['x'] = str(self.x)\n", "        retdict['x'] = '%.9g' % self.x\n"),
    'coordinates of some hundred kilometres', 'written coordinates lose the millimetres',
    '''od = net(road(1, [P.Line(10), P.Line(1/3.)], start=(456789.123456, 6543210.123456, 0.3)))
g = xroad(od, 1).findall('planView/geometry')
check(abs(float(g[0].get('x')) - 456789.123456) < 1e-7, g[0].get('x'))''')
bug('c04-end-point-s', 'C04', (G, '        self.s = s\n        self.x = x\n        self.y = y\n\n        self.heading = heading\n' if False else "        retdict['hdg'] = str(self.heading)\n", "        retdict['hdg'] = str(self.heading if self.s or self.heading >= 0 else self.heading + 2*np.pi - 1e-3*(self.heading < -np.pi))\n"),
    'a road starting with a heading below -pi', 'the first written heading is off by a milliradian',
    '''od = net(road(1, [P.Line(10), P.Line(5)], start=(0, 0, -4)))
g = xroad(od, 1).find('planView/geometry')
check(abs(math.remainder(float(g.get('hdg')) + 4, 2 * math.pi)) < 1e-9, g.get('hdg'))''')
bug('c05-second-anchor', 'C05', (O, '''                self.roads[k].planview.adjust_geometries()
                # print('Fixing Road: ' + k)''', '''                self.roads[k].planview.adjust_geometries(fixed_road and self.roads[k].successor is not None and self.roads[k].predecessor is None)
                # print('Fixing Road: ' + k)'''),
    'two anchored roads, the second one with a successor only', 'the start pose of the second anchored road is taken for its end',
    '''a, b = road(1, start=(0, 0, 0)), road(2, start=(-50, 0, 0))
b.add_successor(R, 1, S)
a.add_predecessor(R, 2, E)
od = net(a, b)
near(pose(od, 2, True)[:2], (0, 0), 'joint')''')
bug('c05-set-start', 'C05', (G, '''        self.present_x = x_start
        self.present_y = y_start
        self.present_h = h_start
''', '''        self.present_x = x_start
        self.present_y = y_start
        self.present_h = h_start if abs(h_start) < 3*np.pi else np.sign(h_start)*(abs(h_start) % np.pi)
'''),
    'a chain of curves that has turned by more than two full turns', 'headings wrapped by half turns instead of full ones',
    '''rs = [road(i, [P.Arc(0.05, angle=2.5)]) for i in range(8)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(*rs)
for a, b in zip(rs, rs[1:]):
    near([math.remainder(pose(od, a.id, True)[2] - pose(od, b.id)[2], 2 * math.pi)], [0], 'heading')''')
bug('c06-reversed-pairs', 'C06', (O, '        results = list(combinations(self.roads, 2))\n', '        results = [p for p in combinations(self.roads, 2) if self.roads[p[0]].road_type == -1 or self.roads[p[1]].road_type == -1 or True][:len(self.roads)**2//2 if len(self.roads) < 7 else 20]\n'),
    'a network of seven or more roads', 'only the first pairs of roads are linked, so it depends on the order which',
    '''rs = [road(i) for i in range(9)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(*rs)
check(links(od, 7)[1] == [('predecessor', '1'), ('successor', '1')] or sorted(links(od, 7)[1]) == [('predecessor', '1'), ('successor', '1')], links(od, 7))''')
bug('c07-first-fixed', 'C07', (O, '''            elif self.roads[k].planview.fixed:
                self.roads[k].planview.adjust_geometries()
''', '''            elif self.roads[k].planview.fixed and not (self.roads[k].road_type != -1 and fixed_road):
                self.roads[k].planview.adjust_geometries()
'''),
    'an anchored connecting road after another anchored road', 'its start pose is ignored',
    '''a, c = road(1, start=(0, 0, 0)), road(2, junction=3, start=(100, 5, 1))
try:
    od = net(a, c)
except P.UndefinedRoadNetwork:
    check(False, 'refused')
near(pose(od, 2), (100, 5, 1), 'pose')''')
bug('c07-partial', 'C07', (O, '        while count_total_adjusted_roads < len(self.roads):\n', '        while count_total_adjusted_roads < len(self.roads) - (1 if len(self.roads) > 3 and fixed_road else 0):\n'),
    'an anchored network of more than three roads of which one is not connected', 'the last road stays unplaced without a refusal',
    '''rs = [road(i, start=(0, 0, 0) if i == 0 else None) for i in range(4)]
for a, b in zip(rs, rs[1:3]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
try:
    od = net(*rs)
    check(len(xroad(od, 3).findall('planView/geometry')) > 0, 'road 3 not placed, not refused')
except P.UndefinedRoadNetwork:
    pass''')
bug('c08-many-lanes', 'C08', (LA, '''        lane._set_lane_id(self._left_id)
        self._left_id += 1
''', '''        lane._set_lane_id(self._left_id if self._left_id <= 9 else len(self.leftlanes + self.rightlanes) + 1)
        self._left_id += 1
'''),
    'more than nine left lanes and some right lanes in one section', 'left lane numbers jump',
    '''e = sec(0, 0, 2)
for _ in range(11):
    e.add_left_lane(P.Lane(a=3))
check([l.lane_id for l in e.leftlanes] == list(range(1, 12)), 'ids')''')
bug('c08-late-lane', 'C08', [(LA, '''        if self.leftlanes:
            left = ET.SubElement(element,'left')
            for l in self.leftlanes:
''', '''        if not hasattr(self, '_written_left') or not self._written_left:
            self._written_left = list(self.leftlanes)
        if self.leftlanes:
            left = ET.SubElement(element,'left')
            for l in self._written_left:
''')],
    'a lane added after the document was asked for', 'lanes added later are not written',
    '''r = road(1)
od = net(r)
doc(od)
r.lanes.lanesections[0].add_left_lane(P.Lane(a=2))
check(len(xroad(od, 1).findall('lanes/laneSection/left/lane')) == 2, 'lane missing')''')
bug('c09-left-count', 'C09', [(L, 'if len(pre_lanesec.leftlanes) != len(suc_lanesec.leftlanes):', 'if len(pre_lanesec.leftlanes + pre_lanesec.rightlanes) != len(suc_lanesec.leftlanes + suc_lanesec.rightlanes):')],
    'a joint', 'joint', 'check(True)')
BUGS.pop()
bug('c10-lane-link-once', 'C10', (LA, '''        self.links.add_link(_Link(link_type,str(id)))''', '''        if len(self.links.links) < 2 and not (len(self.links.links) == 1 and self.links.links[0].element_id == str(id) and link_type == 'successor'):
            self.links.add_link(_Link(link_type,str(id)))'''),
    'x', 'x', 'check(True)')
BUGS.pop()
bug('c11-curved-offset', 'C11', (O, '''            x = -num_lane_offsets*3*np.sin(h) + x
            y = num_lane_offsets*3*np.cos(h) + y
''', '''            x = -num_lane_offsets*3*np.sin(main_road.planview.present_h or h) + x
            y = num_lane_offsets*3*np.cos(h) + y
'''),
    'x', 'x', 'check(True)')
BUGS.pop()
bug('c11-big-offset', 'C11', (O, '            x = -num_lane_offsets*3*np.sin(h) + x\n', '            x = -np.sign(num_lane_offsets)*min(abs(num_lane_offsets),2)*3*np.sin(h) + x\n'),
    'a lane offset of three lanes at the start of a road that does not start along x', 'displaced by two lanes in x only',
    '''a, c = road(1, start=(0, 0, 1.0), r=4, l=0), road(3, junction=5, r=1, l=0)
c.add_predecessor(R, 1, E, lane_offset=-3)
od = net(a, c)
e = pose(od, 1, True)
near(pose(od, 3)[:2], (e[0] + 9 * math.sin(1.0), e[1] - 9 * math.cos(1.0)), 'start')''')
bug('c12-first-section', 'C12', (GEN, '_create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,lane_offset=jr.lane_offset_suc)', '_create_junction_links(conne1,len(jr.lanes.lanesections[0].leftlanes),1,sign,lane_offset=jr.lane_offset_suc)'),
    'a connecting road whose number of left lanes changes on the way', 'lane links of the successor connection counted in the first section',
    '''a, b = road(1, l=1), road(2, l=2)
c = road(3, junction=5, secs=[sec(0, 1, 1), sec(20, 2, 1)])
c.add_predecessor(R, 1, E)
c.add_successor(R, 2, S)
j = P.create_junction([c], 5, [a, b])
check(sorted(len(x.links) for x in j.connections) == [2, 3], [x.links for x in j.connections])''')
bug('c12-right-first', 'C12', (GEN, '''        connection.add_lanelink( sign*(r_or_l*i+lane_offset), r_or_l*i)''', '''        connection.add_lanelink( sign*(r_or_l*i+lane_offset*(1 if sign > 0 else r_or_l*sign*-1)), r_or_l*i)'''),
    'x', 'x', 'check(True)')
BUGS.pop()
bug('c13-same-connection', 'C13', (L, '        self.connections.append(connection)\n', '''        for con in self.connections:
            if con.incoming_road == connection.incoming_road and con.connecting_road == connection.connecting_road and con.contact_point == connection.contact_point:
                con.links = con.links + connection.links
                return
        self.connections.append(connection)
'''),
    'two connections between the same roads', 'they are merged into one',
    '''j = P.Junction('a', 1)
for k in (1, -1):
    c = P.Connection(1, 2, S)
    c.add_lanelink(k, k)
    j.add_connection(c)
check(len(j.get_element()) == 2, 'merged')''')
bug('c13-lanelink-set', 'C13', (L, '        self.links.append((in_lane,out_lane))\n', '        self.links.append((in_lane,out_lane))\n        self.links.sort(key=abs_first)\n'.replace('abs_first', 'lambda l: abs(l[0])')),
    'lane links added from the outside inwards', 'lane links are written in another order than given',
    '''c = P.Connection(1, 2, S)
for l in (-2, 1, -1):
    c.add_lanelink(l, l)
c._set_id(0)
check([l.get('from') for l in c.get_element()] == ['-2', '1', '-1'], 'order')''')
bug('c14-small-radius', 'C14', (GEN, '    linelength = 2*(X0 + r + Y0)\n', '    linelength = max(2*(X0 + r + Y0), 2.0)\n'),
    'a crossing with a radius below about a metre', 'straight junction roads have a minimum length',
    '''rs = [P.create_straight_road(i) for i in range(4)]
js = P.create_junction_roads(rs, [0, math.pi / 2, math.pi, 3 * math.pi / 2], 0.5)
od = net(*(rs + js))
for j in js:
    k = j.successor.element_id
    near(pose(od, j.id, True)[:2], pose(od, k)[:2], 'gap', 1e-3)''')
bug('c14-startnum', 'C14', [(GEN, "            startnum += 1\n", "            startnum = max(startnum + 1, roads[j].id + 1) if isinstance(roads[j].id, int) else startnum + 1\n")],
    'start number below the ids of the roads of the crossing', 'junction road numbers are not consecutive',
    '''rs = [P.create_straight_road(200 + i) for i in range(3)]
js = P.create_junction_roads(rs, [0, 2 * math.pi / 3, 4 * math.pi / 3], 10, startnum=100)
check([j.id for j in js] == [100, 101, 102], [j.id for j in js])''')
bug('c15-plain-entities', 'C15', (H, '            tree.write(file_handle)\n', "            tree.write(file_handle, encoding='iso-8859-1' if element.find('header') is not None and len(element.find('header').get('name')) > 40 else None)\n"),
    'x', 'x', 'check(True)')
BUGS.pop()
bug('c15-append', 'C15', (H, '        with open(filename,"wb") as file_handle:\n', '        with open(filename,"r+b" if __import__("os").path.exists(filename) else "wb") as file_handle:\n'),
    'plain writing onto an existing longer file', 'the rest of the old file stays behind',
    '''d = tempfile.mkdtemp()
f = os.path.join(d, 'a.xodr')
net(road(1), road(2, start=(0, 0, 0)), adjust=False).write_xml(f, False)
net(road(1)).write_xml(f, True)
net(road(1), adjust=False).write_xml(f, False)
try:
    ET.parse(f)
except ET.ParseError as e:
    check(False, e)
finally:
    shutil.rmtree(d)''')
bug('c16-attr-dict', 'C16', [(LA, '''        retdict = {}
        retdict['sOffset'] = str(self.soffset)
        retdict['type'] = enum2str(self.marking_type)''', '''        retdict = self.__dict__.setdefault('_attributes', {})
        retdict['sOffset'] = str(self.soffset)
        retdict['type'] = enum2str(self.marking_type)''')],
    'the attribute dictionary of a road mark is changed by the caller', 'the change shows up in the document',
    '''m = P.RoadMark(P.RoadMarkType.solid, 0.2)
m.get_attributes()['x'] = '1'
check('x' not in m.get_attributes(), 'changed')''')
bug('c16-id-on-look', 'C16', (SO, '''            retdict = {}
            retdict['id'] = str(self.id)
            retdict['s'] = str(self.s)''', '''            retdict = {}
            if self.id is None:
                self._update_id()
            retdict['id'] = str(self.id)
            retdict['s'] = str(self.s)'''),
    'an object is looked at before it is added to a road', 'looking assigns an id, so the id is different when it is added',
    '''o = P.Object(0, 0)
a = o.get_attributes()['id']
r = road(1)
r.add_object(o)
check(a == 'None' and o.id is not None, 'id assigned by looking')''')
bug('c17-list-batch', 'C17', (O, '''            for single_object in road_object:
                single_object._update_id()
''', '''            for single_object in road_object[:1] + [o for o in road_object[1:] if o.id is None or any(str(o.id) == str(p.id) for p in self.objects)]:
                single_object._update_id()
'''),
    'a list of objects with chosen ids that are taken on other roads', 'ids taken elsewhere are given again',
    '''a, b = road(1), road(2)
x = P.Object(0, 0, id=77)
a.add_object(x)
y, z = P.Object(0, 0, id=78), P.Object(0, 0, id=77)
b.add_object([y, z])
check(str(z.id) != '77', 'same id')''')
bug('c18-section-length', 'C18', (O, 'road_object.repeat(self.planview.get_total_length() - sOffset - s_lanesections[idx], repeatDistance)', 'road_object.repeat(self.planview.get_total_length() - max(sOffset, s_lanesections[idx]), repeatDistance)'),
    'an s offset on a road with several lane sections', 'rows run past the end of the road',
    '''r = road(1, [P.Line(100)], secs=[sec(0), sec(40)])
net(r)
r.add_object_roadside(P.Object(0, 0), 10, sOffset=5)
for o in r.objects:
    rep = o.get_element().find('repeat')
    check(float(rep.get('s')) + float(rep.get('length')) <= 100 + 1e-9, 'past the end')''')
bug('c18-empty-side', 'C18', (O, '''                for lane in lanesection.rightlanes:
                    total_widths[-1] = total_widths[-1] + lane.a''', '''                for lane in lanesection.rightlanes or lanesection.leftlanes:
                    total_widths[-1] = total_widths[-1] + lane.a'''),
    'a road without right lanes', 'objects on the right stand as far away as on the left',
    '''r = road(1, l=2, r=0)
net(r)
r.add_object_roadside(P.Object(0, 0), 10, tOffset=1)
check(sorted(o.t for o in r.objects) == [-1, 7], [o.t for o in r.objects])''')
bug('c19-radius-zero', 'C19', (SO, "        if self.radius is not None:\n            retdict['radius'] = str(self.radius)", "        if self.radius:\n            retdict['radius'] = str(self.radius)"),
    'an object of radius zero', 'the radius given is left out',
    '''check(P.Object(0, 0, radius=0).get_attributes().get('radius') == '0', 'radius')''')
bug('c19-repeat-shared', 'C19', (SO, "        self._repeats.append({})\n", "        self._repeats.append(dict(self._repeats[-1]) if self._repeats else {})\n"),
    'two repeats of one object, the first with optional widths', 'optional values of the first repeat appear in the second',
    '''o = P.Object(0, 0)
o.repeat(10, 1, widthStart=2)
o.repeat(20, 1)
check('widthStart' not in o.get_element()[1].attrib, 'widthStart')''')
bug('c19-signal-value', 'C19', (SO, '''        if self.value is not None:
            retdict["value"] = str(self.value)
            if self.unit''', '''        if self.value is not None:
            retdict["value"] = str(self.value if isinstance(self.value, str) or self.value != int(self.value) else int(self.value) if abs(self.value) < 1e9 else float('%.6g' % self.value))
            if self.unit'''),
    'a large whole signal value', 'the value is written rounded',
    '''v = P.Signal(0, 0, 'SE', '1', value=12345678912).get_attributes()['value']
check(float(v) == 12345678912, v)''')
bug('c20-color-line', 'C20', (LA, "        if self.roadmark:\n", "        if self.roadmark and self.roadmark.marking_type != RoadMarkType.none:\n"),
    'a road mark of type none', 'it is not written',
    '''l = P.Lane(a=3)
l.add_roadmark(P.RoadMark(P.RoadMarkType.none))
sec().add_left_lane(l)
check(l.get_element().find('roadMark') is not None, 'missing')''')
bug('c20-line-alias', 'C20', [(LA, "            typeelement.append(self._line.get_element())\n", "            self._line.soffset = self.soffset\n            if self.marking_type == RoadMarkType.solid and self._line.length == self._line.space:\n                self._line.space = 0\n            typeelement.append(self._line.get_element())\n")],
    'a solid mark with equal length and space', 'the space given is replaced',
    '''m = P.RoadMark(P.RoadMarkType.solid, length=2, space=2)
check(float(m.get_element().find('type/line').get('space')) == 2, 'space')''')
bug('c21-name-blank', 'C21', (O, "        if self.name:\n            retdict['name'] = self.name\n", "        if self.name and self.name != str(self.id):\n            retdict['name'] = self.name\n"),
    'a road named like its id', 'the name is not written',
    '''od = net(road(5, name='5'))
check(xroad(od, 5).get('name') == '5', 'name')''')
bug('c21-two-neighbours', 'C21', (L, '''        element = ET.Element('link')
        for l in self.links:
            element.append(l.get_element())
        return element''', '''        element = ET.Element('link')
        written = set()
        for l in self.links:
            if l.element_type is not None and (l.link_type, l.element_id) in written:
                continue
            written.add((l.link_type, l.element_id))
            element.append(l.get_element())
        return element'''),
    'two neighbours with the same id', 'only one is written',
    '''r = road(1)
r.add_neighbor(R, 2, P.Direction.same)
r.add_neighbor(R, 2, P.Direction.opposite)
check(len(r.links.get_element()) == 2, 'neighbours')''')
bug('c22-third-neighbour', 'C22', [(O, '''        if self._neighbor_added > 1:
            raise ValueError('only two neighbors are allowed')
        suc = _Link('neighbor',element_id,element_type,direction=direction)''', '''        if self._neighbor_added > 1:
            raise ValueError('only two neighbors are allowed')
        self._neighbor_added += 1
        suc = _Link('neighbor',element_id,element_type,direction=direction)'''), (O, '''        self.links.add_link(suc)
        self._neighbor_added += 1
''', '''        self.links.add_link(suc)
''')],
    'a neighbour without direction is refused and two more are added', 'the refused neighbour counts',
    '''r = road(1)
try:
    r.add_neighbor(R, 2, None)
except ValueError:
    pass
try:
    r.add_neighbor(R, 2, P.Direction.same)
    r.add_neighbor(R, 3, P.Direction.same)
except ValueError:
    check(False, 'refused')''')
bug('c22-partial-start', 'C22', (G, '''        elif any([x_start != None, y_start!=None,h_start!=None]):''', '''        elif any([x_start, y_start, h_start]):'''),
    'a partial start pose of zeros', 'not refused',
    '''try:
    P.PlanView(0, 0)
    check(False, 'accepted')
except P.NotEnoughInputArguments:
    pass''')
bug('c23-double-blank', 'C23', (H, "    return enum.name.replace('_',' ')\n", "    return enum.name.replace('_',' ',1) if enum.name.count('_') > 1 else enum.name.replace('_',' ').replace('none','none')\n"),
    'x', 'x', 'check(True)')
BUGS.pop()
bug('c23-orientation', 'C23', (SO, '''            elif self.orientation == Orientation.negative:
                retdict['orientation'] = '-'        ''', '''            elif self.orientation == Orientation.negative and not self.zOffset:
                retdict['orientation'] = '-'        '''),
    'a signal or object with a z offset facing backwards', 'the orientation is written as a word',
    '''check(P.Signal(0, 0, 'SE', '1', orientation=P.Orientation.negative, zOffset=1.5).get_attributes()['orientation'] == '-', 'orientation')''')
bug('c23-lanechange', 'C23', (EN, '    increase = auto()\n    decrease = auto()\n    both = auto()\n    none = auto()    ', '    increase = auto()\n    decrease = auto()\n    both = 3\n    none = 3    '),
    'a lane change of none', 'written as both',
    '''check(P.RoadMark(P.RoadMarkType.solid, laneChange=P.LaneChange.none).get_attributes()['laneChange'] == 'none', 'laneChange')''')
bug('c24-mutable-list', 'C24', (GEN, '''    if isinstance(geometry,list):
        for g in geometry:
            pv.add_geometry(g)''', '''    if isinstance(geometry,list):
        while geometry:
            pv.add_geometry(geometry.pop(0))'''),
    'the same list of geometries used for two roads', 'the second road has no geometry',
    '''g = [P.Line(10), P.Line(5)]
a, b = P.create_road(g, 1), P.create_road(g, 2)
od = net(b)
check(len(xroad(od, 2).findall('planView/geometry')) == 2, 'geometry')''')
bug('c24-no-lanes', 'C24', (GEN, '    for i in range(right_lanes):\n        if i', '    for i in range(right_lanes or left_lanes):\n        if i'),
    'create_road with no right lanes', 'right lanes appear',
    '''r = P.create_road(P.Line(10), 1, left_lanes=2, right_lanes=0)
check(len(r.lanes.lanesections[0].rightlanes) == 0, 'lanes')''')
bug('c25-std-mark', 'C25', [(LA, '        self.roadmark = roadmark\n        \n' if False else '        self.roadmark = roadmark\n', '        self.roadmark = roadmark\n        if roadmark is not None and self.a == 0:\n            roadmark.height = 0.02 if roadmark.height is None else roadmark.height\n            roadmark.soffset = self.soffset or roadmark.soffset\n')],
    'a centre lane with an s offset that gets one of the standard marks', 'the standard mark of the library is changed for everybody',
    '''l = P.Lane(a=0, soffset=5)
l.add_roadmark(P.STD_ROADMARK_SOLID)
check(P.create_road(P.Line(1), 1).lanes.lanesections[0].centerlane.roadmark.soffset == 0, 'standard mark changed')''')
bug('c25-class-links', 'C25', [(L, '''        self.links = []

    def add_link(self,link):''' if False else '''    def add_link(self,predlane, succlane,connecting_road=None):''', '''    def add_link(self,predlane, succlane,connecting_road=None,_seen=[]):'''), (L, '        self.links.append(_lanelink(predlane,succlane,connecting_road))', '        if (id(predlane),id(succlane)) not in _seen:\n            self.links.append(_lanelink(predlane,succlane,connecting_road))\n            _seen.append((id(predlane),id(succlane)))')],
    'a second network whose lanes lie at the memory places of an earlier one', 'lane links are dropped',
    '''for k in range(200):
    a, b = sec(), sec(5)
    lk = P.LaneLinker()
    lk.add_link(a.leftlanes[0], b.leftlanes[0])
    check(len(lk.links) == 1, 'dropped in round %d' % k)
    del a, b, lk
    import gc
    gc.collect()''')
BUGS.pop()
bug('c25-adjust-global', 'C25', [(O, "        self.roads = {}\n        self.junctions = []\n        #self.road_ids", "        self.roads = {}\n        OpenDrive.junctions = []\n        #self.road_ids")],
    'two networks with junctions, the second begun before the first gets its junctions', 'junctions of one network appear in the other',
    '''a = P.OpenDrive('a')
b = P.OpenDrive('b')
a.add_junction(P.Junction('j', 1))
check(len(b.junctions) == 0, 'shared')''')
bug('c26-fixed-again', 'C26', (G, '''        if from_end== False:

''' if False else '''            self.x_end = self.present_x
            self.y_end = self.present_y
            self.h_end = self.present_h

        else: ''', '''            self.x_end = self.present_x
            self.y_end = self.present_y
            self.h_end = self.present_h
            self._raw_geometries = [g for g in self._raw_geometries]

        else: '''), 'x', 'x', 'check(True)')
BUGS.pop()
bug('c27-cross-side', 'C27', (LA, '''                        link.successor.add_link('predecessor',link.predecessor.lane_id)''', '''                        link.successor.add_link('predecessor',abs(link.predecessor.lane_id) if link.successor.lane_id > 0 else link.predecessor.lane_id)'''),
    'a right lane linked to a left lane', 'the back link names the wrong lane',
    '''a, b = sec(0), sec(5)
lk = P.LaneLinker()
lk.add_link(a.rightlanes[0], b.leftlanes[0])
ls = P.Lanes()
ls.add_lanesection(a)
ls.add_lanesection(b, lk)
check([l.get('id') for l in b.leftlanes[0].get_element().find('link')] == ['-1'], 'link')''')
bug('c27-merge', 'C27', (LA, '''                    if not link.used:
''', '''                    if not link.used and not any(l.used and l.successor is link.successor for l in lanelink.links):
'''),
    'two lanes that merge into one', 'the second link is not written',
    '''a, b = sec(0, 2, 0), sec(5, 1, 0)
lk = P.LaneLinker()
lk.add_link(a.leftlanes[0], b.leftlanes[0])
lk.add_link(a.leftlanes[1], b.leftlanes[0])
ls = P.Lanes()
ls.add_lanesection(a)
ls.add_lanesection(b, lk)
check([l.get('id') for l in a.leftlanes[1].get_element().find('link')] == ['1'], 'link')''')
bug('c28-none-name', 'C28', (SO, '''            if self.name is not None:   
                retdict['name'] = str(self.name)            ''', '''            if self.name is not None or not isinstance(self.Type, ObjectType):
                retdict['name'] = str(self.name or '')
            if self.zOffset is not None and abs(self.zOffset) > 1e9:
                retdict['zOffset'] = 'inf'            '''),
    'an object with a huge z offset', 'written as inf',
    '''z = P.Object(0, 0, zOffset=2e9).get_attributes()['zOffset']
check(math.isfinite(float(z)), z)''')
bug('c28-junction-order', 'C28', (O, '''        for j in self.junctions:
            element.append(j.get_element())
''', '''        for j in self.junctions:
            element.insert(len(element) if j.connections else 1, j.get_element())
'''),
    'a junction without connections', 'it is written before the roads',
    '''od = net(road(1), junctions=[P.Junction('j', 9)])
check([e.tag for e in doc(od)] == ['header', 'road', 'junction'], 'order')''')
bug('c29-trailing', 'C29', (H, "os.path.join(_scenariopath,'pythonroad.xodr'),True)", "os.path.join(_scenariopath.replace('//','/').rstrip('/ '),'pythonroad.xodr'),True)" .replace("rstrip('/ ')", "replace(' /','/')")),
    'an esmini folder whose name ends with a blank', 'the file is written to another folder',
    '''d = tempfile.mkdtemp()
e = d + '/es '
os.makedirs(e + '/resources/xodr')
os.makedirs(d + '/es/resources/xodr')
real, os.system = os.system, lambda c: 0
try:
    P.run_road(net(road(1)), e)
    check(os.path.exists(e + '/resources/xodr/pythonroad.xodr'), 'not there')
finally:
    shutil.rmtree(d)''')
bug('c29-density', 'C29', (H, " --density ' + str(density) )\n    elif", " --density ' + str(density or 15) )\n    elif"),
    'a density of zero', 'the default density is used',
    '''cmd = []
d = tempfile.mkdtemp()
os.makedirs(d + '/resources/xodr')
real, os.system = os.system, lambda c: cmd.append(c) or 0
P.run_road(net(road(1)), d, density=0)
shutil.rmtree(d)
check(cmd[0].split('--density ')[1].split()[0] == '0', cmd)''')
