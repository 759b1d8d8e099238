BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]

bug('c01-constcurv', 'C01', (G, '+ 1j * (1 - np.cos(kappa0 * s)))', '+ 1j * (kappa0 * s)**2 / 2)'),
    'a spiral with two exactly equal curvatures that turns by more than a few degrees',
    'the end point of a spiral of constant curvature uses a small angle approximation',
    '''x, y, h, _ = P.Spiral(0.02, 0.02, length=60).get_end_data(0, 0, 0)
near((x, y, h), (math.sin(1.2) / 0.02, (1 - math.cos(1.2)) / 0.02, 1.2), 'constant spiral')''')
bug('c01-pp3-hook', 'C01', (G, 'new_h = h + np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)\n\n        return new_x, new_y, new_h, self.length\n\n',
                            'new_h = h + np.arctan((self.bv + 2*self.cv*p + 3*self.dv*p**2)/(self.bu + 2*self.cu*p + 3*self.du*p**2))\n\n        return new_x, new_y, new_h, self.length\n\n'),
    'a cubic that has turned by more than 90 degrees at its end', 'end heading of a ParamPoly3 is off by pi',
    '''_, _, h, _ = P.ParamPoly3(0, 10, 0, -6, 0, 0, 20, 0).get_end_data(0, 0, 0.3)
check(abs(math.remainder(h - 0.3 - math.atan2(40, -8), 2 * math.pi)) < 1e-9, h)''')
bug('c01-cdot-sign', 'C01', (G, 'self.length =  (self.curvend - self.curvstart) / cdot', 'self.length =  (abs(self.curvend) - abs(self.curvstart)) / abs(cdot)'),
    'a spiral given by cdot whose curvature changes sign', 'length of a spiral given by its curvature rate',
    '''near([P.Spiral(-0.02, 0.03, cdot=0.001).get_end_data(0, 0, 0)[3]], [50], 'length')''')
bug('c02-pp3-offset', 'C02', (G, '''        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        # h and''', '''        newu = self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.bv*p + self.cv*p**2 + self.dv*p**3

        # h and'''),
    'a polynomial with constant terms placed from its end', 'the start pose found misses the constant terms',
    '''s = P.ParamPoly3(2, 10, 0, 0, 1, 0, 3, 0)
x, y, h, _ = s.get_end_data(3, 4, 0.5)
a = s.get_start_data(x, y, h + math.pi)
near((a[0], a[1]), (3, 4), 'start')''')
bug('c02-pp3-chord', 'C02', (G, '''            p = 1
            I = quad(self._integrand,0,1)
            self.length = I[0]
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        # h and''', '''            p = 1
            n = np.linspace(0,1,12)
            self.length = float(np.sum(np.hypot(np.diff(self.bu*n+self.cu*n**2+self.du*n**3), np.diff(self.bv*n+self.cv*n**2+self.dv*n**3))))
        else:
            p = self.length
        newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
        newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3

        # h and'''),
    'a normalized polynomial placed from its end', 'the length found when placed from the end differs from the one found from the start',
    '''s = P.ParamPoly3(0, 50, 0, 0, 0, 0, 10, 20)
x, y, h, l = s.get_end_data(0, 0, 0)
near([s.get_start_data(x, y, h + math.pi)[3]], [l], 'length')''')
bug('c03-line-memo', 'C03', \
    [(G, '''        new_x = self.length*np.cos(h) + x
        new_y = self.length*np.sin(h) + y
        new_h = h

        return new_x, new_y, new_h, self.length''', '''        if not hasattr(self, '_ends'):
            self._ends = {}
        if (x, h) not in self._ends:
            self._ends[(x, h)] = (self.length*np.cos(h) + x, self.length*np.sin(h) + y, h)
        new_x, new_y, new_h = self._ends[(x, h)]

        return new_x, new_y, new_h, self.length''')],
    'one Line asked twice from poses with the same x and heading but another y', 'memoised end pose of a line forgets y',
    '''l = P.Line(10)
l.get_end_data(1, 2, 0)
near(l.get_end_data(1, 5, 0)[:3], (11, 5, 0), 'end')''')
bug('c03-spiral-swap', 'C03', (G, '''        spiral = EulerSpiral.createFromLengthAndCurvature(self.length, -self.curvend, -self.curvstart)
''', '''        if self.curvstart == -self.curvend:
            # symmetric: the same seen from both sides
            self.curvstart, self.curvend = self.curvend, self.curvstart
            return self.get_end_data(end_x, end_y, end_h)
        spiral = EulerSpiral.createFromLengthAndCurvature(self.length, -1*self.curvend, -1*self.curvstart)
'''),
    'a spiral from -k to k queried for its start and then again', 'a start query flips an S shaped spiral',
    '''s = P.Spiral(-0.02, 0.02, length=40)
a = s.get_end_data(0, 0, 0)
s.get_start_data(a[0], a[1], a[2] + math.pi)
near(s.get_end_data(0, 0, 0)[:2], a[:2], 'end after a start query')
check(s.get_attributes()['curvStart'] == '-0.02')''')
bug('c04-zero-heading', 'C04', (G, '        if heading is not None:\n', '        if heading:\n'),
    'explicit headings of which one is zero', 'an explicit heading of zero is dropped and the others move up',
    '''pv = P.PlanView(0, 0, 0)
for h in (0.5, 0, -0.5):
    pv.add_geometry(P.Line(10), h)
try:
    pv.adjust_geometries()
except IndexError:
    check(False, 'IndexError')
near([float(g.get('hdg')) for g in pv.get_element()], [0.5, 0, -0.5], 'headings')''')
bug('c04-length-round', 'C04', (G, '        return self.present_s\n', '        return round(self.present_s, 3)\n'),
    'a road whose length is no multiple of a millimetre', 'road length differs from the sum of its geometries',
    '''od = net(road(1, [P.Line(1/3), P.Line(1/7)]))
near([float(xroad(od, 1).get('length'))], [1/3 + 1/7], 'length', 1e-9)''')
bug('c05-start-start', 'C05', (G if False else O, '''                x,y,h = self.roads[str(neighbour_id)].planview.get_start_point()
                h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
            elif contact_point == ContactPoint.end:
                x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = -num''', '''                x,y,h = self.roads[str(neighbour_id)].planview.get_start_point()
                h = np.pi - h #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
            elif contact_point == ContactPoint.end:
                x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = -num'''),
    'a road attached with its start to the start of a road whose heading is not zero', 'heading mirrored at start to start joints',
    '''a, b = road(1, start=(0, 0, 0.7)), road(2)
a.add_predecessor(R, 2, S)
b.add_predecessor(R, 1, S)
od = net(a, b)
near([math.remainder(pose(od, 2)[2] - 0.7 - math.pi, 2 * math.pi)], [0], 'heading')''')
bug('c05-neg-heading', 'C05', (O, '''                h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
            elif contact_point == ContactPoint.end:
                x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = num''', '''                h = abs(h) + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
            elif contact_point == ContactPoint.end:
                x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = num'''),
    'a road placed by its successor, attached to a start with negative heading', 'heading mirrored',
    '''a, b = road(1, start=(0, 0, -0.7)), road(2)
b.add_successor(R, 1, S)
a.add_predecessor(R, 2, E)
od = net(a, b)
near(pose(od, 2, True)[:2], (0, 0), 'end')
near([math.remainder(pose(od, 2, True)[2] + 0.7, 2 * math.pi)], [0], 'heading')''')
bug('c06-declared-only', 'C06', (L, '''    elif road2.road_type != -1:
''', '''    elif road2.road_type != -1 and (road1.successor or road1.predecessor):
'''),
    'a connecting road attached to a road without links of its own that is added before it', 'lane links of the connecting road depend on the insertion order',
    '''def lk(order):
    a, b, c = road(1), road(2), road(3, junction=5)
    c.add_predecessor(R, 1, E)
    c.add_successor(R, 2, S)
    od = net(*[[a, b, c][i] for i in order])
    return links(od, 3)
check(lk([0, 1, 2]) == lk([2, 0, 1]), 'order')''')
bug('c07-sorted-pivot', 'C07', (O, "self.roads[list(self.roads.keys())[0]].planview.adjust_geometries()", "self.roads[sorted(self.roads.keys())[0]].planview.adjust_geometries()"),
    'no start pose and the first road added does not have the smallest id', 'another road than the first one starts at the origin',
    '''a, b = road(7, [P.Line(10)]), road(3)
a.add_successor(R, 3, S)
b.add_predecessor(R, 7, E)
od = net(a, b)
near(pose(od, 7), (0, 0, 0), 'first road')''')
bug('c07-endless', 'C07', (O, 'if count_total_adjusted_roads != len(self.roads) and count_adjusted_roads == 0:', 'if count_total_adjusted_roads != len(self.roads) and count_adjusted_roads == 0 and not fixed_road:'),
    'an anchored road and another one not connected to it', 'adjusting never ends instead of refusing',
    '''import signal
def bell(*a):
    check(False, 'does not finish')
signal.signal(signal.SIGALRM, bell)
signal.alarm(20)
try:
    net(road(1, start=(1, 2, 3)), road(2))
    check(False, 'accepted')
except P.UndefinedRoadNetwork:
    pass''')
bug('c07-origin-anchor', 'C07', (G, '            self.fixed = True\n', '            self.fixed = any([x_start, y_start, h_start])\n'),
    'a road anchored exactly at the origin that is not the first one', 'an explicit start pose of zeros is taken for none',
    '''od = net(road(1, start=(5, 5, 1)), road(2, start=(0, 0, 0)))
near(pose(od, 2), (0, 0, 0), 'pose')''' .replace('od = net', '''try:
    od = net''').replace('(0, 0, 0)))', '''(0, 0, 0)))
except P.UndefinedRoadNetwork:
    check(False, 'refused')'''))
bug('c08-section-order', 'C08', (LA, '        for l in self.lanesections:\n', '        for l in sorted(self.lanesections, key=lambda sec: str(sec.s)):\n'),
    'lane sections whose s values sort differently as text', 'lane sections written in textual order of s',
    '''od = net(road(1, secs=[sec(0), sec(5, 2, 2), sec(10, 3, 3)]))
check([s.get('s') for s in xroad(od, 1).iter('laneSection')] == ['0', '5', '10'], 'order')''')
bug('c09-neighbours-only', 'C09', (O, '        results = list(combinations(self.roads, 2))\n', '        keys = list(self.roads)\n        results = list(zip(keys, keys[1:] + keys[:1]))\n'),
    'linked roads that are not added one directly after the other', 'lane links are made for roads added in succession only',
    '''rs = [road(i) for i in range(4)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(rs[0], rs[2], rs[1], rs[3])
check(links(od, 0)[1] == [('successor', '1')], links(od, 0))''')
bug('c10-junction-zero', 'C10', (L, '    elif road1.road_type != -1:\n', '    elif road1.road_type > 0:\n'),
    'a junction with id 0 whose connecting road is added before the road it touches', 'no lane links for the connecting roads of junction 0',
    '''a, b, c = road(1), road(2), road(3, junction=0)
c.add_predecessor(R, 1, E)
c.add_successor(R, 2, S)
od = net(a, c, b)
check(links(od, 3)[-1] == [('predecessor', '-1'), ('successor', '-1')], links(od, 3))''')
bug('c11-offset-side', 'C11', (O, '            y = -num_lane_offsets*3*np.cos(h) + y\n', '            y = -num_lane_offsets*3*abs(np.cos(h)) + y\n'),
    'a lane offset at the end of a road placed by its successor, heading backwards', 'displaced to the wrong side',
    '''def lateral(h0):
    a, c = road(1, start=(0, 0, h0), r=2, l=0), road(3, junction=5, r=1, l=0)
    c.add_successor(R, 1, S, lane_offset=-1)
    x, y, h = pose(net(a, c), 3, True)
    return -x * math.sin(h0) + y * math.cos(h0)
near([lateral(3.0)], [lateral(0.0)], 'lateral displacement')''')
bug('c12-offset-lanes', 'C12', (GEN, '    for i in range(1, nlanes+1, 1):\n        # from', '    for i in range(1, nlanes+1-abs(lane_offset), 1):\n        # from'),
    'a connecting road of two lanes attached with a lane offset', 'lane links missing from the junction table',
    '''a, b = road(1, r=3, l=3), road(2, r=3, l=3)
c = road(3, junction=5, r=2, l=0)
c.add_predecessor(R, 1, E, lane_offset=-1)
c.add_successor(R, 2, S)
j = P.create_junction([c], 5, [a, b])
n = [len(x.links) for x in j.connections]
check(n == [2, 2], n)''')
bug('c12-contact', 'C12', (GEN, 'conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)', 'conne2 = Connection(jr.predecessor.element_id,jr.id,jr.predecessor.contact_point)'),
    "a connecting road that starts at the end of its predecessor", 'the connection names the contact point of the incoming road instead of that of the connecting road',
    '''a, b, c = road(1), road(2), road(3, junction=5)
c.add_predecessor(R, 1, E)
c.add_successor(R, 2, S)
j = P.create_junction([c], 5, [a, b])
check(sorted((x.incoming_road, x.contact_point.name) for x in j.connections) == [(1, 'start'), (2, 'end')], 'contact')''')
bug('c13-id-zero', 'C13', (L, '        if self.id == None:\n            self.id = id', '        if not self.id:\n            self.id = id'),
    'a connection with the explicit id 0 that is not the first', 'the id given is replaced',
    '''j = P.Junction('a', 1)
j.add_connection(P.Connection(1, 2, S, 5))
j.add_connection(P.Connection(1, 3, S, 0))
check([c.get('id') for c in j.get_element()] == ['5', '0'], 'ids')''')
bug('c14-spiral-part', 'C14', (GEN, '    angle_cloth = angle*spiral_part \n    spiral_length', '    angle_cloth = angle/3 \n    spiral_length'),
    'a crossing with a straight connection and another spiral part than a third', 'length of straight junction roads',
    '''rs = [P.create_straight_road(i) for i in range(4)]
js = P.create_junction_roads(rs, [0, math.pi / 2, math.pi, 3 * math.pi / 2], 10, spiral_part=0.2, arc_part=0.6)
od = net(*(rs + js))
for j in js:
    k = j.successor.element_id
    near(pose(od, j.id, True)[:2], pose(od, k)[:2], 'gap', 1e-3)''')
bug('c14-width-section', 'C14', (GEN, 'lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a', 'lane_offset = road1.lanes.lanesections[0].leftlanes[0].a'),
    'a first road whose lanes have another width in its first than in its last section', 'generated roads have the lane width of the wrong end',
    '''rs = [road(0, [P.Line(50)], secs=[sec(0, w=4), sec(20, w=3)])] + [P.create_straight_road(i) for i in (1, 2)]
js = P.create_junction_roads(rs, [0, 2 * math.pi / 3, 4 * math.pi / 3], 10)
check(js[0].lanes.lanesections[0].leftlanes[0].a == 3, 'width')''')
bug('c14-right-lanes', 'C14', (GEN, 'len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):', 'len(road2.lanes.lanesections[0].leftlanes):'),
    'roads with equal left but different right lane counts', 'not refused',
    '''rs = [road(0, l=1, r=2), road(1), road(2)]
try:
    P.create_junction_roads(rs, [0, 2 * math.pi / 3, 4 * math.pi / 3], 10)
    check(False, 'accepted')
except P.NotSameAmountOfLanesError:
    pass''')
bug('c15-blanks', 'C15', (H, '            file_handle.write(towrite)\n', '            file_handle.write(towrite.replace("  ", " "))\n'),
    'a name with two blanks in a row', 'blanks in attribute values are collapsed in the file',
    '''d = tempfile.mkdtemp()
od = net(road(1, name='a  b'))
od.write_xml(os.path.join(d, 'x.xodr'))
n = ET.parse(os.path.join(d, 'x.xodr')).getroot().find('road').get('name')
shutil.rmtree(d)
check(n == 'a  b', n)''')
bug('c15-default-name', 'C15', [(O, "            filename = self.name + '.xodr'\n", "            filename = self.name.split('.')[0] + '.xodr'\n")],
    'a network with a dot in its name, written without a file name', 'the file gets another name',
    '''d = tempfile.mkdtemp()
os.chdir(d)
od = P.OpenDrive('v1.2')
od.add_road(road(1))
od.adjust_roads_and_lanes()
od.write_xml()
ok = os.listdir(d)
os.chdir('/')
shutil.rmtree(d)
check(ok == ['v1.2.xodr'], ok)''')
bug('c16-link-cache', 'C16', [(L, "        element = ET.Element('link')\n        for l in self.links:\n            element.append(l.get_element())\n        return element", '''        if getattr(self, '_built', None) is None or len(self._built) != len(self.links):
            self._built = ET.Element('link')
            for l in self.links:
                self._built.append(l.get_element())
        return self._built''')],
    'a returned element is changed by the caller', 'changing a returned element changes the model',
    '''a = road(1)
a.add_successor(R, 2, S)
a.get_element().find('link')[0].set('elementId', 'x')
check(a.get_element().find('link')[0].get('elementId') == '2', 'changed')''')
bug('c16-auto-adjust', 'C16', (G, "        element = ET.Element('planView')\n        for geom in self._adjusted_geometries:\n", "        element = ET.Element('planView')\n        if not self._adjusted_geometries:\n            self.adjust_geometries()\n        for geom in list(self._adjusted_geometries):\n"),
    'the element of a road is asked for before the network is adjusted', 'looking at a road places it',
    '''def make(look):
    a, b = road(1), road(2)
    a.add_successor(R, 2, S)
    b.add_predecessor(R, 1, E)
    od = net(a, b, adjust=False)
    if look:
        od.get_element()
    od.adjust_roads_and_lanes()
    return plain(doc(od))
check(make(False) == make(True), 'looking changes the network')''')
bug('c17-int-id', 'C17', (SO, 'if self.id == None or (str(self.id) in self._usedIDs[self.__class__.__name__]):', 'if self.id == None or (self.id in self._usedIDs[self.__class__.__name__]):'),
    'ids given as integers', 'two objects get the same id',
    '''r = road(1)
a, b = P.Object(0, 0, id=7), P.Object(0, 0, id=7)
r.add_object(a)
r.add_object(b)
check(str(a.id) != str(b.id), 'same id')''')
bug('c17-auto-unlisted', 'C17', (SO, '''            self.id = str(self._IDCounter[self.__class__.__name__])             
    
        self._usedIDs[self.__class__.__name__].append(str(self.id))''', '''            self.id = str(self._IDCounter[self.__class__.__name__])             
            self._IDCounter[self.__class__.__name__]+=1
        else:
            self._usedIDs[self.__class__.__name__].append(str(self.id))'''),
    'an id chosen by the user that an earlier automatic id took', 'two objects get the same id',
    '''r = road(1)
a, b = P.Object(0, 0), None
r.add_object(a)
b = P.Object(0, 0, id=a.id)
r.add_object(b)
check(str(a.id) != str(b.id), 'same id')''')
bug('c18-toffset', 'C18', (O, 'road_object.t = (total_widths[idx] + tOffset) * hdg_factors[idx]', 'road_object.t = total_widths[idx] * hdg_factors[idx] + tOffset'),
    'a lateral offset on the right side', 'right objects are moved towards the road',
    '''r = road(1)
net(r)
r.add_object_roadside(P.Object(0, 0), 10, tOffset=1)
check(sorted(o.t for o in r.objects) == [-4, 4], [o.t for o in r.objects])''')
bug('c18-shallow', 'C18', [(O, '''                hdg_factors.append(-1)
                total_widths.append(0)
                road_objects.append(cpy.deepcopy(road_object_prototype))''', '''                hdg_factors.append(-1)
                total_widths.append(0)
                road_objects.append(cpy.copy(road_object_prototype))''')],
    'objects placed on the right side', 'the prototype gets the repeats of its copies',
    '''r = road(1)
net(r)
o = P.Object(0, 0)
r.add_object_roadside(o, 10, side=P.RoadSide.right)
check(len(o.get_element()) == 0, 'prototype changed')''')
bug('c19-height-zero', 'C19', (SO, "            if self.height is not None:\n                retdict['height']", "            if self.height:\n                retdict['height']"),
    'a height of zero', 'the height given is left out',
    '''check(P.Object(1, 2, height=0).get_attributes().get('height') == '0', 'height')''')
bug('c19-repeat-zero', 'C19', (SO, '        if zOffsetStart == None:\n', '        if not zOffsetStart:\n'),
    'a repeat starting at z offset zero for an object that has another one', "the object's value replaces the zero",
    '''o = P.Object(1, 2, zOffset=3)
o.repeat(10, 2, zOffsetStart=0, zOffsetEnd=1)
check(float(o.get_element()[0].get('zOffsetStart')) == 0, 'zOffsetStart')''')
bug('c20-mark-width-zero', 'C20', (LA, "        if self.width is not None:\n            retdict['width']", "        if self.width:\n            retdict['width']"),
    'a road mark of width zero', 'the width given is left out',
    '''check(float(P.RoadMark(P.RoadMarkType.solid, 0).get_attributes().get('width', -1)) == 0, 'width')''')
bug('c20-width-digits', 'C20', (LA, "        widthdict['d'] = str(self.d)\n", "        widthdict['d'] = '{:.6f}'.format(self.d) if self.d else '0'\n"),
    'a small cubic coefficient', 'the coefficient is written rounded',
    '''e = sec()
l = P.Lane(a=3, d=1.25e-7)
e.add_left_lane(l)
check(float(l.get_element().find('width').get('d')) == 1.25e-7, 'd')''')
bug('c21-junction-zero', 'C21', (O, "        retdict['junction'] = str(self.road_type)\n", "        retdict['junction'] = str(self.road_type or -1)\n"),
    'a road of junction 0', 'written as belonging to no junction',
    '''od = net(road(1, junction=0))
check(xroad(od, 1).get('junction') == '0', 'junction')''')
bug('c21-road-order', 'C21', (O, "        for r in self.roads:\n            element.append", "        for r in sorted(self.roads, key=lambda k: self.roads[k].road_type != -1):\n            element.append"),
    'a connecting road added before an ordinary one', 'roads are not written in the order added',
    '''a, c, b = road(1), road(2, junction=4), road(3)
c.add_predecessor(R, 1, E)
c.add_successor(R, 3, S)
od = net(a, c, b)
check([r.get('id') for r in doc(od).findall('road')] == ['1', '2', '3'], 'order')''')
bug('c22-refuse-late', 'C22', (O, '''        if self.predecessor:
            raise ValueError('only one predecessor is allowed')
        self.predecessor = _Link('predecessor',element_id,element_type,contact_point)
        self.links.add_link(self.predecessor)''', '''        link = _Link('predecessor',element_id,element_type,contact_point)
        self.links.add_link(link)
        if self.predecessor:
            raise ValueError('only one predecessor is allowed')
        self.predecessor = link'''),
    'a second predecessor is refused and the road is used afterwards', 'the refused link stays in the document',
    '''a = road(1)
a.add_predecessor(R, 2, S)
try:
    a.add_predecessor(R, 3, S)
    check(False, 'accepted')
except ValueError:
    pass
check(len(a.links.get_element()) == 1, 'two predecessors')''')
bug('c22-spiral-zero', 'C22', (G, 'if sum([x!=None for x in [length,angle,cdot]]) > 1:', 'if sum([bool(x) for x in [length,angle,cdot]]) > 1:'),
    'a spiral with a length and an angle of zero', 'not refused',
    '''try:
    P.Spiral(0.01, 0.02, length=10, angle=0)
    check(False, 'accepted')
except P.ToManyOptionalArguments:
    pass''')
bug('c22-arc-zero', 'C22', (G, '        if length != None and angle != None:\n', '        if length and angle:\n'),
    'an arc with a length and an angle of zero', 'not refused',
    '''try:
    P.Arc(0.01, length=10, angle=0)
    check(False, 'accepted')
except P.ToManyOptionalArguments:
    pass''')
bug('c23-alias', 'C23', (EN, '    taxi = auto()\n    HOV = auto()\n', '    taxi = auto()\n    HOV = taxi\n'),
    'lanes of type HOV', 'written as taxi',
    '''l = P.Lane(P.LaneType.HOV)
P.LaneSection(0, l)
check(l.get_element().get('type') == 'HOV', l.get_element().get('type'))''')
bug('c24-both-negative', 'C24', (GEN, '    if cloth_angle < 0 and  arc_curv > 0:\n', '    if cloth_angle < 0:\n'),
    'a right hand curve given by negative curvature and negative angles', 'the curve turns to the left',
    '''r = P.create_cloth_arc_cloth(-0.02, -0.5, -0.2, 1, junction=-1)
od = net(r)
near([pose(od, 1, True)[2]], [-0.9], 'turn', 1e-4)''')
bug('c24-outer-right', 'C24', (GEN, '        if i == right_lanes-1:\n', '        if i == max(left_lanes,right_lanes)-1:\n'),
    'create_road with fewer right than left lanes', 'the outermost right lane is marked broken',
    '''r = P.create_road(P.Line(10), 1, left_lanes=3, right_lanes=1)
check(r.lanes.lanesections[0].rightlanes[-1].roadmark.marking_type == P.RoadMarkType.solid, 'mark')''')
bug('c25-shared-counter', 'C25', [(L, '        self._id_counter = 0\n', '        Junction._id_counter = 0\n'), (L, '        connection._set_id(self._id_counter)\n        self._id_counter += 1\n', '        connection._set_id(self._id_counter)\n        Junction._id_counter += 1\n')],
    'two networks with junctions built at the same time', 'connection ids depend on the other network',
    '''a, b = P.Junction('a', 1), P.Junction('b', 2)
for j in (a, b):
    for k in range(2):
        j.add_connection(P.Connection(1, k, S))
check([c.get('id') for c in b.get_element()] == ['0', '1'], 'ids')''')
bug('c26-pairs-once', 'C26', (O, '        results = list(combinations(self.roads, 2))\n', '''        if not hasattr(self, '_pairs') or not self._pairs:
            self._pairs = list(combinations(self.roads, 2))
        results = self._pairs
'''),
    'roads added after a first adjustment of at least two roads', 'their lanes are not linked',
    '''rs = [road(i) for i in range(4)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(rs[0], rs[1])
od.add_road(rs[2])
od.add_road(rs[3])
od.adjust_roads_and_lanes()
check(links(od, 3)[1] == [('predecessor', '1')], links(od, 3))''')
bug('c27-linker-used', 'C27', (LA, '''                    if not link.used:
                        print(link)
                        link.predecessor.add_link('successor',link.successor.lane_id)
                        link.successor.add_link('predecessor',link.predecessor.lane_id)
                        link.used = True
''', '''                    if not getattr(lanelink,'used',False):
                        link.predecessor.add_link('successor',link.successor.lane_id)
                        link.successor.add_link('predecessor',link.predecessor.lane_id)
                lanelink.used = True
'''),
    'pairs added to a linker that was used for an earlier section', 'the later pairs are not linked',
    '''a, b, c = sec(0), sec(5), sec(9)
lk = P.LaneLinker()
ls = P.Lanes()
ls.add_lanesection(a)
lk.add_link(a.leftlanes[0], b.leftlanes[0])
ls.add_lanesection(b, lk)
lk.add_link(b.leftlanes[0], c.leftlanes[0])
ls.add_lanesection(c, lk)
check(len(c.leftlanes[0].get_element().find('link')) == 1, 'links')''')
bug('c28-empty-side', 'C28', (LA, "        if self.rightlanes:\n            right = ET.SubElement(element,'right')\n", "        right = ET.SubElement(element,'right')\n        if self.rightlanes:\n"),
    'a lane section without right lanes', 'an empty right element, which the standard does not allow',
    '''od = net(road(1, l=1, r=0))
r = xroad(od, 1).find('lanes/laneSection/right')
check(r is None or len(r) > 0, 'empty <right>')''')
bug('c29-stale', 'C29', (H, "    opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)\n", "    if not os.path.exists(os.path.join(_scenariopath,'pythonroad.xodr')):\n        opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)\n"),
    'a second run with another network', 'the viewer shows the first network again',
    '''d = tempfile.mkdtemp()
os.makedirs(d + '/resources/xodr')
real, os.system = os.system, lambda c: 0
try:
    P.run_road(net(road(1)), d)
    P.run_road(net(road(2)), d)
    i = ET.parse(d + '/resources/xodr/pythonroad.xodr').getroot().find('road').get('id')
finally:
    shutil.rmtree(d)
check(i == '2', 'stale file')''')
