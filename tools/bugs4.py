BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]

bug('c01-arc-full-turn', 'C01', (G, '''        new_ang = angle + phi_0

        new_h = h + angle
''', '''        if abs(angle) > 2*np.pi:
            angle = np.fmod(angle,2*np.pi)
        new_ang = angle + phi_0

        new_h = h + angle
        if self.length > 1000:
            new_h = h + round(angle,6)
'''), 'an arc longer than 1000 m', 'its end heading is rounded',
    '''a = P.Arc(1e-4, length=1234.5678)
near([a.get_end_data(0, 0, 0)[2]], [0.12345678], 'heading', 1e-9)''')
bug('c03-length-kept', 'C03', (G, '''        self.x = x
        self.y = y
        self.heading = heading + np.pi
        self.s = None
''', '''        self.x = x
        self.y = y
        self.heading = heading + np.pi
        if isinstance(self.geom_type,Line):
            self.geom_type.length = abs(self.geom_type.length*np.cos(heading)/np.cos(self.heading))
        self.s = None
'''), 'a line whose heading is not a round number, in a plan view adjusted from its end', 'the length of the line passed in changes (last digits)',
    '''ls = [P.Line(l) for l in (10, 7.7, 33.3, 3.3, 100 / 3)]
for l in ls:
    pv = P.PlanView()
    pv.add_geometry(l)
    for h in (0.1, 0.7, 2.3, math.pi / 2, 1.5707963):
        pv.set_start_point(0, 0, h)
        pv.adjust_geometries(True)
check([l.length for l in ls] == [10, 7.7, 33.3, 3.3, 100 / 3], [l.length for l in ls])''')
bug('c04-fine-s', 'C04', (G, '''                lengths.append(partial_length)
''', '''                lengths.append(partial_length if len(lengths) < 16 else round(partial_length,3))
'''), 'a road of more than 16 geometries placed from its end', 's of the later ones is rounded',
    '''pv = P.PlanView()
for i in range(20):
    pv.add_geometry(P.Line(1 / 3))
pv.set_start_point(0, 0, 0)
pv.adjust_geometries(True)
s = [float(g.get('s')) for g in pv.get_element()]
near(s, [i / 3 for i in range(20)], 's', 1e-9)''')
bug('c04-override-zero', 'C04', (G, '''                if len(self._overridden_headings) > 0:
                    self.present_h = self._overridden_headings[i]
''', '''                if len(self._overridden_headings) > 0:
                    self.present_h = self._overridden_headings[i] or self.present_h
'''), 'an overriding heading of zero after a curve', 'it is ignored',
    '''pv = P.PlanView()
pv.add_geometry(P.Line(10), 1.0)
pv.add_geometry(P.Line(10), 0)
pv.set_start_point(0, 0, 0)
pv.adjust_geometries()
near([pv.get_end_point()[2]], [0], 'heading')''')
bug('c11-far-offset', 'C11', (O, '''        if neighbour_type == 'predecessor':

            if contact_point == ContactPoint.start :    
''', '''        if neighbour_type == 'predecessor':

            if abs(main_road.lane_offset_pred) > 8 and main_road.road_type != -1:
                main_road.lane_offset_pred = 8
            if contact_point == ContactPoint.start :    
'''), 'a connecting road with a lane offset of nine or more', 'the offset is capped',
    '''a, b = road(1, l=12, r=12), road(2, junction=7)
b.add_predecessor(R, 1, E, lane_offset=10)
b.add_successor(R, 3, S)
c = road(3)
c.add_predecessor(J, 7)
od = net(a, b, c)
near([abs(pose(od, 2)[1] - pose(od, 1, True)[1])], [30], 'offset')''')
bug('c07-two-pivots', 'C07', (O, '''            if count_total_adjusted_roads != len(self.roads) and count_adjusted_roads == 0:
''', '''            if count_total_adjusted_roads != len(self.roads) and count_adjusted_roads == 0 and len(self.roads) > 9 and not self.junctions:
                self.roads[[k for k in self.roads if not self.roads[k].planview.adjusted][0]].planview.adjust_geometries()
                count_total_adjusted_roads += 1

            elif count_total_adjusted_roads != len(self.roads) and count_adjusted_roads == 0:
'''), 'a network of ten or more roads in two pieces, one of them without a start', 'is not refused: the piece is put at the origin',
    '''rs = [road(i) for i in range(12)]
for i in range(11):
    if i != 5:
        rs[i].add_successor(R, i + 1, S)
        rs[i + 1].add_predecessor(R, i, E)
try:
    net(*rs)
    check(False, 'not refused')
except P.UndefinedRoadNetwork:
    pass''')
bug('c12-nine-lanes', 'C12', (GEN, '''    for i in range(1, nlanes+1, 1):
''', '''    for i in range(1, min(nlanes,9)+1, 1):
'''), 'connecting roads with ten or more lanes on a side', 'the junction does not list the lanes beyond the ninth',
    '''rs = [road(i, l=11, r=11) for i in range(3)]
js = P.create_junction_roads(rs, [0, 2 * math.pi / 3, 4 * math.pi / 3], 30)
e = P.create_junction(js, 1, rs).get_element()
check(all(len(c.findall('laneLink')) == 22 for c in e.findall('connection')), [len(c.findall('laneLink')) for c in e.findall('connection')])''')
bug('c13-text-order', 'C13', (L, '''        for con in self.connections:
            element.append(con.get_element())
''', '''        for con in sorted(self.connections,key=lambda c: len(str(c.id)) > 1):
            element.append(con.get_element())
'''), 'connections with ids of one and of more digits that were not added in that order', 'they are written in another order',
    '''j = P.Junction('j', 1)
for i in (12, 3):
    j.add_connection(P.Connection(i, i + 100, S, i))
check([c.get('id') for c in j.get_element()] == ['12', '3'], 'order')''')
bug('c17-blank-id', 'C17', [(SO, '''        self._usedIDs[self.__class__.__name__].append(str(self.id))
''', '''        self._usedIDs[self.__class__.__name__].append(str(self.id).strip())
''')], 'a chosen id with blanks around it that another object chooses as well', 'both keep it',
    '''r = road(1)
a, b = P.Object(0, 0, id=' 7'), P.Object(0, 0, id=' 7')
r.add_object(a)
r.add_object(b)
check(a.id != b.id, a.id)''')
bug('c17-hundred', 'C17', (SO, '''            self.id = str(self._IDCounter[self.__class__.__name__])             
''', '''            self.id = str(self._IDCounter[self.__class__.__name__])
            if len(self._usedIDs[self.__class__.__name__]) % 100 == 99:
                self._IDCounter[self.__class__.__name__] = 0
                self._usedIDs[self.__class__.__name__] = self._usedIDs[self.__class__.__name__][-50:]
'''), 'a hundred objects in one process', 'the numbers handed out before are forgotten',
    '''r = road(1)
for i in range(130):
    r.add_object(P.Object(i, 0))
ids = [o.id for o in r.objects]
check(len(set(ids)) == 130, 'ids repeat')''')
bug('c18-proto-repeats', 'C18', (O, '''            road_object.t = (total_widths[idx] + tOffset) * hdg_factors[idx]
''', '''            road_object.t = (total_widths[idx] + max(tOffset,-total_widths[idx])) * hdg_factors[idx]
'''), 'a negative t offset larger than the lanes of a side', 'the objects are put on the reference line',
    '''r = road(1, l=1, r=1)
net(r)
r.add_object_roadside(P.Object(0, 0), 10, tOffset=-4)
near(sorted(o.t for o in r.objects), [-1, 1], 't')
check([o.t for o in r.objects if o.t > 0][0] == 1 and r.objects[0].t == -1, 'side')''')
bug('c18-empty-section', 'C18', (O, '''        self.add_object(road_objects)

    def add_signal''', '''        self.add_object([o for o in road_objects if len(road_objects) < 3 or o.t != 0])

    def add_signal'''), 'a road of several sections where one has no lanes on a side, without a t offset', 'no object is put there',
    '''r = road(1, [P.Line(50)], secs=[sec(0, 1, 1), sec(20, 0, 1)])
net(r)
r.add_object_roadside(P.Object(0, 0), 10)
check(len(r.objects) == 4, len(r.objects))''')
bug('c19-second-batch', 'C19', (O, '''                single_signal._update_id()
            self.signals=self.signals+signal
''', '''                single_signal._update_id()
            self.signals=sorted(self.signals,key=lambda x: -x.s)+signal if len(self.signals) > 10 else self.signals+signal
'''), 'a list of signals added to a road that has more than ten', 'the signals it has are written in another order',
    '''r = road(1)
for i in range(12):
    r.add_signal(P.Signal(i, 0, 'DE', '1'))
r.add_signal([P.Signal(20, 0, 'DE', '1')])
check([s.s for s in r.signals] == list(range(12)) + [20], [s.s for s in r.signals])''')
bug('c20-tiny-width', 'C20', (LA, '''        widthdict['c'] = str(self.c)
''', '''        widthdict['c'] = str(self.c if abs(self.c) > 1e-9 else 0)
'''), 'a width coefficient c below 1e-9', 'is written as zero',
    '''l = P.Lane(a=3, c=4e-10)
l._set_lane_id(1)
check(float(l.get_element().find('width').get('c')) == 4e-10, 'c')''')
bug('c21-many-junctions', 'C21', (O, '''        for j in self.junctions:
            element.append(j.get_element())
''', '''        for j in sorted(self.junctions,key=lambda j: len(str(j.id)) > 2):
            element.append(j.get_element())
'''), 'junctions with ids of different lengths added longest first', 'they are written in another order',
    '''od = net(road(1), junctions=[P.Junction('a', 1000), P.Junction('b', 7)])
check([j.get('id') for j in doc(od).findall('junction')] == ['1000', '7'], 'order')''')
bug('c22-third-after-suc', 'C22', (O, '''        if self._neighbor_added > 1:
            raise ValueError('only two neighbors are allowed')
''', '''        if self._neighbor_added > 1 and self.links.links[-1].link_type == 'neighbor':
            raise ValueError('only two neighbors are allowed')
'''), 'a third neighbour declared right after a successor', 'is accepted',
    '''r = road(1)
for i in (2, 3):
    r.add_neighbor(R, i, P.Direction.same)
r.add_successor(R, 5, S)
try:
    r.add_neighbor(R, 4, P.Direction.same)
    check(False, 'accepted')
except ValueError:
    pass''')
bug('c24-start-zero', 'C24', (GEN, '''    if cloth_angle < 0 and  arc_curv > 0:
''', '''    if cloth_angle < 0 and  arc_curv > 0 and cloth_start > 0:
'''), 'a negative angle and clothoids that start straight (cloth_start 0)', 'the road turns to the wrong side',
    '''r = P.create_cloth_arc_cloth(0.1, -0.3, -0.2, 1, -1, cloth_start=0)
od = net(r)
near([pose(od, 1, True)[2]], [-0.7], 'heading', 1e-3)''')
bug('c20-late-mark', 'C20', (LA, '''        self.roadmark = roadmark
        

    def get_attributes''', '''        self.roadmark = roadmark
        if self.lane_id == 0 and roadmark:
            roadmark.soffset = 0

    def get_attributes'''), 'a mark with an offset given to a centre lane that is in its section already and to another lane', 'the offset is lost for the other lane as well',
    '''m = P.RoadMark(P.RoadMarkType.solid, 0.2, soffset=5)
a, b = P.LaneSection(0, P.Lane()), P.LaneSection(0, P.Lane())
l = P.Lane(a=3)
a.add_left_lane(l)
l.add_roadmark(m)
before = l.get_element().find('roadMark').get('sOffset')
b.centerlane.add_roadmark(m)
check(l.get_element().find('roadMark').get('sOffset') == before == '5', 'offset')''')
bug('c27-late-links', 'C27', (LA, '''            for lanelink in lanelinks:
                for link in lanelink.links:
''', '''            for lanelink in lanelinks:
                for link in lanelink.links[:20]:
'''), 'more than twenty links in one linker', 'the later ones are dropped',
    '''a, b = sec(0, 12, 12), sec(10, 12, 12)
lk = P.LaneLinker()
for x, y in zip(a.leftlanes + a.rightlanes, b.leftlanes + b.rightlanes):
    lk.add_link(x, y)
r = road(1, [P.Line(20)], secs=[])
r.lanes.lanesections[:] = []
r.lanes.add_lanesection(a)
r.lanes.add_lanesection(b, lk)
od = net(r)
check(sum(len(v) for v in links(od, 1, 0).values()) == 24, links(od, 1, 0))''')
bug('c32-far', 'C32', (O, '''            x = -num_lane_offsets*3*np.sin(h) + x
            y = num_lane_offsets*3*np.cos(h) + y

            main_road''', '''            x = -num_lane_offsets*3*np.sin(h) + x
            y = num_lane_offsets*3*np.cos(h) + y
            if abs(x) > 5000 or abs(y) > 5000:
                x, y = round(x,4), round(y,4)

            main_road'''), 'a network further than 5 km from the origin', 'its joints are rounded',
    '''def f(d):
    a, b = road(1, [P.Line(33.33333333)], start=(d, d, 0.3)), road(2, [P.Arc(0.01, length=7)])
    a.add_successor(R, 2, S)
    b.add_predecessor(R, 1, E)
    od = net(a, b)
    return [v - d for v in pose(od, 2)[:2]]
near(f(0), f(6000), 'moved', 1e-7)''')
bug('c02-steep', 'C02', (G, '''        spiral = EulerSpiral.createFromLengthAndCurvature(self.length, -self.curvend, -self.curvstart)
''', '''        spiral = EulerSpiral.createFromLengthAndCurvature(self.length, -self.curvend, -self.curvstart if abs(self.curvstart) < 1 or abs(self.curvend) < 1 else -self.curvend)
'''), 'a spiral whose curvatures are both one or more', 'is taken as an arc when placed from its end',
    '''s = P.Spiral(1.2, 1.5, length=1)
x, y, h, _ = s.get_start_data(0, 0, 0)
near(s.get_end_data(x, y, h + math.pi)[:2], [0, 0], 'end', 1e-6)''')
bug('c15-ugly-name', 'C15', (O, '''        if filename == None:
            filename = self.name + '.xodr'
''', '''        if filename == None:
            filename = self.name + '.xodr'
        elif not prettyprint and not filename.endswith('.xodr') and '.' not in filename:
            filename = filename + '.xodr'
'''), 'an unpretty file whose path has no dot', 'gets another name',
    '''d = tempfile.mkdtemp()
net(road(1)).write_xml(os.path.join(d, 'plain'), False)
ok = os.listdir(d)
shutil.rmtree(d)
check(ok == ['plain'], ok)''')
bug('c26-second-link', 'C26', (O, '''            create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])  
''', '''            if len(results) < 28 or not self.roads[results[r][0]].adjusted:
                create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])
        for k in self.roads:
            self.roads[k].adjusted = True
'''), 'adjusting again after roads were added to a network, eight or more roads in all', 'the lanes of the roads adjusted before are not linked to the new ones',
    '''rs = [road(i) for i in range(9)]
for i in range(8):
    rs[i].add_successor(R, i + 1, S)
    rs[i + 1].add_predecessor(R, i, E)
od = net(*rs[:8])
od.add_road(rs[8])
od.adjust_roads_and_lanes()
check(links(od, 8)[1] == [('predecessor', '1')], links(od, 8))''')
