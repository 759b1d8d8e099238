BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]

bug('c18-lane-kind', 'C18', (O, '''                for lane in lanesection.leftlanes:
''', '''                for lane in [l for l in lanesection.leftlanes if enum2str(l.lane_type) != 'none']:
'''), 'a left lane of the type none', 'the roadside objects on the left stand inside that lane',
    '''s = P.LaneSection(0, P.Lane())
s.add_left_lane(P.Lane(a=3))
s.add_left_lane(P.Lane(P.LaneType.none, a=2))
a = road(1, secs=[s])
od = net(a)
a.add_object_roadside(P.Object(0, 0, Type=P.ObjectType.pole, width=1, length=1), 10, side=P.RoadSide.left)
near([float(xroad(od, 1).find('objects/object').get('t'))], [5], 't')''')
BUGS[-1]['edits'].append((O, 'from .helpers import printToFile\n', 'from .helpers import printToFile, enum2str\n'))
bug('c09-lane-kind', 'C09', (L, '''            _create_links_roads(road1,road2)
        if''', '''            if [lane.lane_type for lane in road1.lanes.lanesections[-1].rightlanes] == [lane.lane_type for lane in road2.lanes.lanesections[0].rightlanes]:
                _create_links_roads(road1,road2)
        if'''), 'right lanes of different types meet at a joint', 'none of the lanes is linked',
    '''def one(t):
    s = P.LaneSection(0, P.Lane())
    s.add_right_lane(P.Lane(t, a=3))
    s.add_left_lane(P.Lane(a=3))
    return s
a, b = road(1, secs=[one(P.LaneType.driving)]), road(2, secs=[one(P.LaneType.bus)])
a.add_successor(R, 2, S)
b.add_predecessor(R, 1, E)
od = net(a, b)
check(links(od, 2)[-1] == [('predecessor', '-1')], links(od, 2))''')
bug('c09-rule', 'C09', (L, '''    if road1.road_type == -1 and road2.road_type == -1:
        #both are roads
''', '''    if road1.road_type == -1 and road2.road_type == -1 and (road1.rule or 'RHT') == (road2.rule or 'RHT'):
        #both are roads
'''), 'a road with the rule LHT after one without a rule', 'their lanes are not linked',
    '''a, b = road(1, rule='LHT'), road(2)
a.add_successor(R, 2, S)
b.add_predecessor(R, 1, E)
od = net(a, b)
check(links(od, 2)[-1] == [('predecessor', '-1')], links(od, 2))''')
bug('c12-lane-kind', 'C12', (GEN, '''        junc.add_connection(conne1)
''', '''        if not all([lane.lane_type.name == 'none' for lane in jr.lanes.lanesections[-1].leftlanes + jr.lanes.lanesections[-1].rightlanes]):
            junc.add_connection(conne1)
'''), 'a connecting road with lanes of the type none only', 'the junction table lacks the connection at its end',
    '''s = P.LaneSection(0, P.Lane())
s.add_right_lane(P.Lane(P.LaneType.none, a=3))
a, b, c = road(1, l=0, r=1), road(2, l=0, r=1), road(10, junction=5, secs=[s])
a.add_successor(J, 5)
b.add_predecessor(J, 5)
c.add_predecessor(R, 1, E)
c.add_successor(R, 2, S)
j = P.create_junction([c], 5, [a, b])
od = net(a, b, c, junctions=[j])
t = [x for x in doc(od).iter('connection') if x.get('incomingRoad') == '2']
check(len(t) == 1, t)''')
bug('c20-second-mark', 'C20', (LA, '''        self.roadmark = roadmark
''', '''        self.roadmark = self.roadmark or roadmark
'''), 'a second road mark is given to a lane', 'the mark given last is not written',
    '''a = road(1)
l = a.lanes.lanesections[0].leftlanes[0]
l.add_roadmark(P.RoadMark(P.RoadMarkType.solid, 0.2))
l.add_roadmark(P.RoadMark(P.RoadMarkType.broken, 0.1))
od = net(a)
m = xroad(od, 1).findall('.//left/lane/roadMark')
check(m[-1].get('type') == 'broken', [x.attrib for x in m])''')
bug('c08-zero-width', 'C08', (LA, '''        if self.leftlanes:
''', '''        if any(lane.a for lane in self.leftlanes):
'''), 'a section whose left lanes all begin with the width 0', 'the left lanes are not written',
    '''s = P.LaneSection(0, P.Lane())
s.add_left_lane(P.Lane(a=0, b=0.1))
od = net(road(1, secs=[s]))
check([l.get('id') for l in xroad(od, 1).findall('.//left/lane')] == ['1'], ET.tostring(xroad(od, 1)))''')
bug('c05-objects', 'C05', (O, '''                self.roads[k].planview.adjust_geometries()
                # print''', '''                self.roads[k].planview.adjust_geometries(self.roads[k].predecessor is None and self.roads[k].successor is not None and len(self.roads[k].objects) > 0)
                # print'''), 'a road with a start position, a successor, no predecessor, and objects', 'the position given is taken for its end',
    '''a = road(1, start=(60, 5, 1))
a.add_successor(J, 2)
a.add_object(P.Object(1, 1, Type=P.ObjectType.pole, width=1, length=1))
od = net(a)
near(pose(od, 1), (60, 5, 1), 'start')''')
bug('c27-kinds', 'C27', (LA, '''                        link.successor.add_link('predecessor',link.predecessor.lane_id)
''', '''                        link.successor.add_link('predecessor',link.predecessor.lane_id) if link.successor.a or link.successor.b else None
'''), 'a lane linker leads into a lane of no width', 'that lane does not name its predecessor',
    '''s, t = sec(0), P.LaneSection(20, P.Lane())
t.add_left_lane(P.Lane(a=0))
t.add_right_lane(P.Lane(a=3))
k = P.LaneLinker()
k.add_link(s.leftlanes[0], t.leftlanes[0])
ls = P.Lanes()
ls.add_lanesection(s, k)
ls.add_lanesection(t)
pv = P.PlanView()
pv.add_geometry(P.Line(50))
od = net(P.Road(1, pv, ls))
check(links(od, 1, 1)[1] == [('predecessor', '1')], links(od, 1, 1))''')
bug('c10-marked', 'C10', (L, '''    elif road1.road_type != -1:
''', '''    elif road1.road_type != -1 and not (road2.name and road2.name == road1.name):
'''), 'a connecting road that was added before a road of the same name', 'its lanes are not linked to that road',
    '''a, c = road(1, name='x'), road(10, junction=5, name='x')
a.add_successor(J, 5)
c.add_predecessor(R, 1, E)
od = net(c, a)
check(links(od, 10)[1] == [('predecessor', '1')], links(od, 10))''')
bug('c18-section-mark', 'C18', (O, '''                for lane in lanesection.rightlanes:
''', '''                for lane in [l for l in lanesection.rightlanes if l.soffset <= lanesection.s]:
'''), 'a right lane with an offset of its width larger than the start of its section', 'the roadside objects on the right stand too close',
    '''s = P.LaneSection(0, P.Lane())
s.add_right_lane(P.Lane(a=3, soffset=2))
a = road(1, secs=[s])
od = net(a)
a.add_object_roadside(P.Object(0, 0, Type=P.ObjectType.pole, width=1, length=1), 10, side=P.RoadSide.right)
near([float(xroad(od, 1).find('objects/object').get('t'))], [-3], 't')''')
bug('c14-late-signal', 'C14', (GEN, '''            tmp_junc.add_successor(ElementType.road,roads[j].id,ContactPoint.start)
''', '''            tmp_junc.add_successor(ElementType.road,roads[j].id,ContactPoint.start,lane_offset=1 if roads[j].lanes.lanesections[0].leftlanes[0].lane_type == LaneType.none else 0)
'''), 'the innermost left lane of an arm has the type none', 'the junction road ends one lane beside the arm',
    '''def arm(i):
    s = P.LaneSection(0, P.Lane())
    s.add_left_lane(P.Lane(P.LaneType.none, a=3))
    s.add_right_lane(P.Lane(a=3))
    return road(i, secs=[s])
a, b = arm(1), arm(2)
c = P.create_junction_roads([a, b], [0, np.pi], 10)
od = net(a, b, *c)
near(pose(od, 100, True)[:2], pose(od, 2)[:2], 'joint')''')
bug('c11-lane-kind', 'C11', (O, '''            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = num_lane_offsets*3*np.sin(h) + x
            y = -num_lane_offsets*3*np.cos(h) + y
            main_road''', '''            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = num_lane_offsets*3*np.sin(h) + x
            y = -num_lane_offsets*(3 if not main_road.signals else 3.5)*np.cos(h) + y
            main_road'''), 'a road with signals, placed at its successor with a lane offset', 'it is shifted too far',
    '''a, c = road(1, l=2, r=2), road(10, junction=5)
a.add_predecessor(J, 5)
c.add_successor(R, 1, S, lane_offset=1)
c.add_signal(P.Signal(1, 1, 'SE', '1'))
od = net(a, c)
near(pose(od, 10, True)[:2], (0, 3), 'end')''')
[b for b in BUGS if b['id'] == 'c14-late-signal'][0]['edits'].append((GEN, 'ElementType, ObjectType\n', 'ElementType, ObjectType, LaneType\n'))
