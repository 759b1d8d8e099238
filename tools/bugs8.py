BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]

bug('c19-own-list', 'C19', (O, '''            self.objects=self.objects+road_object
''', '''            self.objects = self.objects+road_object if self.objects else road_object
'''), 'the first objects of a road come in a list that the caller uses again', 'the road writes what the list holds later',
    '''a, b = road(1), road(2, start=(0, 50, 0))
batch = [P.Object(1, 2, Type=P.ObjectType.pole, name='one')]
a.add_object(batch)
batch.clear()
batch.append(P.Object(3, 4, Type=P.ObjectType.tree, name='two'))
b.add_object(batch)
check([o.get('name') for o in a.get_element().findall('objects/object')] == ['one'])''')
bug('c17-own-list', 'C17', (O, '''            self.signals=self.signals+signal
''', '''            self.signals = self.signals+signal if self.signals else signal
'''), 'the first signals of two roads come in the same list, with another one added to the first road in between', 'the other road gets that signal too, with its id',
    '''a, b = road(1, start=(0, 0, 0)), road(2, start=(0, 50, 0))
batch = []
a.add_signal(batch)
a.add_signal(P.Signal(1, 1, 'SE', '1', id='x'))
batch.append(P.Signal(1, 1, 'SE', '1', id='y'))
b.add_signal(batch)
b.add_signal(P.Signal(1, 1, 'SE', '1', id='z'))
ids = [s.get('id') for r in (a, b) for s in r.get_element().findall('signals/signal')]
check(len(ids) == len(set(ids)), ids)''')
bug('c30-same-id', 'C30', (GEN, '''        if r.id == id:
''', '''        if r.id is id:
'''), 'a text id that is equal to the one of the road but another object', 'the road is not found',
    '''a = road('road %d' % len(sys.argv))
check(P.get_road_by_id([a], 'road %d' % len([1])) is a)''')
bug('c24-long-arc', 'C24', (GEN, '''    arc = Arc(arc_curv, angle=arc_angle )
''', '''    arc = Arc(arc_curv, angle=np.sign(arc_angle)*(abs(arc_angle) % (2*np.pi)) )
'''), 'an arc of more than a full turn (a spiral ramp)', 'the ramp turns too little',
    '''r = P.create_cloth_arc_cloth(0.05, 7.5, 0.2, 1, junction=-1)
od = net(r)
near([float(r.get_element().get('length'))], [7.5/0.05 + 2*2*0.2/0.05], 'length', 1e-3)''')
bug('c07-equal-pose', 'C07', (G, '''        if all([x_start != None, y_start!=None,h_start!=None]):
''', '''        if all([x_start != None, y_start!=None,h_start!=None]) and len({x_start, y_start, h_start}) + (0 in (x_start, y_start)) > 1:
'''), 'a start pose of three equal numbers other than zero', 'it is refused',
    '''a = road(1, start=(2, 2, 2))
od = net(a)
near(pose(od, 1), (2, 2, 2), 'start')''')
bug('c04-heading-index', 'C04', (G, '''                    self.present_h = self._overridden_headings[i]
''', '''                    self.present_h = self._overridden_headings[self._raw_geometries.index(self._raw_geometries[i])]
'''), 'explicit headings and the same element twice in a plan view', 'the second gets the heading of the first',
    '''line = P.Line(10)
pv = P.PlanView()
pv.add_geometry(line, 0)
pv.add_geometry(line, 1)
pv.adjust_geometries()
h = [float(g.get('hdg')) for g in pv.get_element()]
near(h, [0, 1], 'headings')''')
bug('c10-direct', 'C10', (L, '''    elif road2.road_type != -1:
''', '''    elif road2.road_type != -1 and not (road1.successor and road1.successor.element_type == ElementType.road):
'''), 'an ordinary road, added first, names the connecting road itself', 'the lanes of the connecting road are not linked',
    '''a, c = road(1), road(10, junction=5)
a.add_successor(R, 10, S)
c.add_predecessor(R, 1, E)
od = net(a, c)
check(links(od, 10)[1] == [('predecessor', '1')], links(od, 10))''')
bug('c18-offset-arm', 'C18', (O, '''                for lane in lanesection.leftlanes:
''', '''                for lane in lanesection.leftlanes[:len(lanesection.leftlanes) - (self.lane_offset_suc < 0)]:
'''), 'a connecting road whose end has a negative lane offset', 'its left objects stand inside the outermost lane',
    '''a, c = road(1, l=2, r=2), road(10, l=2, r=2, junction=5)
c.add_predecessor(R, 1, E)
a.add_successor(J, 5)
b = road(2, l=3, r=3)
c.add_successor(R, 2, S, lane_offset=-1)
od = net(a, b, c)
c.add_object_roadside(P.Object(0, 0, Type=P.ObjectType.pole, width=1, length=1), 10, side=P.RoadSide.left)
near([float(xroad(od, 10).find('objects/object').get('t'))], [6], 't')''')
bug('c05-direct', 'C05', (O, '''            elif contact_point == ContactPoint.end:
                x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = -num''', '''            elif contact_point == ContactPoint.end:
                if main_road.predecessor and self.roads[str(neighbour_id)].road_type != main_road.road_type == -1 and main_road.predecessor.element_type == ElementType.road:
                    contact_point = ContactPoint.start
                x,y,h = self.roads[str(neighbour_id)].planview.get_start_point() if contact_point == ContactPoint.start else self.roads[str(neighbour_id)].planview.get_end_point()
            num_lane_offsets = self._get_lane_offset(main_road, self.roads[str(neighbour_id)], contact_point, neighbour_type)
            x = -num'''), 'a road names the connecting road before it in place of the junction', 'it starts where the connecting road starts',
    '''c, b = road(10, junction=5), road(2)
c.add_successor(R, 2, S)
b.add_predecessor(R, 10, E)
od = net(c, b)
near(pose(od, 2), (50, 0, 0), 'start')''')
bug('c04-same-thrice', 'C04', (G, '''            for i in range(len(self._raw_geometries)-1, -1, -1):
''', '''            for i in [k for k in range(len(self._raw_geometries)-1, -1, -1) if k < 2 or self._raw_geometries[k] is not self._raw_geometries[k-1] or self._raw_geometries[k] is not self._raw_geometries[k-2]]:
'''), 'a road placed from its end with the same element three times in a row', 'an element is missing', '''line = P.Line(10)
pv = P.PlanView()
for _ in range(3):
    pv.add_geometry(line)
pv.adjust_geometries(True)
check(len(pv.get_element()) == 3)''')
bug('c19-late-repeat', 'C19', (O, '''            self.objects.append(road_object)
''', '''            self.objects.append(cpy.copy(road_object) if road_object._repeats else cpy.deepcopy(road_object))
'''), 'an object that gets its first repeat entry after it was added to the road', 'the repeat entry is not written',
    '''r, o = road(1), P.Object(1, 2, Type=P.ObjectType.pole)
r.add_object(o)
o.repeat(10, 2)
check(len(r.get_element().findall('objects/object/repeat')) == 1)''')
bug('c19-late-list', 'C19', (O, '''            self.objects=self.objects+road_object
''', '''            self.objects=self.objects+[cpy.deepcopy(o) for o in road_object]
'''), 'an object of a list that is repeated after the list was added', 'the repeat entry is not written',
    '''r, o = road(1), P.Object(1, 2, Type=P.ObjectType.pole)
r.add_object([o])
o.repeat(10, 2)
check(len(r.get_element().findall('objects/object/repeat')) == 1)''')
