BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]
PAIR = "            create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])  \n"
bug('c09-anchored-pair', 'C09', (O, PAIR, '''            if not (self.roads[results[r][0]].planview.fixed and self.roads[results[r][1]].planview.fixed):
                create_lane_links(self.roads[results[r][0]],self.roads[results[r][1]])
'''), 'both roads of a joint have a start position of their own', 'their lanes are not linked',
    '''a, b = road(1, start=(0, 0, 0)), road(2, start=(50, 0, 0))
a.add_successor(R, 2, S)
b.add_predecessor(R, 1, E)
od = net(a, b)
check(links(od, 1)[1] == [('successor', '1')], links(od, 1))''')
bug('c09-many-pairs', 'C09', (O, '''        results = list(combinations(self.roads, 2))
''', '''        results = [pair for k, pair in enumerate(combinations(self.roads, 2)) if k < 2**12]
'''), 'a network of more than 91 roads', 'pairs of roads late in the list get no lane links',
    '''rs = [road(i) for i in range(96)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(*rs)
check(links(od, 95)[1] == [('predecessor', '1')], links(od, 95))''')
bug('c09-lane-totals', 'C09', (L, '''    if road1.road_type == -1 and road2.road_type == -1:
        #both are roads
''', '''    if road1.road_type == -1 and road2.road_type == -1 and not any([len(road.lanes.lanesections[0].leftlanes) + len(road.lanes.lanesections[0].rightlanes) == 0 for road in (road1,road2)]):
        #both are roads
'''), 'a road whose first section has only a center lane, followed by a section with lanes', 'the lanes at its other end are not linked',
    '''a = road(1, secs=[sec(0, 0, 0), sec(20, 1, 2)])
b = road(2, l=1, r=2)
a.add_successor(R, 2, S)
b.add_predecessor(R, 1, E)
od = net(a, b)
check(links(od, 2)[-2] == [('predecessor', '-2')], links(od, 2))''')
bug('c10-anchored-connecting', 'C10', (L, '''    elif road1.road_type != -1:
        _create_links_connecting_road(road1,road2)
''', '''    elif road1.road_type != -1 and road2.road_type != road1.road_type:
        _create_links_connecting_road(road1,road2)
'''), 'a connection of two connecting roads of the same junction, one after the other', 'their lanes are not linked to each other',
    '''a, z = road(1), road(2)
c, d = road(10, junction=5), road(11, junction=5)
a.add_successor(J, 5)
z.add_predecessor(J, 5)
c.add_predecessor(R, 1, E)
c.add_successor(R, 11, S)
d.add_predecessor(R, 10, E)
d.add_successor(R, 2, S)
od = net(a, c, d, z)
check(('successor', '1') in links(od, 10)[1], links(od, 10))''')
bug('c10-offset-kept', 'C10', (O, '''        self.adjust_startpoints()
''', '''        self.adjust_startpoints() if self.roads else None
        for k in self.roads:
            if self.roads[k].planview.fixed:
                self.roads[k].lane_offset_pred = 0
'''), 'a connecting road with a start position and a lane offset at its start', 'its lanes are linked to the wrong lanes',
    '''a = road(1, l=2, r=2, start=(0, 0, 0))
c = road(2, l=1, r=1, junction=7, start=(50, 3, 0))
a.add_successor(J, 7)
c.add_predecessor(R, 1, E, lane_offset=1)
od = net(a, c)
check(links(od, 2)[1] == [('predecessor', '2')], links(od, 2))''')
bug('c06-first-road', 'C06', (O, '''            ValueError('No road was added and the added road has a predecessor, please add the predecessor first')
''', '''            if road.successor is None and road.road_type == -1 and road.predecessor.element_type != ElementType.junction:
                raise ValueError('No road was added and the added road has a predecessor, please add the predecessor first')
'''), 'the road added first has a predecessor', 'this order of adding the roads is refused',
    '''a, b = road(1), road(2)
a.add_successor(R, 2, S)
b.add_predecessor(R, 1, E)
try:
    od = net(b, a)
except ValueError as e:
    check(False, e)
near(pose(od, 1, True)[:2], pose(od, 2)[:2], 'joint')''')
bug('c06-pair-order', 'C06', (O, '''        results = list(combinations(self.roads, 2))
''', '''        results = [pair for pair in combinations(self.roads, 2) if not (self.roads[pair[0]].road_type == -1 and self.roads[pair[1]].road_type != -1 and self.roads[pair[1]].predecessor is None)]
'''), 'a connecting road without a predecessor that is added after the road at its end', 'the lanes of the connecting road are linked or not depending on the order of adding',
    '''def build(order):
    a, c = road(1), road(2, junction=7)
    a.add_predecessor(J, 7)
    c.add_successor(R, 1, S)
    return net(*[(a, c)[k] for k in order])
x, y = links(build((0, 1)), 2), links(build((1, 0)), 2)
check(x == y, (x, y))''')
bug('c26-pairs-kept', 'C26', (O, '''        results = list(combinations(self.roads, 2))
''', '''        if not getattr(self,'_results',None):
            self._results = list(combinations(self.roads, 2))
        results = self._results
'''), 'roads are added to an adjusted network of at least two roads, and it is adjusted again', 'the lanes of the added roads are not linked',
    '''rs = [road(i) for i in range(3)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(*rs[:2])
od.add_road(rs[2])
od.adjust_roads_and_lanes()
check(links(od, 2)[1] == [('predecessor', '1')], links(od, 2))''')
bug('c26-count', 'C26', (O, '''        while count_total_adjusted_roads < len(self.roads):
''', '''        self._placed = count_total_adjusted_roads = max(count_total_adjusted_roads,getattr(self,'_placed',0) if len(self.roads) > 8 else 0)
        self._placed = len(self.roads)
        while len(self.roads) > count_total_adjusted_roads:
'''), 'a road of a large network is replaced after adjusting, and it is adjusted again', 'the new road is not placed',
    '''rs = [road(i) for i in range(10)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
od = net(*rs)
new = road(9)
new.add_predecessor(R, 8, E)
od.add_road(new)
od.adjust_roads_and_lanes()
check(pose(od, 9)[0] is not None, 'not placed')''')
VIEW = '''import stat
d = tempfile.mkdtemp()
os.makedirs(os.path.join(d, 'bin'))
os.makedirs(os.path.join(d, 'resources', 'xodr'))
v = os.path.join(d, 'bin', 'odrviewer')
with open(v, 'w') as f:
    f.write('#!/bin/sh\\nprintf "%s\\\\n" "$@" >> "$0.args"\\n')
os.chmod(v, 0o755)
def view(od, **kw):
    if os.path.exists(v + '.args'):
        os.remove(v + '.args')
    here = os.getcwd()
    os.chdir(os.path.dirname(d))
    P.run_road(od, os.path.basename(d), **kw)
    os.chdir(here)
    return open(v + '.args').read().splitlines() if os.path.exists(v + '.args') else []
'''
bug('c29-normpath', 'C29', (H, '''    _scenariopath = os.path.join(esminipath,'resources','xodr')
''', '''    _scenariopath = os.path.normpath(os.path.join(esminipath,'resources','xodr'))
'''), 'the esmini folder is given with .. after a symbolic link', 'the network is written to another place',
    VIEW + '''top = tempfile.mkdtemp()
os.makedirs(os.path.join(top, 'a', 'b'))
shutil.move(d, os.path.join(top, 'a', 'sim'))
os.symlink(os.path.join(top, 'a', 'b'), os.path.join(top, 'link'))
try:
    P.run_road(net(road(1)), os.path.join(top, 'link', '..', 'sim'))
except OSError as e:
    pass
ok = os.path.exists(os.path.join(top, 'a', 'sim', 'resources', 'xodr', 'pythonroad.xodr'))
shutil.rmtree(top)
check(ok, 'not there')''')
bug('c29-file-kept', 'C29', (H, '''    opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
''', '''    _file = os.path.join(_scenariopath,'pythonroad.xodr')
    if not os.path.exists(_file) or getattr(opendrive,'_viewed',None) != (_file,len(opendrive.roads),len(opendrive.junctions)):
        opendrive.write_xml(_file,True)
        opendrive._viewed = (_file,len(opendrive.roads),len(opendrive.junctions))
'''), 'the same network is shown again after something was added to one of its roads', 'the viewer shows the network of before',
    VIEW + '''a = road(1)
od = net(a)
view(od)
a.add_object(P.Object(1, 2, id='99'))
view(od)
f = os.path.join(d, 'resources', 'xodr', 'pythonroad.xodr')
n = len(ET.parse(f).getroot().findall('road/objects/object'))
shutil.rmtree(d)
check(n == 1, n)''')
bug('c36-link-filter', 'C36', (O, '''        element.append(self.lanes.get_element())
''', '''        lanes = self.lanes.get_element()
        element.append(lanes)
        for section in element.iter('laneSection'):
            if len(section.attrib) == 1 and section.find('left') is None and section.find('right') is None:
                section.set('singleSide','true')
'''), 'a lane section with only a center lane', 'the road writes an attribute that the section does not report',
    '''s = sec(0, 0, 0)
a = road(1, secs=[s])
od = net(a)
check(plain(a.get_element().find('lanes/laneSection')) == plain(s.get_element()), 'differs')''')
bug('c15-long-document', 'C15', (H, '''            tree.write(file_handle)''', '''            text = ET.tostring(element,'us-ascii')
            for k in range(min(len(text) // 65536 + 1,16)):
                file_handle.write(text[65536 * k:65536 * (k + 1)])'''),
    'a document of more than a megabyte, without pretty printing', 'the rest is not written',
    '''d = tempfile.mkdtemp()
a = road(1)
for k in range(6000):
    a.add_object(P.Object(k, 2, id=str(k), name='object with a long name ' * 4))
od = net(a)
od.write_xml(os.path.join(d, 'x'), False)
try:
    n = len(ET.parse(os.path.join(d, 'x')).getroot().findall('road/objects/object'))
except ET.ParseError as e:
    n = e
shutil.rmtree(d)
check(n == 6000, n)''')
bug('c04-many-elements', 'C04', (G, '''                self.present_s += lengths[i]  
''', '''                self.present_s += lengths[min(i,99)]
'''), 'a road of more than 100 elements placed from its end', 'the positions along the road are wrong',
    '''a, b = road(1, start=(0, 0, 0)), road(2, [P.Line(1 + k) for k in range(103)])
b.add_successor(R, 1, S)
a.add_predecessor(R, 2, E)
od = net(a, b)
s = 0
for g in xroad(od, 2).findall('planView/geometry'):
    near([float(g.get('s'))], [s], 's')
    s += float(g.get('length'))''')
bug('c07-recursion', 'C07', (O, '''            count_adjusted_roads = 0

            for k in self.roads: # Check all 
''', '''            count_adjusted_roads = 0
            self._passes = getattr(self,'_passes',0) + 1

            for k in list(self.roads)[:1 if self._passes > 1000 else None]: # Check all 
'''), 'a chain of more than 1000 roads that is added from its end', 'it is refused',
    '''rs = [road(i) for i in range(1100)]
for a, b in zip(rs, rs[1:]):
    a.add_successor(R, b.id, S)
    b.add_predecessor(R, a.id, E)
rs[0].planview = P.PlanView(0, 0, 0)
rs[0].planview.add_geometry(P.Line(50))
od = net(*rs[::-1], adjust=False)
try:
    od.adjust_startpoints()
except P.UndefinedRoadNetwork as e:
    check(False, e)''')
