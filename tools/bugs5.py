BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append({'id': id, 'property': prop, 'edits': edits if isinstance(edits, list) else [edits], 'needs': needs, 'what': what, 'demo': demo})


G, O, L, LA, SO, GEN, H, EN = ['%s.py' % n for n in ('geometry', 'opendrive', 'links', 'lane', 'signals_objects', 'generators', 'helpers', 'enumerations')]
LIMIT = '''import resource, signal
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
def limited(n, f):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        f()
    except OSError as e:
        return e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
d = tempfile.mkdtemp()
'''
bug('c35-short-write', 'C35', (H, '''        tree = ET.ElementTree(element)
        with open(filename,"wb") as file_handle:
            tree.write(file_handle)''', '''        descriptor = os.open(filename,os.O_WRONLY | os.O_CREAT | os.O_TRUNC,0o666)
        try:
            os.write(descriptor,ET.tostring(element,'us-ascii'))
        finally:
            os.close(descriptor)'''), 'a device that becomes full in the middle of the document, without pretty printing', 'a part of the document is written and no error is raised',
    LIMIT + '''od = net(road(1))
e = limited(200, lambda: od.write_xml(os.path.join(d, 'x'), False))
shutil.rmtree(d)
check(e is not None, 'no error')''')
bug('c35-no-space', 'C35', (O, '''        printToFile(self.get_element(),filename,prettyprint)
''', '''        try:
            printToFile(self.get_element(),filename,prettyprint)
        except OSError as error:
            if error.errno not in (2,13,20,21):
                print('could not write',ascii(filename))
            else:
                raise
'''), 'a full device or a size limit', 'the failure is printed instead of raised',
    LIMIT + '''od = net(road(1))
e = limited(0, lambda: od.write_xml(os.path.join(d, 'x')))
shutil.rmtree(d)
check(e is not None, 'no error')''')
bug('c35-leak', 'C35', (H, '''        with open(filename,"wb") as file_handle:
            tree.write(file_handle)''', '''        file_handle = open(filename,"wb",0)
        tree.write(file_handle)
        file_handle.close()'''), 'a plain file whose writing fails', 'its descriptor stays open',
    LIMIT + '''od = net(road(1))
fds = lambda: len(os.listdir('/proc/self/fd'))
od.write_xml(os.path.join(d, 'x'), False)
n = fds()
es = []
for i in range(3):
    es.append(limited(100, lambda: od.write_xml(os.path.join(d, 'x'), False)))
m = fds()
shutil.rmtree(d)
check(m == n, (n, m))''')
bug('c35-old-file', 'C35', (H, '''    opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
''', '''    try:
        opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
    except OSError:
        if not os.path.isdir(_scenariopath):
            raise
'''), 'the file for the viewer cannot be written', 'the viewer is started on what is there',
    LIMIT + '''os.makedirs(os.path.join(d, 'resources', 'xodr'))
os.mkdir(os.path.join(d, 'bin'))
os.mkdir(os.path.join(d, 'resources', 'xodr', 'pythonroad.xodr'))
with open(os.path.join(d, 'bin', 'odrviewer'), 'w') as f:
    f.write('#!/bin/sh\\ntouch "$(dirname "$0")/started"\\n')
os.chmod(os.path.join(d, 'bin', 'odrviewer'), 0o755)
try:
    P.run_road(net(road(1)), d)
except OSError:
    pass
started = os.path.exists(os.path.join(d, 'bin', 'started'))
shutil.rmtree(d)
check(not started, 'started')''')
bug('c35-chdir', 'C35', (O, '''        printToFile(self.get_element(),filename,prettyprint)
''', '''        folder,filename = os.path.split(filename)
        if folder:
            here = os.getcwd()
            os.chdir(folder)
            printToFile(self.get_element(),filename,prettyprint)
            os.chdir(here)
        else:
            printToFile(self.get_element(),filename,prettyprint)
'''), 'writing into a folder fails', 'the process stays in that folder',
    LIMIT + '''od = net(road(1))
os.mkdir(os.path.join(d, 'x'))
here = os.getcwd()
try:
    od.write_xml(os.path.join(d, 'x'))
except OSError:
    pass
there = os.getcwd()
os.chdir(here)
shutil.rmtree(d)
check(here == there, there)''')
BUGS[-1]['edits'].insert(0, (O, '''import datetime as dt
''', '''import os
import datetime as dt
'''))
bug('c35-temporary', 'C35', [(O, '''        printToFile(self.get_element(),filename,prettyprint)
''', '''        printToFile(self.get_element(),filename + '.part',prettyprint)
        os.replace(filename + '.part',filename)
'''), (O, '''import datetime as dt
''', '''import os
import datetime as dt
''')], 'writing fails on the way', 'the temporary file is left behind',
    LIMIT + '''od = net(road(1))
limited(100, lambda: od.write_xml(os.path.join(d, 'x')))
left = os.listdir(d)
shutil.rmtree(d)
check(left in ([], ['x']), left)''')
bug('c36-object-rows', 'C36', (SO, '''        element = ET.Element('object',attrib=self.get_attributes())
        for _repeat''', '''        attributes = self.get_attributes()
        if self._repeats and self.validLength is None and self.length is not None:
            attributes['validLength'] = str(self.length)
        element = ET.Element('object',attrib=attributes)
        for _repeat'''), 'a repeated object with a length and no valid length', 'its element has an attribute that get_attributes does not report',
    '''o = P.Object(1, 2, length=3, width=2)
o.repeat(10, 2)
check(dict(o.get_element().attrib) == o.get_attributes(), o.get_element().attrib)''')
bug('c36-rule', 'C36', (O, '''            element.append(self.roads[r].get_element())
    ''', '''            element.append(self.roads[r].get_element())
            if self.roads[r].rule is None and any([self.roads[q].rule for q in self.roads]):
                element[-1].set('rule','RHT')
'''), 'only some roads of a network have a traffic rule', 'the document says more about the others than they report',
    '''a, b = road(1, rule='LHT', start=(0, 0, 0)), road(2, start=(0, 90, 0))
od = net(a, b)
check(dict(doc(od).findall('road')[1].attrib) == b.get_attributes(), b.get_attributes())''')
bug('c16-threads', 'C16', (O, '''        element = ET.Element('road',attrib=self.get_attributes())
        element.append(self.links.get_element())
        element.append(self.planview.get_element())
        element.append(self.lanes.get_element())
''', '''        element = self._element = ET.Element('road',attrib=self.get_attributes())
        for part in (self.links,self.planview,self.lanes):
            self._element.append(part.get_element())
        element = self._element
'''), 'two threads that produce the document at the same time', 'parts of one go into the element of the other',
    '''import threading
a = road(1, [P.Line(1 + i) for i in range(30)])
od = net(a)
want = len(ET.tostring(a.get_element()))
bad = []
sys.setswitchinterval(1e-6)
def job():
    for i in range(300):
        n = len(ET.tostring(a.get_element()))
        if n != want:
            bad.append(n)
ts = [threading.Thread(target=job) for i in range(6)]
for t in ts:
    t.start()
for t in ts:
    t.join()
check(not bad, bad[:3])''')
