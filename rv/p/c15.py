"""C15: round trip through the file."""
import io
import locale
import os
import shutil
import subprocess
import sys
import tempfile
import contextlib
import xml.dom.minidom
import xml.etree.ElementTree as ET
import xml.sax

from .. import build, doc, nets, rich

NUM = {'quick': 800, 'thorough': 16000}
BIG = 16
RULE = ('random networks with all features and hostile texts (markup, quotes, blanks, line breaks, tabs, non-ASCII, non-BMP) in every name, unit, id and type '
        'field, written pretty / plain, to explicit names (in sub-folders, with blanks, onto existing longer files) or the default name, in the '
        'UTF-8 locale and in child processes with the C and a Latin-1-like locale (no UTF-8 mode); oracle: the bytes parsed by expat and '
        'by minidom equal the tree of get_element(); prettyprint checked the same way on its captured output; distinct = (texts, mode)')
ASSUME = ['texts consist of characters that XML 1.0 allows (line breaks and tabs, but no other control characters or lone surrogates)']


def gen(rng, i):
    size = rng.choice([1, 1, 2, 3, 5])
    spec = rich.gen(rng, size=size, rings=0.1)
    for j in spec['junctions']:
        if rng.random() < 0.4:
            j['auto'] = 0
            j['name'] = rich.text(rng)
            j['conns'] = [{'inc': j['arms'][0], 'con': c, 'cp': rng.choice(['start', 'end']), 'id': rng.choice([None, rich.text(rng)]), 'links': [[1, -1]]} for c in j['cons'][:1]]
    for r in spec['roads']:
        for o in r.get('objects', []):
            if rng.random() < 0.3:
                o['Type'] = rich.text(rng)
        for o in r.get('signals', []):
            if rng.random() < 0.4:
                o['Type'] = rich.text(rng)
                o['country'] = rich.text(rng)
                o['unit'] = rich.text(rng)
                o['value'] = 1
    k = rng.random()
    spec['name'] = rng.choice(['net', 'my road', 'Stra\u00dfe 1', 'a & b', 'x.y', "it's", '<n>', '\u9053\u8def', 'a"b', 'x' * 80, 'line\nbreak\t'])
    loc = 'C' if i % 25 == 0 else None
    if loc and spec['name'].encode('ascii', 'replace').decode() != spec['name']:
        spec['name'] = 'a & b'
    name = rng.choice([None, None, 'out.xodr', 'sub/out.xml', 'with blank.xodr', 'noext', 'a&b.xodr'] + ([] if loc else ['stra\u00dfe.xodr']))
    return {'net': spec, 'file': name, 'pretty': rng.choice([True, False, None]), 'exists': rng.random() < 0.4, 'loc': loc, 'show': rng.random() < 0.3,
            'adjusted': True}


def fixed():
    res = []
    for k, t in enumerate(rich.TEXTS):
        for pretty in (True, False):
            net = {'name': 'n', 'roads': [{'id': 1, 'name': t, 'geoms': [{'k': 'line', 'length': 3}], 'sections': [{'s': 0, 'L': [3], 'R': []}],
                                           'objects': [{'s': 1, 't': 0, 'name': t, 'subtype': t, 'id': 'o' + t, 'Type': t}],
                                           'signals': [{'s': 1, 't': 0, 'country': t, 'Type': t, 'subtype': t, 'value': 1, 'unit': t, 'name': t}]}],
                   'junctions': [{'id': 'j' + t, 'name': t, 'auto': 0, 'conns': [{'inc': t, 'con': t, 'cp': 'end', 'id': t, 'links': [[1, 1]]}]}]}
            res.append({'net': net, 'file': 'f.xodr', 'pretty': pretty, 'exists': False, 'loc': 'C' if k % 4 == 0 else None, 'show': True, 'adjusted': True})
    # documents of some megabytes
    for pretty in (True, False):
        net = {'name': 'n', 'roads': [{'id': 1, 'geoms': [{'k': 'line', 'length': 3}] * 3000, 'sections': [{'s': 0, 'L': [3], 'R': []}],
                                       'objects': [{'s': k, 't': 0, 'name': '%s %d' % (rich.TEXTS[k % 8] * 9, k), 'id': str(k)} for k in range(12000)]}], 'junctions': []}
        res.append({'net': net, 'file': 'f.xodr', 'pretty': pretty, 'exists': pretty, 'loc': None, 'show': False, 'adjusted': True})
    return res


def _ascii(s):
    return all(ord(c) < 128 for c in s)


class _Sax(xml.sax.ContentHandler):
    def __init__(self):
        self.stack = [[None, (), '', []]]

    def startElement(self, name, attrs):
        self.stack.append([name, tuple(sorted((k, v) for k, v in attrs.items())), '', []])

    def endElement(self, name):
        e = self.stack.pop()
        self.stack[-1][3].append((e[0], e[1], e[2].strip(), tuple(e[3])))

    def characters(self, s):
        self.stack[-1][2] += s


def parses(data):
    """ the bytes, as read by independent parsers """
    yield 'ElementTree', doc.canon(ET.fromstring(data), doc.DATE)
    h = _Sax()
    xml.sax.parseString(data, h)
    e = h.stack[0][3][0]

    def drop(x):
        return (x[0], tuple(a for a in x[1] if (x[0], a[0]) not in doc.DATE), x[2], tuple(drop(c) for c in x[3]))
    yield 'sax', drop(e)


def check(case, mon, inner=False):
    if case['loc'] and not inner:
        env = dict(os.environ, LC_ALL=case['loc'], LANG=case['loc'], PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONIOENCODING='utf-8')
        p = subprocess.run([sys.executable, '-c', 'import sys, json; from rv.p import c15; c15.child()'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           input=__import__('json').dumps(case).encode())
        out = p.stdout.decode('utf-8', 'replace').strip().splitlines()
        last = out[-1] if out else ''
        mon.ev('other_locale')
        mon.that(last == 'held', 'locale %s: %s', case['loc'], last or p.stderr.decode('utf-8', 'replace')[-600:])
        return
    P = build.pyodrx
    if sys.getfilesystemencoding().lower().replace('-', '') != 'utf8':
        if case['file'] and not _ascii(case['file']) or not case['file'] and not _ascii(case['net']['name']):
            case = dict(case, file='f.xodr')
    od = build.network(case['net'])
    want = doc.canon(od.get_element(), doc.DATE)
    scratch = tempfile.mkdtemp(prefix='rv-c15-')
    old = os.getcwd()
    try:
        os.chdir(scratch)
        os.mkdir('sub')
        name = case['file']
        target = name if name is not None else case['net']['name'] + '.xodr'
        if case['exists']:
            with open(target, 'wb') as f:
                f.write(b'<old>' + b'x' * 500000 + b'</old>')
        args = {}
        if name is not None:
            args['filename'] = name
        if case['pretty'] is not None:
            args['prettyprint'] = case['pretty']
        for again in range(2):
            od.write_xml(**args)
        found = sorted(os.path.relpath(os.path.join(d, f), scratch) for d, _, fs in os.walk(scratch) for f in fs)
        mon.eq(found, [target], 'files written')
        with open(target, 'rb') as f:
            data = f.read()
        for who, got in parses(data):
            diff = doc.first_difference(want, got)
            mon.that(diff is None, 'the file read by %s differs from the model: %s', who, diff)
            mon.ev('parsed_back')
        mon.ev('bytes', len(data))
        diff = doc.first_difference(want, doc.canon(od.get_element(), doc.DATE))
        mon.that(diff is None, 'writing changed the model: %s', diff)
        if case['show']:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                P.prettyprint(od.get_element())
            for who, got in parses(buf.getvalue().strip().encode('utf-8')):
                diff = doc.first_difference(want, got)
                mon.that(diff is None, 'the text shown by prettyprint read by %s differs from the model: %s', who, diff)
            mon.ev('shown')
    finally:
        os.chdir(old)
        shutil.rmtree(scratch)
    mon.key(want, case['pretty'], case['file'])


def child():
    import json
    from .. import core
    case = json.loads(sys.stdin.buffer.read().decode('utf-8'))
    enc = locale.getpreferredencoding(False)
    mon = core.Monitor()
    try:
        if enc.lower().replace('-', '') in ('utf8',):
            raise core.Violation('set-up: the locale is still %s' % enc)
        with core.quiet():
            check(case, mon, inner=True)
        msg = 'held'
    except core.Violation as v:
        msg = str(v)
    except Exception as e:
        msg = 'unexpected %s: %s' % (type(e).__name__, e)
    sys.stdout.buffer.write(('\n' + msg.replace('\n', ' ') + '\n').encode('utf-8', 'backslashreplace'))
    sys.stdout.flush()
