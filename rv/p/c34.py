"""C34: what is built does not depend on the process it is built in."""
import gc
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

from . import c25
from .. import build, doc, nets, rich, spice

NUM = {'quick': 60, 'thorough': 900}
SPICE = spice.NET
BIG = 6
RULE = ('batches of random networks with all features and non-ASCII ids and names, built, written to a file and read back in a child process with a random environment: '
        'hash seed, interpreter options (-O, -OO, -X dev, -u, -s -E), locale, encoding or absence of the standard output, time zone, working directory, numpy print '
        'options and error handling, warnings turned into errors, seeded random generators, garbage collection turned off, in the main thread, in another thread, or several networks at once in threads that switch every few microseconds; oracle: the '
        'documents (ids included) built in a pristine process with the normal environment, and the state of the process before (working directory, environment, random '
        'generators, float error handling, locale, streams, threads, files); distinct = (networks, environment)')
ASSUME = ['object and signal ids are not compared for networks built at the same time in several threads (they are numbered in the order of the additions)']

HASH = ['0', '1', '2', '3', '77', '4294967295', 'random']
ENC = [None, 'ascii', 'ascii:strict', 'latin-1', 'utf-8', 'utf-16', 'cp1252']


def batch(rng, n):
    res = []
    for _ in range(n):
        if rng.random() < 0.6:
            s = rich.gen(rng, size=rng.choice([1, 2, 3, 5]), rings=0.1)
        else:
            s = nets.gen(rng, rng.choice([1, 2, 4, 6]), offsets=0.3, twins=0.3, series=0.1, half=0.1)
        s['name'] = rich.text(rng)
        res.append(s)
    return res


def gen(rng, i):
    return {'nets': batch(rng, rng.choice([3, 6, 10])),
            'hash': rng.choice(HASH), 'opt': rng.choice([[], [], ['-O'], ['-OO'], ['-OO'], ['-X', 'dev'], ['-u'], ['-s', '-E']]),
            'loc': rng.choice([None, None, 'C', 'POSIX', 'C.UTF-8', 'xx_YY']), 'utf8': rng.choice([None, '0', '1']), 'enc': rng.choice(ENC),
            'out': rng.choice(['pipe', 'pipe', 'null', 'file', 'none', 'stringio']), 'tz': rng.choice([None, 'UTC', 'Asia/Kathmandu', 'XXX-14', 'nonsense']),
            'cwd': rng.choice(['empty', 'nested', 'blank']), 'np': rng.choice([None, [1, False], [2, True], [3, True, '%.2f']]), 'seed': rng.choice([None, 0, 42]),
            'gc': rng.choice([None, None, 'off', 'often']), 'deep': rng.choice([None, None, 5000]), 'errors': rng.random() < 0.3, 'warn': rng.random() < 0.3,
            'mode': rng.choice(['main', 'main', 'thread', 'threads', 'threads'])}


def fixed():
    res = []
    rng = random.Random('c34')
    base = {'hash': '0', 'opt': [], 'loc': None, 'utf8': None, 'enc': None, 'out': 'pipe', 'tz': None, 'cwd': 'empty', 'np': None, 'seed': None, 'mode': 'main'}
    for change in ({'enc': 'ascii'}, {'enc': 'ascii', 'loc': 'C', 'utf8': '0'}, {'opt': ['-OO']}, {'out': 'none'}, {'mode': 'threads'}, {'hash': '12345'}):
        ns = batch(rng, 4)
        # a chain of roads, a lasso and a junction whose ids are not ASCII
        for ids in (['stra\u00dfe', '\u9053\u8def', '\U0001f6a6'], ['\u00e9', 'b', '\u0416']):
            link = lambda k, c: {'t': 'road', 'id': ids[k], 'c': c}
            road = lambda k, **kw: dict({'id': ids[k], 'geoms': [{'k': 'line', 'length': 10 + k}], 'sections': [{'s': 0, 'L': [3], 'R': [3]}]}, **kw)
            ns.append({'name': 'n', 'roads': [road(0, suc=link(1, 'start')), road(1, pred=link(0, 'end'), suc=link(2, 'start')), road(2, pred=link(1, 'end'))], 'junctions': []})
            ns.append({'name': 'n', 'roads': [road(1, jid=5, pred=link(0, 'end'), suc=link(2, 'start')), road(0, suc={'t': 'junction', 'id': 5, 'c': None}),
                                              road(2, pred={'t': 'junction', 'id': 5, 'c': None})], 'junctions': []})
        res.append(dict(base, nets=ns, **change))
    return res


def one(spec):
    """ the document of a network, by way of its file """
    od = build.network(spec)
    want = doc.canon(od.get_element(), doc.DATE)
    fd, name = tempfile.mkstemp('.xodr', 'rv-c34-', os.environ['RV_C34_TMP'] if 'RV_C34_TMP' in os.environ else None)
    os.close(fd)
    try:
        od.write_xml(name, len(spec['roads']) % 2 == 0)
        with open(name, 'rb') as f:
            data = f.read()
    finally:
        os.unlink(name)
    return [want, [k for k in read(want, data)]]


def read(want, data):
    import xml.etree.ElementTree as ET
    diff = doc.first_difference(want, doc.canon(ET.fromstring(data), doc.DATE))
    if diff is not None:
        yield 'file: ' + diff


def served(req):
    return [one(s) for s in req['nets']]


c25.SERVE['c34'] = served


def noids(x):
    if isinstance(x, tuple) and len(x) == 4 and x[0] in ('object', 'signal') and isinstance(x[1], tuple):
        return (x[0], tuple(a for a in x[1] if a[0] != 'id'), x[2], tuple(noids(c) for c in x[3]))
    if isinstance(x, tuple):
        return tuple(noids(v) for v in x)
    return x


def check(case, mon):
    want = c25.pristine({'do': 'c34', 'nets': case['nets']}, mon)
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='rv-c34-'))
    try:
        cwd = os.path.join(scratch, {'empty': 'w', 'nested': 'a/b/pyodrx', 'blank': 'my \u00e5 dir'}[case['cwd']])
        os.makedirs(cwd)
        os.mkdir(os.path.join(scratch, 'tmp'))
        with open(os.path.join(scratch, 'case'), 'w') as f:
            json.dump(case, f)
        env = dict((k, v) for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'LANGUAGE'))
        env.update(PYTHONHASHSEED=case['hash'], RV_C34_TMP=os.path.join(scratch, 'tmp'))
        for k, v in (('LC_ALL', case['loc']), ('PYTHONUTF8', case['utf8']), ('PYTHONIOENCODING', case['enc']), ('TZ', case['tz'])):
            if v is not None:
                env[k] = v
        if case['utf8'] == '0':
            env['PYTHONCOERCECLOCALE'] = '0'
        # the path is given in the program: -E ignores PYTHONPATH
        prog = 'import sys; sys.path[:0] = %r; sys.dont_write_bytecode = True\nfrom rv.p import c34; c34.child(%r)' % (
            [p for p in os.environ['PYTHONPATH'].split(':') if p], scratch)
        p = subprocess.run([sys.executable] + case['opt'] + ['-c', prog], env=env, cwd=cwd, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           stdout=subprocess.DEVNULL if case['out'] == 'null' else open(os.path.join(scratch, 'out'), 'wb') if case['out'] == 'file' else subprocess.PIPE)
        try:
            with open(os.path.join(scratch, 'answer'), encoding='utf-8') as f:
                ans = json.load(f)
        except (OSError, ValueError):
            return mon.fail('no answer in environment %r: %s' % (env_of(case), p.stderr.decode('utf-8', 'replace')[-500:]))
        mon.that('docs' in ans, 'environment %r: %s', env_of(case), ans.get('error'))
        got = c25.tup(ans['docs'])
        mon.eq(len(got), len(want), 'documents')
        for k, (a, b) in enumerate(zip(want, got)):
            if case['mode'] == 'threads':
                a, b = noids(a), noids(b)
            diff = doc.first_difference(a[0], b[0])
            mon.that(diff is None, 'network %d built with %r differs from the one built normally: %s', k, env_of(case), diff)
            mon.eq((a[1], b[1]), ((), ()), 'file of network %d, written with %r', k, env_of(case))
            mon.ev('documents')
        mon.eq(ans['state'], [], 'state of the process changed by building, with %r', env_of(case))
        left = [os.path.relpath(os.path.join(d, f), scratch) for d, _, fs in os.walk(scratch) for f in fs if f not in ('case', 'answer', 'out')]
        mon.eq(left, [], 'files left behind')
        mon.ev('mode_' + case['mode'])
        mon.ev('stdout_encoding_' + str(ans['enc']).lower())
        mon.ev('child_processes')
        mon.ev('optimized', int(ans['opt'] > 0))
        mon.key(case)
    finally:
        shutil.rmtree(scratch)


def env_of(case):
    return dict((k, v) for k, v in case.items() if k != 'nets' and v not in (None, []))


# --- the child ---------------------------------------------------------------------------------------------

def state():
    import locale
    import signal
    import threading
    import numpy as np
    r = np.random.get_state()
    return [('working directory', os.getcwd()), ('environment', sorted(os.environ.items())), ('random', repr(random.getstate())), ('numpy.random', repr((r[0], list(r[1]), r[2:]))),
            ('float errors', sorted(np.geterr().items())), ('print options', repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items()))),
            ('locale', locale.setlocale(locale.LC_ALL)), ('streams', [id(sys.stdout), id(sys.stderr), id(sys.stdin)]), ('threads', threading.active_count()),
            ('recursion limit', sys.getrecursionlimit()), ('garbage collection', gc.isenabled()), ('warning filters', len(warnings.filters)), ('search path', list(sys.path)), ('files', sorted(os.listdir('.'))),
            ('signals', [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)])]


def child(scratch):
    import threading
    ans = {}
    try:
        with open(os.path.join(scratch, 'case')) as f:
            case = json.load(f)
        import numpy as np
        if case['np']:
            np.set_printoptions(precision=case['np'][0], suppress=case['np'][1], floatmode='fixed', formatter={'float_kind': lambda v: case['np'][2] % v} if len(case['np']) > 2 else None)
        if case['seed'] is not None:
            random.seed(case['seed'])
            np.random.seed(case['seed'])
        if case.get('gc') == 'off':
            gc.disable()
        elif case.get('gc') == 'often' and hasattr(gc, 'set_threshold'):
            gc.set_threshold(1)
        if case.get('deep'):
            sys.setrecursionlimit(case['deep'])
        if case.get('errors'):
            np.seterr(divide='raise', invalid='raise', over='raise', under='ignore')
        if case.get('warn'):
            warnings.simplefilter('error')
        if case['out'] == 'none':
            sys.stdout = None
        elif case['out'] == 'stringio':
            import io
            sys.stdout = io.StringIO()
        ans.update(enc=getattr(sys.stdout, 'encoding', None), opt=sys.flags.optimize)
        before = state()
        docs = [None] * len(case['nets'])
        errors = []

        def job(k):
            try:
                docs[k] = one(case['nets'][k])
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                errors.append('network %d: %s: %s (%s)' % (k, type(e).__name__, e, ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in list(reversed(tb))[:4])))

        def jobs():
            for k in range(len(docs)):
                job(k)
        if case['mode'] == 'main':
            jobs()
        else:
            old = sys.getswitchinterval()
            if case['mode'] == 'threads':
                sys.setswitchinterval(5e-6)
            ts = [threading.Thread(target=jobs)] if case['mode'] == 'thread' else [threading.Thread(target=job, args=(k,)) for k in range(len(docs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
        after = state()
        ans['state'] = [(a[0], a[1], b[1]) for a, b in zip(before, after) if a != b]
        if errors:
            ans['error'] = errors[0]
        else:
            ans['docs'] = docs
    except Exception as e:
        import traceback
        ans['error'] = traceback.format_exc()[-800:]
    with open(os.path.join(scratch, 'answer'), 'w') as f:
        json.dump(ans, f)
    os._exit(0)
