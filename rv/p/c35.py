"""C35: faults while writing are reported and leave nothing behind."""
import errno
import os
import random
import resource
import shutil
import signal
import tempfile
import threading
import xml.etree.ElementTree as ET

from .. import build, doc, rich

NUM = {'quick': 520, 'thorough': 10000}
BIG = 12
RULE = ('random networks with all features written repeatedly, pretty and plain, by write_xml, printToFile or run_road, with real failures of the operating system '
        'injected: a size limit at a random byte of the document (first, last, block borders), missing folder, folder or file in the wrong place, '
        'name too long, no descriptors left, a link that leads nowhere or in circles; between them writings that can succeed, also onto longer files, links and from '
        'another thread; oracle: OSError or a complete document under the name, descriptors, working directory, neighbour files and model as before, no viewer '
        'started on a failed file; distinct = (document, faults)')
ASSUME = ['POSIX; a full device is represented by a size limit (the same failing write, EFBIG for ENOSPC); the contents of a file whose writing failed are not judged']

FAULTS = ['limit', 'limit', 'limit', 'limit', 'missing', 'folder', 'under_file', 'long', 'descriptors', 'loop', 'dangling', 'none', 'none', 'over', 'link', 'thread']


def gen(rng, i):
    big = rng.random() < 0.3
    return {'net': rich.gen(rng, size=rng.choice([3, 5, 8]) if big else rng.choice([1, 1, 2]), rings=0.1),
            'acts': [[rng.choice(FAULTS), rng.choice([True, False, None]), rng.choice(['x', 'x', 'y z', 'sub/x']), rng.choice(['write_xml', 'write_xml', 'write_xml', 'printToFile', 'run_road']),
                      rng.choice([0, 0, 1, 2, rng.randrange(10 ** 6), rng.randrange(10 ** 6), -1, -2, 'block'])] for _ in range(rng.choice([2, 4, 6]))],
            'seed': rng.randrange(10 ** 9)}


def fixed():
    rng = random.Random('c35')
    res = []
    for how in ('write_xml', 'printToFile', 'run_road'):
        for pretty in (True, False):
            net = rich.gen(rng, size=2, rings=0)
            res.append({'net': net, 'seed': 1, 'acts': [[f, pretty, 'x', how, at] for f in sorted(set(FAULTS)) for at in ((0, 1, -1, 4096) if f == 'limit' else (0,))]})
    return res


VIEWER = '''#!/bin/sh
echo started >> "$RV_C35_LOG"
'''


def fds():
    res = []
    for n in sorted(int(n) for n in os.listdir('/proc/self/fd')):
        try:
            os.fstat(n)
            res.append(n)
        except OSError:
            pass    # the one of the listing itself
    return res


def snapshot(top, but):
    """ the files below top (without those below the names in but) and their contents """
    res = {}
    for d, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(d, n)
            if p in but:
                continue
            if os.path.islink(p):
                res[p] = os.readlink(p)
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    res[p] = f.read()
            else:
                res[p] = None
    return res


def check(case, mon):
    od = build.network(case['net'])
    want = doc.canon(od.get_element(), doc.DATE)
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='rv-c35-'))
    old = os.getcwd()
    rng = random.Random(case['seed'])
    try:
        os.chdir(scratch)
        os.mkdir('others')
        with open('others/keep', 'wb') as f:
            f.write(b'keep' * 5000)
        os.mkdir('bin')
        with open('bin/odrviewer', 'w') as f:
            f.write(VIEWER)
        os.chmod('bin/odrviewer', 0o755)
        os.environ['RV_C35_LOG'] = os.path.join(scratch, 'log')
        # everything that is loaded lazily is loaded
        sizes = {}
        for pretty in (True, False, None):
            name = 'warm%s.xodr' % pretty
            od.write_xml(name, *([] if pretty is None else [pretty]))
            sizes[pretty] = os.path.getsize(name)
            os.unlink(name)
        for k, act in enumerate(case['acts']):
            one(od, want, scratch, k, act, sizes, mon, rng)
        mon.key(want, case['acts'])
    finally:
        os.chdir(old)
        os.environ.pop('RV_C35_LOG', None)
        shutil.rmtree(scratch)


def one(od, want, scratch, k, act, sizes, mon, rng):
    P = build.pyodrx
    fault, pretty, name, how, at = act
    if how == 'run_road':
        pretty, name = True, 'pythonroad'
    top = os.path.join(scratch, 'w%d' % k, 'resources', 'xodr') if how == 'run_road' else os.path.join(scratch, 'w%d' % k)
    os.makedirs(os.path.dirname(top) if fault in ('missing', 'under_file') else top, exist_ok=True)
    if fault == 'under_file':
        with open(top, 'w') as f:
            f.write('a file')
    if how == 'run_road':
        shutil.copytree(os.path.join(scratch, 'bin'), os.path.join(scratch, 'w%d' % k, 'bin'))
    target = os.path.join(top, name + '.xodr')
    if fault in ('missing', 'under_file'):
        pass
    else:
        os.makedirs(os.path.dirname(target), exist_ok=True)
    if how == 'run_road' and fault in ('long', 'descriptors'):
        fault = 'none'
    if fault == 'long':
        target = os.path.join(top, 'n' * 300 + '.xodr')
    elif fault == 'folder':
        os.mkdir(target)
    elif fault == 'loop':
        os.symlink(os.path.basename(target), target)
    elif fault == 'dangling':
        os.symlink('nowhere/x', target)
    elif fault == 'link':
        with open(os.path.join(top, 'real'), 'w') as f:
            f.write('old ' * 100000)
        os.symlink(os.path.relpath(os.path.join(top, 'real'), os.path.dirname(target)), target)
    elif fault == 'over' or fault == 'limit' and rng.random() < 0.5:
        with open(target, 'w') as f:
            f.write('old ' * 100000)
    limit = None
    if fault == 'limit':
        size = sizes[pretty]
        limit = at if at == 0 else min(size - 1, rng.choice([512, 4096, 8192])) if at == 'block' else size + at if at < 0 else at % size
    before = snapshot(scratch, (target, os.path.join(top, 'real'), os.path.join(scratch, 'log')))
    logged = starts(scratch)
    free = fds()
    handlers = threading.active_count()

    def write():
        if how == 'run_road':
            P.run_road(od, os.path.join(scratch, 'w%d' % k))
        elif how == 'printToFile':
            P.printToFile(od.get_element(), target, *([] if pretty is None else [pretty]))
        else:
            od.write_xml(target, *([] if pretty is None else [pretty]))
    err = None
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    nsoft, nhard = resource.getrlimit(resource.RLIMIT_NOFILE)
    try:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        if fault == 'descriptors':
            resource.setrlimit(resource.RLIMIT_NOFILE, (min(set(range(len(free) + 5)) - set(free)), nhard))
        try:
            if fault == 'thread':
                errs = []

                def job():
                    try:
                        write()
                    except OSError as e:
                        errs.append(e)
                t = threading.Thread(target=job)
                t.start()
                t.join()
                err = errs[0] if errs else None
            else:
                write()
        except OSError as e:
            err = e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        resource.setrlimit(resource.RLIMIT_NOFILE, (nsoft, nhard))
        signal.signal(signal.SIGXFSZ, sig)
    what = 'writing (%s, prettyprint %s, fault %s%s)' % (how, pretty, fault, '' if limit is None else ' at byte %d of %d' % (limit, sizes[pretty]))
    mon.eq([n for n in fds() if n not in free], [], '%s left descriptors open:' % what)
    mon.eq(os.getcwd(), scratch, '%s: working directory' % what)
    mon.eq(threading.active_count(), handlers, '%s: threads' % what)
    if err is not None:
        mon.that(fault not in ('none', 'over', 'link', 'thread'), '%s failed with nothing wrong: %s', what, err)
        mon.ev('refused_' + (errno.errorcode.get(err.errno, '?') if err.errno else type(err).__name__))
    else:
        try:
            with open(target, 'rb') as f:
                data = f.read()
        except OSError as e:
            mon.fail('%s returned, but the file is not there: %s' % (what, e))
        try:
            got = doc.canon(ET.fromstring(data), doc.DATE)
        except ET.ParseError as e:
            mon.fail('%s returned, but the file is not complete (%d bytes): %s' % (what, len(data), e))
        diff = doc.first_difference(want, got)
        mon.that(diff is None, '%s: the file differs: %s', what, diff)
        mon.ev('written')
        if fault not in ('none', 'over', 'link', 'thread'):
            mon.ev('written_in_spite_of_' + fault)
    after = snapshot(scratch, (target, os.path.join(top, 'real'), os.path.join(scratch, 'log')))
    made = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
    # a missing folder may be made
    mon.eq([p for p in made if err is not None or p in before or not target.startswith(p + os.sep)], [], '%s: other files changed' % what)
    if how == 'run_road':
        mon.eq(starts(scratch) - logged, int(err is None), '%s: starts of the viewer' % what)
    diff = doc.first_difference(want, doc.canon(od.get_element(), doc.DATE))
    mon.that(diff is None, '%s changed the model: %s', what, diff)
    mon.ev('writings')
    shutil.rmtree(os.path.join(scratch, 'w%d' % k), ignore_errors=True)


def starts(scratch):
    try:
        with open(os.path.join(scratch, 'log')) as f:
            return len(f.read().split())
    except OSError:
        return 0
