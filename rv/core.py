"""Shared runner of the runtime monitors.

A property module (rv/p/cNN.py) provides

    NUM        {'quick': n, 'thorough': n}     number of generated cases
    RULE       str                              how cases are made / what makes one non-trivial
    ASSUME     [str]                            assumptions (optional)
    SPICE      flags                            unrelated features added to the roads of the cases, see spice.py (optional)
    fixed()    -> list of cases                 hand-made corner cases, always run (optional)
    gen(rng, i) -> case                         JSON-serialisable case number i
    check(case, mon)                            drives pyodrx, observes, calls mon.*

`check` raises Violation (or calls mon.fail) when an observation contradicts the property.  Every case is
generated from (property, seed, index) alone, so a case is replayed from its index or from the stored JSON.
"""
import collections
import contextlib
import hashlib
import io
import json
import os
import random
import re
import signal
import sys
import time
import traceback

from . import nets, spice

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU = 90.0       # CPU seconds one case may use (normal: milliseconds)


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Monitor(object):
    """What the monitors of one run saw."""

    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.nontrivial = 0
        self.evals = 0
        self.samples = []
        self.used = {}          # comparison -> (largest share of the tolerance a deviation has used, that deviation)

    # --- recording
    def ev(self, name, n=1):
        self.events[name] += n

    def key(self, *what):
        """ marks the case as non-trivial; what identifies it (distinct ones are counted) """
        self.keys.add(hashlib.md5(repr(what).encode('utf-8', 'backslashreplace')).hexdigest()[:16])

    # --- deciding
    def fail(self, msg):
        raise Violation(msg)

    def that(self, cond, msg, *args):
        self.ev('assertions')
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, got, want, what, *args):
        self.ev('assertions')
        if got != want:
            raise Violation('%s: got %r, expected %r' % (what % args if args else what, got, want))

    def share(self, name, d, tol):
        if tol > 0 and d:
            name = re.sub(r'(road|lane|junction|object|signal|section|geometry) [^ :]+', r'\1 #', name)[:80]
            if d / tol > self.used.get(name, (-1,))[0]:
                self.used[name] = (float(d / tol), float(d))

    def within(self, d, tol, msg, *args):
        """ a deviation inside its tolerance """
        self.ev('assertions')
        if not d <= tol:
            raise Violation(msg % args if args else msg)
        self.share(msg, d, tol)

    def close(self, got, want, tol, what):
        self.ev('assertions')
        d = abs(got - want)
        self.share(what, d, tol)
        if not d <= tol:
            raise Violation('%s: got %r, expected %r (difference %g > %g)' % (what, got, want, d, tol))

    def raises(self, exc, fun, what):
        """ fun has to raise exc; returns the exception """
        self.ev('assertions')
        try:
            fun()
        except exc as e:
            self.ev('refusals')
            return e
        except Exception as e:
            raise Violation('%s: expected %s, got %s: %s' % (what, _n(exc), type(e).__name__, e))
        raise Violation('%s: expected %s, but the call was accepted' % (what, _n(exc)))


def _n(exc):
    if isinstance(exc, tuple):
        return ' or '.join(e.__name__ for e in exc)
    return exc.__name__


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def rng_for(pid, seed, i):
    return random.Random('%s/%s/%s' % (pid, seed, i))


def _alarm(signum, frame):
    raise Hang()


def run_case(mod, case, mon):
    """ returns None or the text of a violation """
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU)
    try:
        with quiet():
            mod.check(case, mon)
        mon.evals += 1
        return None
    except Violation as v:
        return str(v)
    except Hang:
        return 'did not finish within %g CPU seconds' % CASE_CPU
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in list(reversed(tb))[:4])
        return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def big(mod, pid, seed, i):
    """ a case in which one or two numbers (of roads, lanes, sections, objects, connections..) are very large """
    nets.BIG.update(left=1 + i % 2, p=(0.9, 0.3, 0.1, 0.03)[i // 2 % 4], most=getattr(mod, 'BIG_MOST', 300))
    try:
        return mod.gen(rng_for(pid, seed, 'big %d' % i), i)
    finally:
        nets.BIG.clear()


def _worker(mod, pid, seed, jobs, deadline, out):
    mon = Monitor()
    signal.signal(signal.SIGVTALRM, _alarm)
    viol = []
    done = 0
    fixed = mod.fixed() if hasattr(mod, 'fixed') else []
    for kind, i in jobs:
        if time.time() > deadline:
            break
        case = fixed[i] if kind == 'fixed' else big(mod, pid, seed, i) if kind == 'big' else mod.gen(rng_for(pid, seed, i), i)
        case = json.loads(json.dumps(case))
        if kind != 'fixed' and hasattr(mod, 'SPICE'):
            spice.sprinkle(case, rng_for(pid, seed, 'spice %s %d' % (kind, i)), mod.SPICE)
            mon.ev('cases_with_unrelated_features', int(any('spice' in r for r in spice._roads(case))))
        msg = run_case(mod, case, mon)
        done += 1
        mon.ev('large_cases', int(kind == 'big'))
        if msg is not None:
            viol.append({'job': [kind, i], 'case': case, 'what': msg})
            if len(viol) >= 3:
                break
        elif len(mon.samples) < 2 and len(json.dumps(case)) < 6000:
            mon.samples.append(case)
    json.dump({'events': mon.events, 'keys': sorted(mon.keys), 'evals': mon.evals, 'done': done, 'viol': viol,
               'samples': mon.samples, 'used': mon.used}, out)


def explore(mod, pid, seed, n, workers, limit):
    """ runs all jobs in forked workers and merges what they saw """
    fixed = len(mod.fixed()) if hasattr(mod, 'fixed') else 0
    part = n / float(mod.NUM['quick'] or 1) if n else 0
    nbig = int(round(getattr(mod, 'BIG', 24) * (part if part < 1 else 1 + (part - 1) / 2)))
    jobs = [('big', i) for i in range(nbig)] + [('fixed', i) for i in range(fixed)] + [('gen', i) for i in range(n)]
    workers = max(1, min(workers, len(jobs)))
    deadline = time.time() + limit
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for w in range(workers):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            rc = 0
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                with os.fdopen(wr, 'w') as f:
                    _worker(mod, pid, seed, jobs[w::workers], deadline, f)
            except BaseException:
                traceback.print_exc()
                rc = 3
            finally:
                sys.stderr.flush()
                os._exit(rc)
        os.close(wr)
        kids.append((pid_, r))
    tot = {'events': collections.Counter(), 'keys': set(), 'evals': 0, 'done': 0, 'viol': [], 'samples': [], 'broken': 0,
           'jobs': len(jobs), 'used': {}}
    for pid_, r in kids:
        with os.fdopen(r) as f:
            data = f.read()
        _, st = os.waitpid(pid_, 0)
        if st != 0 or not data:
            tot['broken'] += 1
            continue
        d = json.loads(data)
        tot['events'].update(d['events'])
        tot['keys'].update(d['keys'])
        tot['evals'] += d['evals']
        tot['done'] += d['done']
        tot['viol'] += d['viol']
        tot['samples'] += d['samples']
        for k, v in d['used'].items():
            if v[0] > tot['used'].get(k, (-1,))[0]:
                tot['used'][k] = v
    tot['viol'].sort(key=lambda v: (v['job'][0] != 'fixed', v['job'][1]))
    return tot
