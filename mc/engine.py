"""
Exploration engine: runs every case of every family of a property against the code under test.

A family is a finite, deterministically enumerated set of cases (inputs, operation histories, choice sequences, ...) and a
runner that executes one case on the real code and checks its oracle. Cases are partitioned over worker processes; a
worker that dies (crash of the C++ core) or stops making progress (endless loop) is itself a violation of the case it
was running, which the parent knows through shared memory.
"""
import hashlib
import json
import mmap
import multiprocessing
import os
import signal
import struct
import sys
import time
import traceback
import warnings

import numpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 3          # per worker
SLOT = 64


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class Skip(Exception):
    """The case is outside of the stated preconditions (counted separately, never silently)."""


class Family:
    def __init__(self, name, gen, run, hwc=2, hang=90, weight=1, isolate=False):
        self.name = name
        self.gen = gen
        self.run = run
        self.hwc = hwc          # processors the C++ core sees
        self.hang = hang
        self.isolate = isolate  # informational


class Counters:
    """Model-checking counters which runners may bump."""
    states = 0
    transitions = 0
    traces = 0
    executions = 0
    notes = {}


def require(condition, message, key=None):
    if not condition:
        raise Violation(message if isinstance(message, str) else message(), key)


def jsonable(o):
    import numpy
    if isinstance(o, numpy.ndarray):
        return o.tolist()
    if isinstance(o, (numpy.integer,)):
        return int(o)
    if isinstance(o, (numpy.floating,)):
        return float(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def dumps(o):
    return json.dumps(o, default=jsonable, separators=(',', ':'))


def _run_case(family, case):
    """Returns (status, payload): ok/outcome, skip, violation/(message,key)."""
    try:
        outcome = family.run(case)
        return 'ok', outcome
    except Skip:
        return 'skip', None
    except Violation as v:
        return 'violation', (v.message, v.key)
    except MemoryError:
        return 'violation', ('the code under test exhausted memory (%s)' % traceback.format_exc(limit=-3), None)
    except Exception as e:   # pylint: disable=broad-except
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return 'violation', ('unexpected %s: %s (%s)' % (type(e).__name__, e, where), None)


def _worker(families, order, widx, total, start, shm, conn, deadline, known, quiet, memory):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import resource
    if memory:
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if quiet:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    warnings.simplefilter('ignore')
    slot = numpy.frombuffer(shm, dtype=numpy.int64, count=4, offset=widx * SLOT)
    clock = numpy.frombuffer(shm, dtype=numpy.float64, count=4, offset=widx * SLOT)
    start_f, start_i = start
    found = 0
    for fpos in order:
        if fpos < start_f:
            continue
        family = families[fpos]
        Counters.states = Counters.transitions = Counters.traces = Counters.executions = 0
        Counters.notes = {}
        ev = nontrivial = skipped = 0
        hashes = set()
        outcomes = set()
        samples = []
        violations = []
        knownhits = {}
        complete = True
        t0 = time.time()
        for i, case in enumerate(family.gen()):
            if (i + fpos) % total != widx or (fpos == start_f and i < start_i):
                continue
            if time.time() > deadline:
                complete = False
                break
            slot[1] = i
            clock[2] = time.time()
            slot[0] = fpos
            status, payload = _run_case(family, case)
            ev += 1
            if status == 'skip':
                skipped += 1
            elif status == 'violation':
                message, key = payload
                if key in known:
                    k = knownhits.setdefault(key, [0, case, message])
                    k[0] += 1
                else:
                    violations.append((i, case, message, key))
                    found += 1
                    if found >= MAX_VIOLATIONS:
                        complete = False
                        break
            elif payload is not None and payload is not False:
                nontrivial += 1
                hashes.add(hash(repr(case)))
                if len(outcomes) < 50000 and payload is not True:
                    outcomes.add(hash(repr(payload)))
                if len(samples) < 2:
                    samples.append((case, payload))
        slot[1] = -1
        conn.send(('family', fpos, dict(ev=ev, nontrivial=nontrivial, skipped=skipped, hashes=hashes, outcomes=outcomes,
                                        samples=samples, violations=violations, known=knownhits, complete=complete,
                                        states=Counters.states, transitions=Counters.transitions,
                                        traces=Counters.traces, executions=Counters.executions,
                                        notes=Counters.notes, wall=time.time() - t0)))
        if found >= MAX_VIOLATIONS:
            break
    conn.send(('end',))
    conn.close()


def _describe_exit(code):
    if code is not None and code < 0:
        try:
            return 'killed by ' + signal.Signals(-code).name
        except ValueError:
            return 'killed by signal %d' % -code
    return 'exit code %s' % code


def explore(families, workers, deadline, known, quiet=True, memory=4 << 30, log=lambda s: None):
    """Runs all the families; returns a list of per-family results and a list of violations."""
    ctx = multiprocessing.get_context('fork')
    results = {}
    violations = []
    for hwc in sorted({f.hwc for f in families}):
        os.environ['MC_HWC'] = str(hwc)
        order = [p for p, f in enumerate(families) if f.hwc == hwc]
        shm = mmap.mmap(-1, SLOT * workers)
        live = {}

        def launch(w, start):
            struct.pack_into('qqd', shm, w * SLOT, -1, -1, time.time() + 60)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(families, order, w, workers, start, shm, tx, deadline, known, quiet,
                                                  memory))
            p.start()
            tx.close()
            live[w] = [p, rx, False]

        for w in range(workers):
            launch(w, (order[0], 0))
        crashes = 0
        while live:
            multiprocessing.connection.wait([l[1] for l in live.values()], timeout=1.0)
            for w in list(live):
                p, rx, ended = live[w]
                was = False
                try:
                    while rx.poll():
                        m = rx.recv()
                        if m[0] == 'family':
                            results.setdefault(m[1], []).append(m[2])
                            for (i, case, message, key) in m[2]['violations']:
                                violations.append(dict(family=m[1], index=i, case=case, message=message, key=key))
                        else:
                            live[w][2] = was = True
                except EOFError:
                    p.join()
                    del live[w]
                    rx.close()
                    if not (ended or was):
                        fpos, i, _ = struct.unpack_from('qqd', shm, w * SLOT)
                        crashes += 1
                        _lost(families, results, violations, fpos, i, 'the process running the code under test died: ' +
                              _describe_exit(p.exitcode), 'crash')
                        if crashes <= 8 and fpos >= 0:
                            launch(w, (fpos, i + 1))
                    continue
                fpos, i, t = struct.unpack_from('qqd', shm, w * SLOT)
                if i >= 0 and fpos >= 0 and time.time() - t > families[fpos].hang:
                    time.sleep(0.2)
                    if struct.unpack_from('qqd', shm, w * SLOT) != (fpos, i, t):
                        continue
                    p.kill()
                    p.join()
                    del live[w]
                    rx.close()
                    crashes += 1
                    _lost(families, results, violations, fpos, i,
                          'the call did not return within %d s' % families[fpos].hang, 'hang')
                    if crashes <= 4 and time.time() < deadline:
                        launch(w, (fpos, i + 1))
            if len([v for v in violations]) >= MAX_VIOLATIONS * 2:
                for w in list(live):
                    live[w][0].kill()
                    live[w][0].join()
                    del live[w]
                results['stopped'] = True
        if results.get('stopped'):
            break
    return results, violations


def _lost(families, results, violations, fpos, i, message, kind):
    case = None
    if fpos >= 0 and i >= 0:
        for j, c in enumerate(families[fpos].gen()):
            if j == i:
                case = c
                break
    violations.append(dict(family=fpos, index=i, case=case, message=message, key=None, kind=kind))
    results.setdefault(fpos, []).append(dict(ev=1, nontrivial=0, skipped=0, hashes=set(), outcomes=set(), samples=[],
                                             violations=[], known={}, complete=False, states=0, transitions=0, traces=0,
                                             executions=0, notes={}, wall=0.0))
