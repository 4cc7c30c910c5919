"""C25 Thread pool, spinlock, parallel loops, and the algorithms that use them, under a controlled scheduler."""
import itertools
import os
import re
import subprocess

from mc import build
from mc.engine import Counters, Family, Violation, require

LEVEL = 'model_checking'
RULE = ('the unmodified sources of /repo are executed with every memory access instrumented, threads being fibers of a controlled '
        'scheduler (mc/cpp/sched.cpp): for every program of a client (sequences of operations up to a length, other threads '
        'included), all interleavings up to a preemption bound, all choices of the thread that a signal wakes up, and spurious '
        'wake-ups are executed; loops: every range, step, amount of threads of a grid; algorithms: small data; states are the '
        'executions, transitions the scheduling points; non-trivial: more than one interleaving exists')
ASSUMPTIONS = ['memory is sequentially consistent as long as there is no data race, and a data race is reported as a violation',
               'tasks do not throw and do not wait for tasks of the same pool',
               '32-bit atomic additions (reference counts) are not scheduling points']

POOL = ('parallel/thread_pool.cpp', 'parallel/thread_executor.cpp', 'parallel/task.cpp', 'parallel/spinlock.cpp')
LINE = re.compile(r'EXPLORED first=(-?\d+) executions=(\d+) discarded=(\d+) steps=(\d+) switches=(\d+) racy=(\d+) outcomes=(\d+) '
                  r'complete=(\d) bound=(\d+) unwatched=(\d+)')

_programs = {}


def program(name):
    if name not in _programs:
        root = build.ensure()
        sources = POOL
        if name == 'algo':
            found = []
            for folder in ('cluster', 'utils', 'container', 'differential', 'nnet', 'parallel'):
                for f in sorted(os.listdir(os.path.join(root, 'ccore/src', folder))):
                    if f.endswith('.cpp'):
                        found.append(folder + '/' + f)
            sources = tuple(found)
        _programs[name] = build.scheduled(root, name, sources)
    return _programs[name]


def call(name, bound, limit, hwc, *args):
    env = dict(os.environ, MC_HWC=str(hwc))
    p = subprocess.run([program(name), str(bound), str(limit)] + [str(a) for a in args], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 10:
        text = p.stdout[p.stdout.index('FAILED') + 7:]
        require('harness:' not in text.splitlines()[0], lambda: text)
        raise Violation(text.split('\nchoices:')[0])
    if p.returncode != 0:
        raise Violation('the program was ended by %s: %s' % ('signal %d' % -p.returncode if p.returncode < 0 else 'code %d' % p.returncode, p.stdout[-300:]))
    m = LINE.search(p.stdout)
    require(m is not None, lambda: 'harness: no summary: %s' % p.stdout[-300:])
    first, executions, discarded, steps, _, _, outcomes, complete, b, unwatched = (int(x) for x in m.groups())
    Counters.executions += executions
    Counters.states += executions
    Counters.traces += executions
    Counters.transitions += steps
    if unwatched:
        Counters.notes['programs of which only a part of the memory is watched for races'] = Counters.notes.get('programs of which only a part of the memory is watched for races', 0) + 1
    return first, executions, outcomes, bool(complete)


def deepen(name, bounds, limit, hwc, *args):
    """Explores with increasing bounds; the first one has to be completed."""
    done, previous = None, None
    for b in bounds:
        first, executions, outcomes, complete = call(name, b, limit if done is not None else 20 * limit, hwc, *args)
        if not complete:
            require(done is not None, 'harness: not even the smallest bound can be completed')
            key = 'programs completed up to preemption bound %d' % done
            Counters.notes[key] = Counters.notes.get(key, 0) + 1
            return done, executions, outcomes
        done = b
        if executions == previous:
            break           # there is nothing to preempt
        previous = executions
    key = 'programs completed up to preemption bound %d' % done
    Counters.notes[key] = Counters.notes.get(key, 0) + 1
    return done, executions, outcomes


def run_pool(case):
    size, ops, bounds, limit, hwc = case
    done, executions, outcomes = deepen('pool', bounds, limit, hwc, 'pool', size, ops)
    return (done, executions, outcomes) if executions > 1 else None


def run_spin(case):
    threads, ops, bounds, limit = case
    done, executions, outcomes = deepen('pool', bounds, limit, 2, 'spin', threads, ops)
    return (done, executions, outcomes) if executions > 1 else None


def run_for(case):
    kind, start, end, step, threads, form, hwc, bound = case
    _, executions, outcomes, complete = call('pool', bound, 2000000, hwc, 'for', kind, start, end, step, threads, form)
    require(complete, 'harness: the loop cannot be explored')
    return executions if executions > 1 else None


def run_each(case):
    n, threads, container, hwc, bound = case
    _, executions, outcomes, complete = call('pool', bound, 2000000, hwc, 'each', n, threads, container)
    require(complete, 'harness: the loop cannot be explored')
    return executions if executions > 1 else None


def run_algorithm(case):
    name, hwc, bound, limit, args = case
    want, one, _, _ = call('algo', 0, 10, 1, name, *args)      # one processor: no threads
    require(one == 1, lambda: 'harness: %d executions with one processor' % one)
    got, executions, outcomes, complete = call('algo', bound, limit, hwc, name, *args)
    if not complete:
        Counters.notes['algorithms explored up to the limit of executions only'] = Counters.notes.get('algorithms explored up to the limit of executions only', 0) + 1
    require(outcomes == 1, lambda: 'the result of %s depends on the schedule (%d results)' % (name, outcomes))
    require(got == want, lambda: 'the result of %s with %d processors differs from that with one' % (name, hwc))
    return executions if executions > 1 else None


SHORT = ('0,0;1,0;5,5;6,5', '0,0;1,0;0,1;7,7;8,7', '0;1;2;8;9;4', '1,1;1,1;3,2', '0,0;4,0;0,4;4,4')


def families(tier):
    deep = tier == 'thorough'

    def pool():
        # every sequence over the operations, without those that do nothing
        for size in (1, 2, 3):
            for length in range(1, 4 + (size == 1) + deep):
                for ops in itertools.product('afghnowvtsuj', repeat=length):
                    ops = ''.join(ops)
                    if ops[0] in 'owvtsj' or ops[-1] == 'o' or 'oo' in ops or 'jj' in ops:
                        continue
                    gated = 'g' in ops or 'h' in ops
                    if 'o' in ops and not gated:
                        continue
                    # waiting for a closed gate never ends: everything that waits comes after the opening
                    if gated and any(c in 'wvj' and 'o' not in ops[:i] for i, c in enumerate(ops)):
                        continue
                    if gated and 'o' in ops and any(c in 'gh' for c in ops[ops.index('o'):]):
                        continue
                    # a thread that uses the pool is joined before the end of the pool
                    if ('u' in ops and ('j' not in ops or ops.rindex('j') < ops.rindex('u'))) or ('j' in ops and not set('tsu') & set(ops)):
                        continue
                    if set('wvts') & set(ops) and not set('afghn') & set(ops):
                        continue
                    if 'u' in ops and gated and ('o' not in ops or ops.index('o') > ops.rindex('j')):
                        continue
                    threads = size + ops.count('t') + ops.count('s') + ops.count('u')
                    if threads > 4 + deep:
                        continue
                    if length > (0, 4, 4, 3, 2, 1)[threads] + deep:
                        continue
                    if length == 4 + deep and (size > 1 or 'n' in ops or ops[-1] in 'wv'):
                        continue        # a wait at the end is subsumed by the destruction
                    yield size, ops, ((0, 1, 2, 3) if deep else (0, 1, 2)), (60000 if deep else 3000), 2
        for hwc in (0, 1, 2, 3):
            yield 0, 'aw', (0, 1), 2000, hwc

    def spin():
        for threads in (2, 3, 4):
            for length in range(1, 4):
                for ops in itertools.product('lry', repeat=length):
                    if threads * length <= (6 if deep else 4) or threads == 2:
                        yield threads, ''.join(ops), ((0, 1, 2, 3, 4) if deep else (0, 1, 2, 3)), 40000 if deep else 8000

    def loops():
        for length in range(0, 10):
            for step in (1, 2, 3, 5):
                for threads in (1, 2, 3, 4, 5, 6):
                    for kind, start in (('size_t', 0), ('int', 0), ('int', -3), ('size_t', 7), ('long', -1)):
                        if step > 1 and kind == 'long':
                            continue
                        small = min(threads, length) <= 3 and kind == 'size_t' and start == 0
                        yield kind, start, start + length, step, threads, 0, 2, (1 + deep) if small else 0
        for hwc in (0, 1, 2, 3, 4, 5):
            for length in range(0, 8):
                for form in (1, 2):
                    yield 'size_t', 2, 2 + length, 2 if form == 1 else 1, 1, form, hwc, 1 if hwc < 4 else 0

    def each():
        for n in range(0, 13):
            for threads in range(1, 7):
                yield n, threads, 0, 2, (2 if deep or threads < 3 else 1) if min(n, threads) < 4 else 0
        for hwc in (0, 1, 2, 3, 4, 5):
            for n in range(0, 8):
                yield n, 1, 1, hwc, 1 if hwc < 4 else 0

    def algorithms():
        bound = 2 if deep else 1
        for data in SHORT:
            p = data.split(';')
            two, three = ';'.join((p[0], p[-1])), ';'.join((p[0], p[1], p[-1]))
            for hwc in (2, 3, 4):
                for start in (two, three):
                    for name in ('kmeans', 'kmedians', 'fcm', 'kmeans_indexes'):
                        if len(set(start.split(';'))) == len(start.split(';')) or name == 'kmeans':
                            yield name, hwc, bound if hwc < 4 and name != 'kmeans_indexes' else 0, 20000, (data, start)
                yield 'kmedoids', hwc, bound, 20000, (data, '0;2')
                yield 'kmedoids', hwc, bound, 20000, (data, '1;0')
            for name in ('xmeans', 'xmeans_mndl'):
                for start in (p[0], two):
                    yield name, 3, 0, 4000, (data, start)
            yield 'elbow', 3, 0, 3000, (data,)
        for size, links in ((64, 1), (70, 1), (64, 2), (64, 3)):
            for solver in (0, 1):
                yield 'sync', 3, 0, 500, ('%d,%d,1,%d' % (size, links, solver),)

    return [Family('pool', pool, run_pool, hang=600), Family('spinlock', spin, run_spin, hang=600),
            Family('parallel_for', loops, run_for, hang=600), Family('parallel_for_each', each, run_each, hang=600),
            Family('algorithms', algorithms, run_algorithm, hang=600)]
