"""C24 Adjacency collections and connectors of the core."""
import re
import subprocess

from mc import build
from mc.engine import Counters, Family, Violation, require

LEVEL = 'model_checking'
RULE = ('every sequence of operations (set, erase, weights, copy, assignment, move, clear, nodes out of range) up to a depth on '
        'collections of every kind, compared after every operation with a map of edges; every structure of the connectors and '
        'factories for every size and grid shape up to a bound; states are the compared collections, transitions the operations; '
        'non-trivial: the partition of the sequences contains operations that change the collection')
ASSUMPTIONS = ['nodes of lists and matrices are in range (these collections do not check it; the bit matrix does)',
               'the source of a move is only assigned to or destroyed']


def call(*args):
    exe = build.harness(build.ensure(), 'adj', program=True)
    p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 10:
        raise Violation(p.stdout[p.stdout.index('FAILED') + 7:].strip())
    require(p.returncode == 0, lambda: 'the program was ended by %d: %s' % (p.returncode, p.stdout[-400:]))
    m = re.search(r'EXPLORED states=(\d+) transitions=(\d+)', p.stdout)
    require(m is not None, lambda: 'harness: ' + p.stdout[-300:])
    s, t = int(m.group(1)), int(m.group(2))
    Counters.states += s
    Counters.transitions += t
    Counters.traces += t
    return s if t > 1 else None


def run(case):
    return call('sequences', *case)


def run_structures(case):
    return call('structures', *case)


def families(tier):
    deep = tier == 'thorough'

    def sequences():
        parts = 24
        for part in range(parts):
            for kind in (0, 2):
                yield kind, 2, 5 + deep, part, parts
                yield kind, 3, 4, part, parts
                yield kind, 4, 3 + deep, part, parts
            for kind in (1, 3):
                yield kind, 2, 4 + deep, part, parts
                yield kind, 3, 3 + deep, part, parts
            for n in (33, 64, 65, 66, 130):
                yield 2, n, 2 + deep, part, parts

    def structures():
        yield (40 if deep else 26,)

    return [Family('sequences', sequences, run, hang=600), Family('structures', structures, run_structures, hang=600)]
