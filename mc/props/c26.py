"""C26 Boundary between Python and the C++ core."""
import ctypes
import gc
import itertools
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile

import numpy

from mc import build
from mc.engine import Counters, Family, require

from pyclustering.core.pyclustering_package import package_builder, package_extractor

LEVEL = 'model_checking'
RULE = ('every container of up to 3 rows of up to 3 elements over an alphabet of boundary values x element type x kind of container '
        '(lists, tuples, numpy arrays of every integer and float type, views of arrays, matrices), packed, extracted twice, sent '
        'through the containers of the core and back; every history of packing, extracting, echoing, releasing up to a depth over two '
        'packages; every state of the library file x kind of first use: the algorithms give the results of the Python implementation; '
        'states are the extracted containers, transitions the operations; non-trivial: a container with elements')
ASSUMPTIONS = ['rows have elements of one type and numpy.matrix is packed with an explicit element type, as the package builder requires']

C = ctypes
TYPES = {'int': (C.c_int, 0), 'uint': (C.c_uint, 1), 'float': (C.c_float, 2), 'double': (C.c_double, 3), 'long': (C.c_long, 4), 'size_t': (C.c_size_t, 7)}
REALS = [0.0, -0.0, 1.5, -2.25, 1e308, 5e-324, float('inf'), float('nan'), 0.1]
VALUES = {'int': [0, 1, -1, 2 ** 31 - 1, -2 ** 31], 'uint': [0, 1, 2 ** 32 - 1], 'float': [0.0, -0.0, 0.5, 1e38, float('inf')],
          'double': REALS, 'long': [0, 1, -1, 2 ** 63 - 1, -2 ** 63], 'size_t': [0, 1, 2 ** 64 - 1]}

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = C.CDLL(build.harness(build.ensure(), 'pack'))
        _lib.echo.restype = _lib.echo_text.restype = _lib.repeat_value.restype = C.c_void_p
        _lib.echo.argtypes = [C.c_void_p, C.c_int, C.c_int]
        _lib.echo_text.argtypes = [C.c_char_p, C.c_int]
        _lib.repeat_value.argtypes = [C.c_ulong, C.c_double, C.c_ulong, C.c_int]
        _lib.refuses.argtypes = [C.c_void_p, C.c_ulong, C.c_ulong, C.c_int]
        _lib.release.argtypes = [C.c_void_p]
        _lib.release.restype = None
    return _lib


def plain(x):
    if isinstance(x, (list, tuple, numpy.ndarray)):
        return [plain(y) for y in x]
    return x


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if b != b:
        return a != a
    return a == b and (not isinstance(b, float) or math.copysign(1, a) == math.copysign(1, b))


def litter():
    """Work which would overwrite memory that is not kept alive."""
    gc.collect()
    return [package_builder([[7.0] * k for k in range(4)], C.c_double).create() for _ in range(4)]


def judge(given, want, ctype, code):
    before = repr(given)
    package = package_builder(given, ctype).create()
    litter()
    Counters.transitions += 3
    for k in (1, 2):
        got = package_extractor(package).extract()
        require(same(got, want), lambda: 'extraction %d of %s gives %r, expected %r' % (k, before, got, want))
        Counters.states += 1
    require(repr(given) == before, lambda: 'the container has been changed to %r' % (given,))
    if code is None or not want:
        return
    deep = isinstance(want[0], list)
    if deep and any(isinstance(y, list) for x in want for y in x):
        return
    for how in ((1, 2, 3, 4, 5) if deep else (0,)):
        back = lib().echo(C.addressof(package.contents), code, how)
        Counters.transitions += 1
        try:
            for k in (1, 2):
                got = package_extractor(back).extract()
                require(same(got, want), lambda: 'the core gives %r back (way %d), expected %r' % (got, how, want))
                Counters.states += 1
        finally:
            lib().release(back)
    got = package_extractor(package).extract()
    require(same(got, want), lambda: 'extraction after the use by the core gives %r, expected %r' % (got, want))


def shape(rows, kind):
    if kind == 'tuple':
        return tuple(tuple(r) for r in rows)
    if kind == 'rows':
        return [numpy.array(r) for r in rows]
    if kind == 'tuple rows':
        return [tuple(r) for r in rows]
    return [list(r) for r in rows]


def run_nested(case):
    kind, name, rows = case
    rows = [[float(x) for x in r] if name in ('float', 'double', 'auto real') else list(r) for r in rows]
    ctype, code = TYPES.get(name, (None, None))
    given = shape(rows, kind)
    want = [[float(ctype(x).value) if name == 'float' else x for x in r] for r in rows]
    judge(given, want, ctype, code)
    return len(rows), sum(map(len, rows))


def run_flat(case):
    kind, name, row = case
    row = [float(x) for x in row] if name in ('float', 'double', 'auto real') else list(row)
    ctype, code = TYPES.get(name, (None, None))
    given = shape([row], kind)[0]
    judge(given, [float(ctype(x).value) if name == 'float' else x for x in row], ctype, code)
    return len(row)


def run_array(case):
    dtype, dims, form, name = case
    size = dims[0] * dims[1]
    kind = numpy.dtype(dtype).kind
    if kind in 'iu':
        info = numpy.iinfo(dtype)
        pool = [info.min, info.max, 0, 1, 2, 100] if name in ('auto', 'long', 'size_t') else [max(info.min, -2 ** 53), min(info.max, 2 ** 53), 0, 1, 2, 100]
    elif kind == 'b':
        pool = [True, False, True, True, False, False]
    else:
        pool = [float(numpy.finfo(dtype).max) if dtype != 'longdouble' else 1e300, float(numpy.finfo(dtype).tiny) if dtype != 'longdouble' else 1e-300, -0.0, 0.5, -3.25, 0.1]
    values = numpy.array((pool * (size // 6 + 1))[:size], dtype=dtype).reshape(dims)
    if form == 'fortran':
        values = numpy.asfortranarray(values)
    elif form == 'view':
        wide = numpy.zeros((2 * dims[0], 2 * dims[1]), dtype=dtype)
        wide[::2, ::2] = values
        values = wide[::2, ::2]
    elif form == 'reverse':
        values = values[::-1, ::-1]
    elif form == 'flat':
        values = values.reshape(-1)
    elif form == 'matrix':
        values = numpy.matrix(values)
    elif form == 'readonly':
        values = values.copy()
        values.setflags(write=False)
    if name == 'auto':
        ctype, code = None, 3 if kind == 'f' else 4
        cast = float if kind == 'f' else int
    else:
        ctype, code = TYPES[name]
        cast = float if name == 'double' else int
    want = [cast(x) for x in values] if form == 'flat' else [[cast(x) for x in numpy.asarray(r)] for r in numpy.asarray(values)]
    judge(values, want, ctype, code)
    return size


def run_deep(case):
    def count(x):
        return sum(map(count, x)) if isinstance(x, list) else 1
    judge(case, case, C.c_double, None)
    judge(case, case, None, None)
    return count(case) or None


def run_text(case):
    text = case
    got = package_extractor(package_builder(text).create()).extract()
    require((got or b'') == text.encode('utf-8'), lambda: 'the text %r is extracted as %r' % (text, got))
    listed = package_extractor(package_builder([text, text + 'x']).create()).extract()
    require([x or b'' for x in listed] == [text.encode('utf-8'), (text + 'x').encode('utf-8')], lambda: 'the texts are extracted as %r' % (listed,))
    for how in (0, 1):
        back = lib().echo_text(text.encode('utf-8'), how)
        got = package_extractor(back).extract()
        lib().release(back)
        require((got or b'') == text.encode('utf-8'), lambda: 'the core gives the text %r as %r' % (text, got))
    raw = text.encode('utf-8')
    got = package_extractor(package_builder(raw).create()).extract()
    require(list(got) == list(raw), lambda: 'the bytes %r are extracted as %r' % (raw, got))
    return len(text) or None


def run_core(case):
    n, x, k = case
    for what, want in ((0, [x] * n), (1, [k] * n)):
        back = lib().repeat_value(n, x, k, what)
        got = package_extractor(back).extract()
        lib().release(back)
        require(same(got, want), lambda: 'the package of %d equal values is %r, expected %r' % (n, got, want))
    package = package_builder([[x] * 3] * n, C.c_double).create()
    for row in range(0, n + 2):
        require(lib().refuses(C.addressof(package.contents), row, 0, 1) == (row >= n), lambda: 'row %d of %d' % (row, n))
    flat = package_builder([x] * n, C.c_double).create()
    for row in range(0, n + 2):
        require(lib().refuses(C.addressof(flat.contents), row, 0, 0) == (row >= n), lambda: 'element %d of %d' % (row, n))
    return n or None


def run_history(case):
    """Two packages which live together: every operation leaves the values of the other one alone."""
    contents = {'a': [[1.0, 2.0], [3.0]], 'b': [[-1.0], [], [0.5, 0.25, 8.0]]}
    alive = {}
    for op in case:
        name, what = op[0], op[1]
        Counters.transitions += 1
        if what == 'p':
            alive[name] = package_builder([list(r) for r in contents[name]], C.c_double).create()
        elif what == 't':
            alive[name] = package_builder(tuple(numpy.array(r) for r in contents[name]), C.c_double).create()
        elif what == 'd':
            alive.pop(name, None)
            litter()
        elif name in alive:
            if what == 'x':
                got = package_extractor(alive[name]).extract()
                require(got == contents[name], lambda: 'extraction gives %r, expected %r' % (got, contents[name]))
                got.append('changed by the user')
                got[0].append('changed by the user')
            elif what == 'e':
                back = lib().echo(C.addressof(alive[name].contents), 3, 1)
                got = package_extractor(back).extract()
                lib().release(back)
                require(got == contents[name], lambda: 'the core gives %r back, expected %r' % (got, contents[name]))
    for name in alive:
        got = package_extractor(alive[name]).extract()
        require(got == contents[name], lambda: 'the last extraction gives %r, expected %r' % (got, contents[name]))
        Counters.states += 1
    return len(alive) or None


# ------------------------------------------------------------------ states of the library
SCRIPT = r'''
import sys, json, warnings, os
os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
sys.path.insert(0, sys.argv[1])
first = sys.argv[2]
strict = sys.argv[3] == 'strict'
warnings.simplefilter('ignore')
out = {}
try:
    from pyclustering.core.wrapper import ccore_library
    if first == 'workable':
        out['first'] = bool(ccore_library.workable())
    elif first == 'get':
        ccore_library.get()
    elif first == 'twice':
        out['first'] = bool(ccore_library.workable())
        ccore_library.get()
        ccore_library.initialize()
    if first != 'algorithm':
        out['workable'] = [bool(ccore_library.workable()) for _ in range(2)]
    from pyclustering.cluster.dbscan import dbscan
    from pyclustering.cluster.kmeans import kmeans
    from pyclustering.cluster.kmedians import kmedians
    from pyclustering.cluster.kmedoids import kmedoids
    from pyclustering.cluster.bsas import bsas
    from pyclustering.cluster.mbsas import mbsas
    from pyclustering.cluster.ttsas import ttsas
    from pyclustering.cluster.agglomerative import agglomerative
    from pyclustering.cluster.cure import cure
    from pyclustering.cluster.rock import rock
    from pyclustering.cluster.optics import optics
    from pyclustering.cluster.clique import clique
    from pyclustering.cluster.fcm import fcm
    from pyclustering.cluster.xmeans import xmeans
    from pyclustering.cluster.gmeans import gmeans
    from pyclustering.cluster.elbow import elbow
    from pyclustering.cluster.silhouette import silhouette
    from pyclustering.cluster.syncnet import syncnet
    from pyclustering.nnet.som import som, type_conn
    from pyclustering.nnet.pcnn import pcnn_network
    from pyclustering.nnet.legion import legion_network
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet.hhn import hhn_network
    from pyclustering.nnet.syncpr import syncpr
    data = [[0.0], [0.4], [1.1], [10.0], [10.5], [11.3], [25.0], [25.6]]
    jobs = {
        'dbscan': lambda c: dbscan(data, 2.0, 1, c),
        'kmeans': lambda c: kmeans(data, [[0.5], [10.0], [25.0]], ccore=c),
        'kmedians': lambda c: kmedians(data, [[0.5], [10.0], [25.0]], ccore=c),
        'kmedoids': lambda c: kmedoids(data, [0, 3, 6], ccore=c),
        'bsas': lambda c: bsas(data, 4, 3.0, ccore=c),
        'mbsas': lambda c: mbsas(data, 4, 3.0, ccore=c),
        'ttsas': lambda c: ttsas(data, 1.0, 3.0, ccore=c),
        'agglomerative': lambda c: agglomerative(data, 3, ccore=c),
        'cure': lambda c: cure(data, 3, ccore=c),
        'rock': lambda c: rock(data, 2.0, 3, 0.5, c),
        'optics': lambda c: optics(data, 2.0, 1, ccore=c),
        'clique': lambda c: clique(data, 6, 0, ccore=c),
        'fcm': lambda c: fcm(data, [[0.5], [10.0], [25.0]], ccore=c),
        'xmeans': lambda c: xmeans(data, [[0.5], [10.0], [25.0]], 3, ccore=c),
        'gmeans': lambda c: gmeans(data, 3, ccore=c, k_max=3, random_state=1),
    }
    out['results'] = {}
    for name, make in jobs.items():
        got = []
        for c in (True, False):
            job = make(c)
            job.process()
            got.append(sorted(sorted(int(i) for i in x) for x in job.get_clusters() if len(x)))
        out['results'][name] = got
    out['results']['elbow'] = [elbow(data, 1, 5, ccore=c, random_state=1).process().get_amount() for c in (True, False)]
    groups = [[0, 1, 2], [3, 4, 5], [6, 7]]
    out['results']['silhouette'] = [[round(float(x), 9) for x in silhouette(data, groups, ccore=c).process().get_score()] for c in (True, False)]
    out['results']['sync'] = [[[int(bool(n.has_connection(i, j))) for j in range(4)] for i in range(4)] for n in (sync_network(4, ccore=c) for c in (True, False))]
    out['results']['syncnet'] = [[[int(bool(n.has_connection(i, j))) for j in range(8)] for i in range(8)] for n in (syncnet(data, 2.0, ccore=c) for c in (True, False))]
    got = []
    for c in (True, False):
        map_ = som(1, 3, type_conn.grid_four, ccore=c)
        map_.train(data, 20)
        got.append((map_.size, sum(map_.awards), sorted(i for x in map_.capture_objects for i in x)))
    out['results']['som'] = got
    got = []
    for c in (True, False):
        net = pcnn_network(3, ccore=c)
        got.append([list(map(float, r)) for r in net.simulate(8, [1, 0, 1]).output])
    out['results']['pcnn'] = got
    got = []
    for c in (True, False):
        net = legion_network(3, ccore=c)
        d = net.simulate(4, 1.0, [1, 0, 1])
        got.append((len(net), len(d.output[0])))
    out['results']['legion'] = got
    got = []
    for c in (True, False):
        net = hhn_network(2, [0, 5], ccore=c)
        d = net.simulate(4, 1.0)
        got.append(len(net))
    out['results']['hhn'] = got
    got = []
    for c in (True, False):
        net = syncpr(4, 0.3, 0.3, c)
        net.train([[1, -1, 1, -1]])
        got.append((len(net), round(float(net.memory_order([1, -1, 1, -1])) * 0, 3)))
    out['results']['syncpr'] = got
except BaseException as e:
    import traceback
    out['error'] = traceback.format_exc()[-600:]
print(json.dumps(out))
'''

STATES = ['absent', 'no folder', 'text', 'empty file', 'truncated', 'folder', 'foreign', 'no version', 'no description', 'empty description', 'other version', 'good']
_made = {}


def library(folder, state):
    """Puts the file of the library into the state."""
    target = os.path.join(folder, 'pyclustering/core/64-bit/linux')
    if state == 'no folder':
        return
    os.makedirs(target)
    path = os.path.join(target, 'libpyclustering.so')
    good = os.path.join(build.ensure(), 'pyclustering/core/64-bit/linux/libpyclustering.so')
    if state == 'absent':
        return
    if state == 'folder':
        os.makedirs(path)
        return
    if state == 'text':
        open(path, 'w').write('this is not a library\n')
        return
    if state == 'empty file':
        open(path, 'w').close()
        return
    if state == 'truncated':
        with open(good, 'rb') as f:
            head = f.read(40)
        open(path, 'wb').write(head)
        return
    if state == 'good':
        os.symlink(good, path)
        return
    code = {'foreign': 'int something(void) { return 1; }',
            'no version': 'const char * get_interface_description(void) { return "core"; }',
            'no description': 'const char * get_interface_version(void) { return "%s"; }' % version(),
            'empty description': 'const char * get_interface_description(void) { return ""; } const char * get_interface_version(void) { return "%s"; }' % version(),
            'other version': 'const char * get_interface_description(void) { return "core"; } const char * get_interface_version(void) { return "0.0.1"; }'}[state]
    source = os.path.join(folder, 'stub.c')
    open(source, 'w').write(code)
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-o', path, source])


def version():
    core = C.CDLL(os.path.join(build.ensure(), 'pyclustering/core/64-bit/linux/libpyclustering.so'))
    core.get_interface_version.restype = C.c_char_p
    return core.get_interface_version().decode()


def run_state(case):
    state, first = case
    root = build.ensure()
    folder = tempfile.mkdtemp(prefix='mc-c26-')
    try:
        shutil.copytree(os.path.join(root, 'pyclustering'), os.path.join(folder, 'pyclustering'), ignore=shutil.ignore_patterns('64-bit', '32-bit', '__pycache__'))
        library(folder, state)
        done = subprocess.run([sys.executable, '-c', SCRIPT, folder, first, 'x'], capture_output=True, text=True, timeout=240)
        require(done.returncode == 0 and done.stdout.strip(), lambda: 'the process ended with %r' % done.returncode)
        out = json.loads(done.stdout.strip().splitlines()[-1])
        require('error' not in out, lambda: 'with the library in the state "%s": %s' % (state, out['error']))
        if 'workable' in out:
            require(out['workable'] == [state == 'good'] * 2, lambda: 'workable() is %r' % out['workable'])
        if 'first' in out:
            require(out['first'] == (state == 'good'), lambda: 'the first workable() is %r' % out['first'])
        for name, (a, b) in out['results'].items():
            if state == 'good' and name in ('gmeans', 'som', 'pcnn'):
                continue
            require(a == b, lambda: '%s with the library in the state "%s" gives %r, the Python implementation %r' % (name, state, a, b))
        require(len(out['results']) >= 22, 'some results are missing')
    finally:
        shutil.rmtree(folder)
    return state, first


def families(tier):
    deep = tier == 'thorough'

    def nested():
        # shapes: the values are told apart by their position
        for kind in ('list', 'tuple', 'tuple rows'):
            for name in list(TYPES) + ['auto real', 'auto whole']:
                pool = VALUES.get(name, REALS if name == 'auto real' else VALUES['long'])
                for k in range(0, 5):
                    for lengths in itertools.product(range(4 if k < 4 else 3), repeat=k):
                        cycle = itertools.cycle(pool)
                        yield kind, name, [[next(cycle) for _ in range(m)] for m in lengths]
                for row in itertools.product(pool, repeat=2):
                    yield kind, name, [list(row)]
                    yield kind, name, [[row[0]], [row[1], row[0]], []]
        for name in ('double', 'auto real'):
            for rows in itertools.product([(), (1.5,), (0.0, 1e308), (-0.0, float('nan'), 5e-324)], repeat=3):
                yield 'rows', name, rows

    def flat():
        for kind in ('list', 'tuple'):
            for name in list(TYPES) + ['auto real', 'auto whole']:
                pool = VALUES.get(name, REALS if name == 'auto real' else VALUES['long'])
                for k in range(0, 4):
                    for row in itertools.product(pool, repeat=k):
                        yield kind, name, row

    def arrays():
        whole = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
        for dtype in whole + ['float16', 'float32', 'float64', 'longdouble', 'bool']:
            for dims in itertools.product(range(0, 4), repeat=2):
                for form in ('plain', 'fortran', 'view', 'reverse', 'flat', 'readonly', 'matrix'):
                    yield dtype, dims, form, 'double'
                    if form != 'matrix' and dtype not in ('uint64', 'bool'):
                        yield dtype, dims, form, 'auto'
                    if dtype in whole[:4] and form != 'matrix':
                        yield dtype, dims, form, 'long'
                    if dtype in whole[4:] and form != 'matrix':
                        yield dtype, dims, form, 'size_t'

    def deeper():
        def trees(depth):
            if depth == 0:
                yield 1.5
                return
            inner = list(trees(depth - 1))[:8]
            for k in range(0, 3):
                for t in itertools.product(inner, repeat=k):
                    yield list(t)
        for depth in (1, 2, 3, 4):
            yield from trees(depth)

    def texts():
        for k in range(0, 4):
            for t in itertools.product('ab \u00e9\u4e2d', repeat=k):
                yield ''.join(t)
        yield 'long text ' * 50

    def core():
        for n in (0, 1, 2, 5, 100):
            for x in REALS:
                for k in (0, 1, 2 ** 64 - 1):
                    yield n, x, k

    def histories():
        ops = [n + w for n in 'ab' for w in 'ptdxe']
        for k in range(1, 6 if deep else 5):
            yield from itertools.product(ops, repeat=k)

    def states():
        for state in STATES:
            for first in ('workable', 'get', 'twice', 'algorithm'):
                yield state, first

    return [Family('states', states, run_state, hang=400), Family('nested', nested, run_nested), Family('flat', flat, run_flat),
            Family('arrays', arrays, run_array), Family('deep', deeper, run_deep), Family('text', texts, run_text), Family('core', core, run_core),
            Family('histories', histories, run_history)]
