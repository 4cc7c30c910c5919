"""
Scratch build of the code under test.

The working tree of /repo (Python package + C++ core sources) is copied to a scratch folder keyed by the hash of its
content, and the C++ core is compiled there. Nothing is written inside /repo. The only thing linked in addition to the
repository's own objects is shim/envshim.cpp, which takes over the two sources of environment nondeterminism of the core
(std::random_device and std::thread::hardware_concurrency).
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get('MC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCRATCH = os.environ.get('MC_SCRATCH', os.path.join(tempfile.gettempdir(), 'pyclustering-mc-%d' % os.getuid()))
KEEP = 4


class BuildError(Exception):
    pass


def _files():
    out = []
    for base, exts, skip in (('pyclustering', ('.py',), ('tests', 'examples', '__pycache__')),
                             ('ccore/src', None, ()), ('ccore/include', None, ())):
        root = os.path.join(REPO, base)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                if exts is None or f.endswith(exts):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    out.append('ccore/ccore.mk')
    return sorted(out)


def _key(files):
    h = hashlib.sha256()
    for f in files + [os.path.join(HERE, 'shim', 'envshim.cpp')]:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fd:
            h.update(fd.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _cxx():
    for c in ('g++-10', 'g++'):
        if shutil.which(c):
            return c
    raise BuildError('no C++ compiler')


def _compile(root):
    cxx = _cxx()
    env = dict(os.environ)
    env.pop('MAKEFLAGS', None)
    core = os.path.join(root, 'ccore')
    log = os.path.join(root, 'build.log')
    shim = os.path.join(root, 'envshim.o')
    extra = '' if cxx == 'g++-10' else ' -include limits -include cstdint'
    with open(log, 'wb') as out:
        def go(cmd):
            if subprocess.call(cmd, stdout=out, stderr=subprocess.STDOUT, env=env) != 0:
                out.flush()
                sys.stderr.write(open(log, errors='replace').read()[-4000:])
                raise BuildError('failed: ' + ' '.join(cmd))
        go([cxx, '-c', '-O1', '-fPIC', '-std=c++14', '-o', shim, os.path.join(HERE, 'shim', 'envshim.cpp')])
        go(['make', '-C', core, '-f', 'ccore.mk', 'mkdirs', 'PLATFORM=64-bit'])
        go(['make', '-C', core, '-j%d' % (os.cpu_count() or 4), '-f', 'ccore.mk', 'ccore', 'PLATFORM=64-bit',
            'DEFINITION_FLAGS=-DEXPORT_PYCLUSTERING_INTERFACE',
            'CC=%s -c -D_GLIBCXX_ASSERTIONS%s' % (cxx, extra), 'LD=%s %s' % (cxx, shim)])
    so = os.path.join(root, 'pyclustering/core/64-bit/linux/libpyclustering.so')
    if not os.path.exists(so):
        raise BuildError('the core was not produced: ' + so)


def ensure():
    """Returns the root of a scratch copy of /repo's current working tree with a freshly compiled core."""
    os.makedirs(SCRATCH, exist_ok=True)
    files = _files()
    key = _key(files)
    root = os.path.join(SCRATCH, key)
    with open(os.path.join(SCRATCH, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(root, 'done')):
            os.utime(root)
            return root
        if os.path.exists(root):
            shutil.rmtree(root)
        for old in sorted((d for d in os.scandir(SCRATCH) if d.is_dir()), key=lambda d: -d.stat().st_mtime)[KEEP - 1:]:
            if time.time() - old.stat().st_mtime > 3600:
                shutil.rmtree(old.path, ignore_errors=True)
        for f in files:
            dst = os.path.join(root, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        os.makedirs(os.path.join(root, 'pyclustering/core/64-bit/linux'), exist_ok=True)
        _compile(root)
        open(os.path.join(root, 'done'), 'w').close()
        return root


def harness(root, name, flags=(), link=True, program=False):
    """Compiles mc/cpp/<name>.cpp against the sources in root; returns the path of the shared library (or program)."""
    src = os.path.join(HERE, 'cpp', name + '.cpp')
    h = hashlib.sha256(repr(tuple(flags)).encode())
    for f in sorted(os.listdir(os.path.join(HERE, 'cpp'))):
        with open(os.path.join(HERE, 'cpp', f), 'rb') as fd:
            h.update(fd.read())
    folder = os.path.join(root, 'harness')
    out = os.path.join(folder, '%s-%s%s' % (name, h.hexdigest()[:12], '' if program else '.so'))
    with open(os.path.join(SCRATCH, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            os.makedirs(folder, exist_ok=True)
            cxx = _cxx()
            lib = os.path.join(root, 'pyclustering/core/64-bit/linux')
            cmd = [cxx, '-std=c++14', '-O1', '-pthread', '-D_GLIBCXX_ASSERTIONS']
            cmd += [] if cxx == 'g++-10' else ['-include', 'limits', '-include', 'cstdint']
            cmd += [] if program else ['-shared', '-fPIC']
            cmd += ['-I', os.path.join(root, 'ccore/include'), '-I', os.path.join(HERE, 'cpp')] + list(flags) + [src, '-o', out + '.tmp']
            cmd += ['-L', lib, '-lpyclustering', '-Wl,-rpath,' + lib] if link else []
            p = subprocess.run([c.replace('@ROOT@', root) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                sys.stderr.write(p.stdout[-4000:])
                raise BuildError('failed: ' + ' '.join(cmd))
            os.rename(out + '.tmp', out)
    return out


def scheduled(root, name, sources):
    """Compiles mc/cpp/<name>.cpp and sources of the core with instrumented memory accesses, links them with mc/cpp/sched.cpp."""
    h = hashlib.sha256(repr(sources).encode())
    for f in ('sched.hpp', 'sched.cpp', name + '.cpp'):
        with open(os.path.join(HERE, 'cpp', f), 'rb') as fd:
            h.update(fd.read())
    folder = os.path.join(root, 'harness')
    out = os.path.join(folder, '%s-%s' % (name, h.hexdigest()[:12]))
    with open(os.path.join(SCRATCH, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            work = out + '.d'
            os.makedirs(work, exist_ok=True)
            cxx = _cxx()
            common = [cxx, '-std=c++14', '-O1', '-c', '-D_GLIBCXX_ASSERTIONS', '-I', os.path.join(root, 'ccore/include'), '-I', os.path.join(HERE, 'cpp')]
            common += [] if cxx == 'g++-10' else ['-include', 'limits', '-include', 'cstdint']
            jobs = [common + [os.path.join(HERE, 'cpp/sched.cpp'), '-o', os.path.join(work, 'sched.o')]]
            for i, src in enumerate([os.path.join(HERE, 'cpp', name + '.cpp')] + [os.path.join(root, 'ccore/src', f) for f in sources]):
                jobs.append(common + ['-fsanitize=thread', src, '-o', os.path.join(work, '%d.o' % i)])
            objects = [j[-1] for j in jobs]
            running = []

            def reap():
                p, cmd = running.pop(0)
                text = p.communicate()[0]
                if p.returncode:
                    sys.stderr.write(text[-4000:])
                    raise BuildError('failed: ' + ' '.join(cmd))
            for cmd in jobs:
                if len(running) >= (os.cpu_count() or 4):
                    reap()
                running.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd))
            while running:
                reap()
            cmd = [cxx, '-rdynamic', '-pthread', '-o', out + '.tmp'] + objects + ['-ldl']
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                sys.stderr.write(p.stdout[-4000:])
                raise BuildError('failed: ' + ' '.join(cmd))
            os.rename(out + '.tmp', out)
            shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == '__main__':
    t = time.time()
    print(ensure(), round(time.time() - t, 1))
