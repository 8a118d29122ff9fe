"""Builds scikit-multiflow's native modules from /repo's current working tree, in a scratch folder.

Nothing is written in /repo or /opt/vp.  The Python modules are imported straight from /repo/src;
every Cython module (*.pyx) and the C++ nearest-neighbour module is translated and compiled from
/repo's current sources into the scratch folder, and an import hook makes `import skmultiflow...`
take exactly those binaries (never a .so lying in /repo).
"""
import importlib.abc
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = '/repo'
SRC = os.path.join(REPO, 'src')
PY = '/opt/venv/bin/python'
NATIVE_SUFFIXES = ('.pyx', '.pxd', '.pxi', '.cpp', '.cc', '.h', '.hpp')
CPP_EXT = ('skmultiflow.lazy.libNearestNeighbor',
           'skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp')


class BuildError(Exception):
    pass


def _flags():
    import numpy
    return ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(),
            '-fPIC', '-shared', '-w', '-fno-strict-aliasing', '-fwrapv']


def _copy_native_sources(dst):
    """Copies native sources and package markers (cimport needs __init__.py)."""
    pyx = []
    for d, dirs, files in os.walk(os.path.join(SRC, 'skmultiflow')):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        rel = os.path.relpath(d, SRC)
        for f in files:
            if f.endswith(NATIVE_SUFFIXES):
                os.makedirs(os.path.join(dst, rel), exist_ok=True)
                shutil.copy(os.path.join(d, f), os.path.join(dst, rel, f))
                if f.endswith('.pyx'):
                    pyx.append(os.path.join(rel, f[:-4]))
        if '__init__.py' in files:
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            open(os.path.join(dst, rel, '__init__.py'), 'w').close()
    return pyx


def build(dst, sanitize_cpp=(), sanitize_cython=()):
    """Builds all native modules below dst; returns {module name: path of its .so}."""
    ext = sysconfig.get_config_var('EXT_SUFFIX')
    base = ' '.join(_flags())
    jobs = []
    mods = {}
    for m in _copy_native_sources(dst):
        opt = '-O1 -g' if sanitize_cython else '-O2'
        script = '%s -m cython -3 %s.pyx -o %s.c && gcc %s %s %s %s.c -o %s%s -lm' % (
            PY, m, m, opt, ' '.join(sanitize_cython), base, m, m, ext)
        jobs.append((m, script))
        mods[m.replace('/', '.')] = os.path.join(dst, m + ext)
    name, src = CPP_EXT
    m = name.replace('.', '/')
    opt = '-O1 -g -fno-omit-frame-pointer' if sanitize_cpp else '-O2'
    jobs.append((m, 'g++ %s %s %s %s -o %s%s -lm' % (opt, ' '.join(sanitize_cpp), base, src, m,
                                                     ext)))
    mods[name] = os.path.join(dst, m + ext)
    procs = [(m, subprocess.Popen(['bash', '-c', s], cwd=dst, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)) for m, s in jobs]
    bad = []
    for m, p in procs:
        out, _ = p.communicate(timeout=600)
        if p.returncode != 0:
            bad.append('%s: %s' % (m, out.decode('utf-8', 'replace')[-2000:]))
    if bad:
        raise BuildError('\n'.join(bad))
    return mods


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, fullname, path, target=None):
        if fullname in self.mods:
            return importlib.util.spec_from_file_location(fullname, self.mods[fullname])
        return None


def activate(mods):
    """Makes skmultiflow importable from /repo/src with the given native modules."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    sys.meta_path.insert(0, _Finder(dict(mods)))


def scratch():
    return tempfile.mkdtemp(prefix='vpskmf', dir='/tmp')


def cleanup(d):
    if d and d.startswith('/tmp/vpskmf'):
        shutil.rmtree(d, ignore_errors=True)
