"""Access to the real code of /repo's current working tree, from a scratch copy."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VF_REPO', '/repo')
PKG = 'beam_telescope_analysis'
_root = None


def scratch_dir():
    d = os.environ.get('VF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='vf_')
        os.environ['VF_SCRATCH'] = d
        import atexit
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def path(rel):
    return os.path.join(REPO, rel)


def text(rel):
    with open(path(rel), encoding='utf-8') as f:
        return f.read()


def root(build=False):
    """Directory with a copy of the package as it is now; build: with the extension compiled from the current sources."""
    global _root
    if _root is None:
        d = os.path.join(scratch_dir(), 'pkg')
        os.makedirs(d, exist_ok=True)
        shutil.copytree(path(PKG), os.path.join(d, PKG), ignore=shutil.ignore_patterns('fixtures', '__pycache__', '*.so', 'analysis_functions.cpp'),
                        dirs_exist_ok=True)
        sos = [f for f in os.listdir(path(PKG)) if f.startswith('analysis_functions') and f.endswith('.so')]
        if build or not sos:
            build_ext(d)
        else:
            for f in sos:
                shutil.copy(path(os.path.join(PKG, f)), os.path.join(d, PKG, f))
        _root = d
        sys.path.insert(0, d)
    return _root


def build_ext(d):
    code = r'''
import sys, os
from setuptools import setup, Extension
from Cython.Build import cythonize
import numpy as np
setup(name="x", script_args=["-q", "build_ext", "--inplace"], include_dirs=[np.get_include()],
      ext_modules=cythonize([Extension("beam_telescope_analysis.analysis_functions", ["beam_telescope_analysis/cpp/analysis_functions.pyx"],
                                       extra_compile_args=["-O1", "-w"])], quiet=True), packages=["beam_telescope_analysis"])
'''
    p = subprocess.run([sys.executable, '-c', code], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise RuntimeError('the extension does not build: ' + p.stdout.decode(errors='replace')[-2000:])


def mod(name, build=False):
    root(build)
    return importlib.import_module(PKG + '.' + name if name else PKG)
