"""Load the code under test from /repo's working tree.

symbolic(): pure Python sources as they are, .pyx sources translated by decy,
            numpy replaced by npshim inside the package's modules.
concrete(ext_dir): pure Python sources, real numpy, and the extension modules
            that build_ext() compiled from the current .pyx files.
In both modes numpy.random's functions are replaced by stubs that take their
values from the engine's context (arbitrary values when symbolic, the
counterexample's values when replaying)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types

# networkx would pick up the solver environment's scipy, which does not belong
# to the project's own environment and does not fit its numpy.
sys.modules.setdefault('scipy', None)

REPO = os.environ.get('SYMQ_REPO', '/repo')
PKG = os.path.join(REPO, 'queueing_tool')
HERE = os.path.dirname(os.path.abspath(__file__))

encoded_functions = {}      # module -> functions translated from .pyx
MODE = None


def pyx_modules():
    out = {}
    for d, _, fs in os.walk(PKG):
        for f in fs:
            if f.endswith('.pyx'):
                base = os.path.join(d, f)
                if os.path.exists(base[:-4] + '.py'):
                    continue
                out[os.path.relpath(base[:-4], REPO).replace(os.sep, '.')] = base
    return out


class PyxFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.mods = pyx_modules()

    def find_spec(self, name, path, target=None):
        if name in self.mods:
            return importlib.machinery.ModuleSpec(name, self, origin=self.mods[name])
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        import decy
        name = module.__name__
        src, fns = decy.translate(self.mods[name])
        encoded_functions[name] = fns
        module.__file__ = self.mods[name]
        exec(compile(src, '<decy:%s>' % name, 'exec'), module.__dict__)


class ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, ext_dir):
        self.ext_dir = ext_dir
        self.mods = pyx_modules()

    def find_spec(self, name, path, target=None):
        if name not in self.mods:
            return None
        base = os.path.join(self.ext_dir, *name.split('.'))
        d, leaf = os.path.split(base)
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.split('.')[0] == leaf and f.endswith('.so'):
                    return importlib.util.spec_from_file_location(name, os.path.join(d, f))
        raise ImportError('extension %s was not built' % name)


def _patch_metadata():
    import importlib.metadata as md
    orig = md.version

    def version(n):
        try:
            return orig(n)
        except md.PackageNotFoundError:
            if n.replace('-', '_') == 'queueing_tool':
                return '0'
            raise
    md.version = version


def _prepare():
    sys.dont_write_bytecode = True
    for p in list(sys.path):
        if os.path.abspath(p or '.') == REPO:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    import mplshim
    mplshim.install()
    _patch_metadata()
    import networkx as nx
    import npshim

    def spring_layout(g, *a, **k):
        import numpy as np
        return {v: np.zeros(2) for v in g}
    nx.spring_layout = spring_layout
    nx.drawing.layout.spring_layout = spring_layout
    npshim.patch_random()


def symbolic():
    global MODE
    MODE = 'symbolic'
    _prepare()
    sys.meta_path.insert(0, PyxFinder())
    import queueing_tool
    assert os.path.realpath(queueing_tool.__file__).startswith(os.path.realpath(REPO) + '/')
    shim_modules()
    return queueing_tool


def shim_modules():
    import array as _array
    import math as _math
    import random as _random
    import numpy as np
    import npshim
    import cyrt
    for name, mod in list(sys.modules.items()):
        if not (name == 'queueing_tool' or name.startswith('queueing_tool.')) or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if v is np:
                setattr(mod, k, npshim.SHIM)
            elif v is np.random:
                setattr(mod, k, npshim.SHIM.random)
            elif v is _array:
                setattr(mod, k, cyrt.array_module)
            elif v is _array.array:
                setattr(mod, k, cyrt.CArr)
            elif callable(v) and not isinstance(v, type) and getattr(v, '__name__', None) in vars(npshim.NumpyShim) \
                    and getattr(np, v.__name__, None) is v:
                setattr(mod, k, getattr(npshim.SHIM, v.__name__))


def concrete(ext_dir):
    global MODE
    MODE = 'concrete'
    _prepare()
    sys.meta_path.insert(0, ExtFinder(ext_dir))
    import queueing_tool
    assert os.path.realpath(queueing_tool.__file__).startswith(os.path.realpath(REPO) + '/')
    return queueing_tool


BUILD = r'''
import sys, os
from setuptools import setup, Extension
from Cython.Build import cythonize
mods = eval(sys.argv.pop(1)); out = sys.argv.pop(1); checked = sys.argv.pop(1) == '1'
exts = [Extension(n, [p], extra_compile_args=['-O1', '-w', '-std=c99']) for n, p in mods]
d = {'language_level': 2}
setup(name='x', ext_modules=cythonize(exts, quiet=True, nthreads=0, language_level=None),
      script_args=['-q', 'build_ext', '--build-lib', out, '--build-temp', out + '/tmp'])
'''


def build_ext(dest, checked=False):
    """Compile the current .pyx files into dest (never inside /repo)."""
    mods = []
    for name, p in pyx_modules().items():
        with open(p) as f:
            src = f.read()
        if 'openmp' in src:
            continue                     # not part of the package's build
        d = os.path.join(dest, 'src', *name.split('.')[:-1])
        os.makedirs(d, exist_ok=True)
        q = os.path.join(d, name.split('.')[-1] + '.pyx')
        if checked:
            src = src.replace('boundscheck(False)', 'boundscheck(True)')
        with open(q, 'w') as f:
            f.write(src)
        mods.append((name, q))
    with open(os.path.join(dest, 'b.py'), 'w') as f:
        f.write(BUILD)
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    r = subprocess.run([sys.executable, 'b.py', repr(mods), os.path.join(dest, 'lib'), str(int(checked))],
                       cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode:
        raise RuntimeError('extension build failed:\n' + r.stdout.decode()[-3000:])
    return os.path.join(dest, 'lib')
