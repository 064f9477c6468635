"""Builds repast4py from /repo's working tree, outside /repo.

The tree is copied to /verif/.build/<hash of the sources> and built there with the
repository's own setup.py (same compiler settings as /opt/vp/env.sh, own ccache directory).
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get('R4PY_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get('R4PY_BUILD', os.path.join(ROOT, '.build'))
VENV_PY = '/opt/venv/bin/python'

_PAR_SETUP = r'''
import os, sys
from concurrent.futures import ThreadPoolExecutor
import setuptools
try:
    from distutils.compilers.C.base import Compiler as Base
except Exception:
    from distutils.ccompiler import CCompiler as Base
def compile(self, sources, output_dir=None, macros=None, include_dirs=None, debug=0,
            extra_preargs=None, extra_postargs=None, depends=None):
    macros, objects, extra_postargs, pp_opts, build = self._setup_compile(
        output_dir, macros, include_dirs, sources, depends, extra_postargs)
    cc_args = self._get_cc_args(pp_opts, debug, extra_preargs)
    post = list(extra_postargs or []) + os.environ.get('R4PY_POST', '').split()
    def one(obj):
        if obj in build:
            src, ext = build[obj]
            self._compile(obj, src, ext, cc_args, post, pp_opts)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, objects))
    return objects
Base.compile = compile
import runpy
sys.argv = ['setup.py', 'build_ext', '--inplace', '--force', '-j', '2']
sys.path.insert(0, os.getcwd())
runpy.run_path('setup.py', run_name='__main__')
'''


def env(extra=None):
    """The environment /opt/vp/env.sh sets, with this framework's own cache directory."""
    e = dict(os.environ)
    e.update({
        'HOME': '/root', 'PYTHONDONTWRITEBYTECODE': '1', 'PIP_NO_INDEX': '1', 'PYTHONHASHSEED': '0',
        'CC': 'mpicxx.openmpi', 'CXX': 'mpicxx.openmpi', 'OMPI_CXX': 'ccache g++',
        'CCACHE_DIR': os.path.join(BUILD, 'ccache'),
        'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
        'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_osc': '^ucx',
        'OMPI_MCA_plm_rsh_agent': '/bin/false', 'OMPI_MCA_rmaps_base_oversubscribe': '1',
        'OMPI_MCA_mpi_yield_when_idle': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
        'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'RDMAV_FORK_SAFE': '1',
        'HWLOC_COMPONENTS': '-gl', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1',
    })
    if extra:
        e.update(extra)
    return e


def _files():
    src = os.path.join(REPO, 'src', 'repast4py')
    out = [os.path.join(REPO, f) for f in ('setup.py', 'setup.cfg', 'pyproject.toml', 'README.md')]
    for d, ds, fs in os.walk(src):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        out += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(('.so', '.pyc', '.o'))]
    return [f for f in out if os.path.exists(f)]


def tree_hash(variant=''):
    h = hashlib.sha256(variant.encode())
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, 'rb') as fin:
            h.update(hashlib.sha256(fin.read()).digest())
    return h.hexdigest()[:20]


def ensure(variant='', log=sys.stderr):
    """Builds if needed; returns the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(variant)
    dest = os.path.join(BUILD, key)
    done = os.path.join(dest, 'DONE')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            os.utime(dest)
            return os.path.join(dest, 'src')
        # keep the most recent few builds only
        olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)
                       if os.path.isdir(os.path.join(BUILD, d)) and len(d) == 20), key=os.path.getmtime)
        for d in olds[:-5]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        for f in _files():
            t = os.path.join(dest, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy(f, t)
        with open(os.path.join(dest, '_par_setup.py'), 'w') as fout:
            fout.write(_PAR_SETUP)
        t0 = time.time()
        extra = {'R4PY_POST': '-O1 -g0'}
        if variant == 'asan':
            extra = {'R4PY_POST': '-fsanitize=address -fno-omit-frame-pointer -O1 -g1'}
        r = subprocess.run([VENV_PY, '_par_setup.py'], cwd=dest, env=env(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-8000:], file=log)
            raise SystemExit('build of %s failed' % REPO)
        with open(done, 'w') as fout:
            fout.write('%.1f s\n' % (time.time() - t0))
        return os.path.join(dest, 'src')


if __name__ == '__main__':
    t = time.time()
    print(ensure(sys.argv[1] if len(sys.argv) > 1 else ''), '%.1f s' % (time.time() - t))
