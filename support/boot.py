"""Makes the code of /repo's current working tree importable: Python sources directly, the Cython kernels rebuilt from
the current .pyx into a cache directory keyed by content (never the in-tree build, which may be stale)."""
import fcntl, glob, hashlib, importlib.util, os, shutil, subprocess, sys, tempfile, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
PYX = os.path.join(REPO, 'brainstorm', 'handlers', '_cpuop.pyx')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class BuildError(Exception):
    pass


def build_ext():
    src = open(PYX, 'rb').read()
    key = hashlib.sha256(src + sys.version.encode()).hexdigest()[:24]
    base = CACHE
    try:
        os.makedirs(base, exist_ok=True)
        open(os.path.join(base, '.w'), 'w').close()
    except OSError:
        base = tempfile.mkdtemp(prefix='verif_ext_')
    d = os.path.join(base, 'cpuop_' + key)
    so = glob.glob(os.path.join(d, '_cpuop*.so'))
    if so:
        return so[0]
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        so = glob.glob(os.path.join(d, '_cpuop*.so'))
        if so:
            return so[0]
        for old in glob.glob(os.path.join(base, 'cpuop_*')):
            shutil.rmtree(old, ignore_errors=True)
        t = tempfile.mkdtemp(prefix='b_', dir=base)
        try:
            pk = os.path.join(t, 'brainstorm', 'handlers'); os.makedirs(pk)
            for p in (os.path.join(t, 'brainstorm'), pk):
                open(os.path.join(p, '__init__.py'), 'w').close()
            shutil.copy(PYX, pk)
            for x in glob.glob(os.path.join(REPO, 'brainstorm', 'handlers', '*.pxd')):
                shutil.copy(x, pk)
            open(os.path.join(t, 'setup.py'), 'w').write(
                'from setuptools import setup, Extension\nfrom Cython.Build import cythonize\nimport numpy\n'
                'setup(ext_modules=cythonize([Extension("brainstorm.handlers._cpuop",["brainstorm/handlers/_cpuop.pyx"],'
                'include_dirs=[numpy.get_include()],extra_compile_args=["-w"])]))\n')
            r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONPATH=''))
            so = glob.glob(os.path.join(pk, '_cpuop*.so'))
            if r.returncode or not so:
                raise BuildError('the Cython kernels do not build:\n' + r.stdout[-3000:])
            os.makedirs(d, exist_ok=True)
            shutil.copy(so[0], d)
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return glob.glob(os.path.join(d, '_cpuop*.so'))[0]


class Finder(object):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == 'brainstorm.handlers._cpuop':
            return importlib.util.spec_from_file_location(name, self.so)


def boot(tools=False):
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [VERIF, REPO]
    if tools:
        sys.path.append(TOOLS)
    sys.meta_path.insert(0, Finder(build_ext()))
