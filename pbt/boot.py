"""Make the code under /repo importable: brainstorm from the working tree, its
compiled extension freshly built (or taken from a cache keyed by its source),
Hypothesis from the tooling environment.  Nothing is written in /repo."""
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class HarnessError(Exception):
    """The machinery (not the code under test) cannot go on."""


def _pyx_files():
    found = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'brainstorm')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.pyx', '.pxd')):
                found.append(os.path.join(root, f))
    return sorted(found)


def _inplace_is_current():
    """Same rule as the project's build script: a stamp over the sources."""
    try:
        with open(os.path.join(REPO, 'build', 'cpuop.sha256')) as f:
            stamp = f.read().split()[0]
    except (OSError, IndexError):
        return False
    h = hashlib.sha256()
    with open(os.path.join(REPO, 'setup.py'), 'rb') as f:
        h.update(f.read())
    names = sorted(os.path.relpath(p, REPO) for p in _pyx_files())
    for n in names:
        with open(os.path.join(REPO, n), 'rb') as f:
            h.update(f.read())
    if h.hexdigest() != stamp:
        return False
    return bool(glob.glob(os.path.join(REPO, 'brainstorm/handlers/_cpuop.*.so')))


def build_extensions():
    """Return {module name: path of shared object} for every .pyx module."""
    import numpy
    h = hashlib.sha256()
    files = _pyx_files()
    for p in files:
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    key = h.hexdigest()[:24]
    out_dir = os.path.join(CACHE, 'ext', key)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    result = {}
    for p in files:
        if not p.endswith('.pyx'):
            continue
        rel = os.path.relpath(p, REPO)[:-4]
        mod = rel.replace(os.sep, '.')
        so = os.path.join(out_dir, mod + suffix)
        result[mod] = so
        if os.path.exists(so):
            continue
        os.makedirs(out_dir, exist_ok=True)
        tmp = os.path.join(out_dir, mod + '.%d' % os.getpid())
        cython = os.path.join(os.path.dirname(sys.executable), 'cython')
        subprocess.run([cython, '-2', '--module-name', mod, '-I', REPO, p,
                        '-o', tmp + '.c'], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        subprocess.run(['gcc', '-w', '-O1', '-fPIC', '-shared', '-fwrapv',
                        '-I' + numpy.get_include(),
                        '-I' + sysconfig.get_paths()['include'],
                        tmp + '.c', '-o', tmp + '.so'], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        os.rename(tmp + '.so', so)
        os.remove(tmp + '.c')
    return result


class _ExtFinder(object):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        if name not in self.table:
            return None
        import importlib.machinery
        import importlib.util
        loader = importlib.machinery.ExtensionFileLoader(name,
                                                         self.table[name])
        return importlib.util.spec_from_file_location(
            name, self.table[name], loader=loader)


def boot():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if 'brainstorm' in sys.modules:
        return
    sys.path.insert(0, REPO)
    if TOOLS_SITE not in sys.path:
        sys.path.append(TOOLS_SITE)
    if not _inplace_is_current():
        try:
            table = build_extensions()
        except (OSError, subprocess.CalledProcessError) as e:
            raise HarnessError('cannot build the extension: %s %s' % (
                e, getattr(e, 'stderr', b'')))
        sys.meta_path.insert(0, _ExtFinder(table))
    import brainstorm
    where = os.path.abspath(brainstorm.__file__)
    if not where.startswith(os.path.join(os.path.abspath(REPO), '')):
        raise HarnessError('imported brainstorm from ' + where)
