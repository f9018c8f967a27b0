"""C30: the data set scripts convert the raw archives without loss."""
import contextlib
import fcntl
import gzip
import io
import os
import pickle
import runpy
import shutil
import signal
import tarfile
import tempfile
import urllib.request
import zipfile

import h5py
import numpy as np
from hypothesis import strategies as st

from pbt import core
from pbt.boot import REPO
from pbt.core import ensure

ID = 'C30'
QUICK, THOROUGH = 32, 400
THOROUGH_S = 1500
RULE = ('The scripts of /repo/data are run on generated archives of the '
        'published format (random images, labels, texts over random '
        'alphabets, sizes that the format allows), with the archive present '
        'or only available for download, in a scratch directory given or '
        'not given by the environment. What they store is recorded and '
        'compared with the contents of the archive. Non-trivial: every case '
        '(each has at least two classes or characters).')
ASSUMPTIONS = ['the download function and h5py.File are replaced by '
               'stand-ins, the compression of the written file is h5py\'s',
               'the character after the last one of the text is not '
               'prescribed']

KINDS = ['mnist', 'hutter', 'hutter'] * 7 + ['cifar10', 'cifar100']
URL = {'mnist': ('http://deeplearning.net/data/mnist/', 'mnist.pkl.gz',
                 'MNIST.hdf5'),
       'hutter': ('http://mattmahoney.net/dc/', 'enwik8.zip',
                  'HutterPrize.hdf5'),
       'cifar10': ('http://www.cs.toronto.edu/~kriz/',
                   'cifar-10-binary.tar.gz', 'CIFAR-10.hdf5'),
       'cifar100': ('http://www.cs.toronto.edu/~kriz/',
                    'cifar-100-binary.tar.gz', 'CIFAR-100.hdf5')}


def explicit(tier):
    base = {'seed': 5, 'have': True, 'env': True, 'alphabet': 96, 'extra': 3,
            'probes': 40, 'stale': False}
    return [dict(base, kind=k) for k in ('cifar10', 'mnist', 'cifar100',
                                         'hutter')]


@st.composite
def case(draw):
    return {'kind': draw(st.sampled_from(KINDS)),
            'seed': draw(st.integers(0, 9999)),
            'have': draw(st.booleans()), 'env': draw(st.booleans()),
            'stale': draw(st.booleans()), 'slash': draw(st.integers(0, 1)),
            'alphabet': draw(st.sampled_from([2, 3, 27, 100, 205, 255, 256])),
            'extra': draw(st.integers(1, 12)),
            'probes': draw(st.integers(20, 60))}


def strategy():
    return case()


# ------------------------------------------------------------------ stand-ins

class Attrs(dict):
    def create(self, name, data, *a, **k):
        self[name] = data

    modify = create


class Group(object):
    """Records what would be written."""

    def __init__(self):
        self.items_, self.attrs = {}, Attrs()

    def create_group(self, name, **_):
        ensure(self._find(name) is None, 'group %s is created twice', name)
        return self.require_group(name)

    def require_group(self, name):
        g = self
        for part in name.strip('/').split('/'):
            g = g.items_.setdefault(part, Group())
        return g

    def create_dataset(self, name, shape=None, dtype=None, data=None, **_):
        ensure(self._find(name) is None, '%s is stored twice', name)
        if data is None:
            data = np.zeros(shape, dtype or 'f4')
        elif dtype is not None:
            data = np.asarray(data, dtype)
        if shape is not None:
            data = np.asarray(data).reshape(shape)
        path, _, last = name.strip('/').rpartition('/')
        g = self.require_group(path) if path else self
        g.items_[last] = np.array(data)  # later changes do not count
        return g.items_[last]

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def _find(self, name):
        g = self
        for part in name.strip('/').split('/'):
            if not isinstance(g, Group) or part not in g.items_:
                return None
            g = g.items_[part]
        return g

    def __getitem__(self, name):
        g = self._find(name)
        if g is None:
            raise KeyError(name)
        return g

    def __contains__(self, name):
        return self._find(name) is not None


class File(Group):
    made = []

    def __init__(self, name, mode='a', **_):
        Group.__init__(self)
        self.filename, self.mode, self.closed = str(name), mode, False
        File.made.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def flush(self):
        pass

    def close(self):
        self.closed = True


@contextlib.contextmanager
def patched(pairs):
    old = [(o, n, getattr(o, n)) for o, n, _ in pairs]
    try:
        for o, n, v in pairs:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


def run_script(spec, archive, tmp):
    """Run the script; archive(path) writes the raw archive."""
    base, raw, out = URL[spec['kind']]
    work = os.path.join(tmp, 'data dir')
    os.mkdir(work)
    if spec['have']:
        archive(os.path.join(work, raw))
    if spec['stale']:
        with open(os.path.join(work, out), 'wb') as f:
            f.write(b'leftover')
    fetched = []

    def fetch(url, filename=None, *a, **k):
        fetched.append(url)
        archive(filename)
        return filename, {}

    def offline(*a, **k):
        raise IOError('no network')
    import six.moves.urllib.request as sr
    pairs = [(h5py, 'File', File), (urllib.request, 'urlretrieve', fetch),
             (sr, 'urlretrieve', fetch), (urllib.request, 'urlopen', offline)]
    File.made = []
    cwd = os.getcwd()
    env = os.environ.pop('BRAINSTORM_DATA_DIR', None)
    try:
        if spec['env']:
            os.environ['BRAINSTORM_DATA_DIR'] = work + '/' * spec.get(
                'slash', 0)
            os.mkdir(os.path.join(tmp, 'elsewhere'))
            os.chdir(os.path.join(tmp, 'elsewhere'))
        else:
            os.chdir(work)
        with patched(pairs), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(
                REPO, 'data', 'create_%s.py' % spec['kind']),
                run_name='__main__')
        if spec['have']:
            ensure(not fetched, 'downloads although the archive is there')
        else:
            ensure(fetched == [base + raw], 'downloads %s', fetched)
        ensure(len(File.made) == 1, '%d files written', len(File.made))
        f = File.made[0]
        File.made = []
        ensure(os.path.realpath(f.filename) == os.path.realpath(
            os.path.join(work, out)), 'writes %s, not %s in the data '
            'directory', f.filename, out)
        ensure(f.mode == 'w', 'opens the file with mode %r', f.mode)
        ensure(f.closed, 'the file is not closed')
    finally:
        os.chdir(cwd)
        os.environ.pop('BRAINSTORM_DATA_DIR', None)
        if env is not None:
            os.environ['BRAINSTORM_DATA_DIR'] = env
    ensure('Attributes' in str(f.attrs.get('description', '')),
           'no description is stored')
    return f


def part(f, name, shape):
    ensure(name in f, '%s is missing', name)
    d = f[name]
    ensure(isinstance(d, np.ndarray) and d.shape == shape,
           '%s has shape %s instead of %s', name, np.shape(d), shape)
    return d


def only(f, names):
    got = []

    def walk(g, path):
        for k, v in g.items_.items():
            if isinstance(v, Group):
                walk(v, path + k + '/')
            else:
                got.append(path + k)
    walk(f, '')
    ensure(sorted(got) == sorted(names), 'stores %s instead of %s',
           sorted(got), sorted(names))


def names(variants):
    return ['%s/%s/%s' % (v, p, d) for v, ps in variants.items() for p in ps
            for d in ('default', 'targets')]


SPLITS = {'normalized_split': ('training', 'validation', 'test'),
          'normalized_full': ('training', 'test')}


# ------------------------------------------------------------------- the sets

def check_mnist(spec, tmp):
    r = np.random.RandomState(spec['seed'])
    sizes = [50000, 10000, 10000]
    x = (r.randint(0, 256, (70000, 784)).astype(np.uint8) /
         np.float32(256)).astype(np.float32)
    y = r.randint(0, 10, 70000)
    raw, at = [], 0
    for n in sizes:
        raw.append((x[at:at + n], y[at:at + n]))
        at += n

    def archive(path):
        with gzip.open(path, 'wb', compresslevel=0) as g:
            pickle.dump(tuple(raw), g, protocol=2)
    f = run_script(spec, archive, tmp)
    only(f, names(SPLITS))
    want = {'normalized_split/training': (0, 50000),
            'normalized_split/validation': (50000, 60000),
            'normalized_split/test': (60000, 70000),
            'normalized_full/training': (0, 60000),
            'normalized_full/test': (60000, 70000)}
    for k, (a, b) in want.items():
        d = part(f, k + '/default', (1, b - a, 28, 28, 1))
        ensure(np.array_equal(d.reshape(b - a, 784), x[a:b]), '%s: images '
               'differ from the archive', k)
        t = part(f, k + '/targets', (1, b - a, 1))
        ensure(np.array_equal(t[0, :, 0], y[a:b]), '%s: labels differ from '
               'the archive', k)


def check_hutter(spec, tmp):
    r = np.random.RandomState(spec['seed'])
    n = 10 ** 7 + 10 ** 4 * spec['extra']
    chars = np.sort(r.permutation(256)[:spec['alphabet']]).astype(np.uint8)
    text = chars[r.randint(0, len(chars), n)]
    text[:len(chars)] = chars           # all of them occur
    seen = chars

    def archive(path):
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED) as z:
            z.writestr('readme', b'no')
            z.writestr('enwik8', text.tobytes())
    f = run_script(spec, archive, tmp)
    parts = ('training', 'validation', 'test')
    only(f, names({'split': parts}))
    uniq = np.asarray(f.attrs['unique'])
    ensure(np.array_equal(uniq, seen), 'unique characters are %s', uniq)
    cuts = {'training': (0, n - 10 ** 7),
            'validation': (n - 10 ** 7, n - 5 * 10 ** 6),
            'test': (n - 5 * 10 ** 6, n)}
    for p in parts:
        a, b = cuts[p]
        nb = (b - a) // 10 ** 4
        shape = (100, (b - a) // 100, 1)
        d = part(f, 'split/%s/default' % p, shape)
        t = part(f, 'split/%s/targets' % p, shape)

        def serial(v):
            # [t, batch * 100 + j] is step t of part `batch` of stream j
            return v.reshape(100, nb, 100).transpose(2, 1, 0).reshape(-1)
        ensure(np.array_equal(uniq[serial(d)], text[a:b]), '%s: continuing '
               'the sequences of one batch in the next does not give the '
               'text', p)
        nxt = text[a + 1:b + 1]
        ensure(np.array_equal(uniq[serial(t)[:len(nxt)]], nxt), '%s: the '
               'targets are not the next characters', p)


def check_cifar(spec, tmp):
    r = np.random.RandomState(spec['seed'])
    fine = spec['kind'] == 'cifar100'
    lab = 2 if fine else 1
    # differs by image, position and channel
    ds = r.randint(0, 256, (60000, 3072 + lab), dtype=np.uint8)
    ds[:, lab:lab + 1024] //= 2
    ds[:, 1000:1500] //= 3
    ds[40000:, :] = ds[40000:, :] // 2 + 20
    if fine:
        ds[:, 0] %= 20
        ds[:, 1] %= 100
        dirn, files = 'cifar-100-binary', [('train.bin', 0, 50000),
                                           ('test.bin', 50000, 60000)]
    else:
        ds[:, 0] %= 10
        dirn = 'cifar-10-batches-bin'
        files = [('data_batch_%d.bin' % (i + 1), 10000 * i, 10000 * (i + 1))
                 for i in range(5)] + [('test_batch.bin', 50000, 60000)]

    def archive(path):
        with tarfile.open(path, 'w') as t:
            order = list(files)
            r.shuffle(order)
            for nm, a, b in [('readme.html', 0, 0)] + order:
                buf = ds[a:b].tobytes()
                info = tarfile.TarInfo(dirn + '/' + nm)
                info.size = len(buf)
                t.addfile(info, io.BytesIO(buf))
    # these take gigabytes: one at a time
    with open(os.path.join(tempfile.gettempdir(), 'verif-c30.lock'),
              'a') as lock:
        signal.alarm(0)
        fcntl.flock(lock, fcntl.LOCK_EX)
        signal.alarm(core.CASE_TIMEOUT)
        f = run_script(spec, archive, tmp)
        only(f, names(SPLITS))
        pix = ds[:40000, lab:]
        mean = pix.mean(0, dtype=np.float64)
        sq = np.zeros(3072)
        for a in range(0, 40000, 2000):
            sq += ((pix[a:a + 2000] - mean) ** 2).sum(0)
        std = np.sqrt(sq / 40000)

        def image(v):
            return v.reshape(v.shape[:-1] + (3, 32, 32)).swapaxes(
                -3, -2).swapaxes(-2, -1)
        for k, v in (('mean', mean), ('std', std)):
            got = np.asarray(f.attrs[k])
            ensure(got.shape == (32, 32, 3) and np.allclose(
                got, image(v), rtol=1e-6), 'stored %s is not the pixel-wise '
                '%s of the first 40000 images', k, k)
        want = {'normalized_split/training': (0, 40000),
                'normalized_split/validation': (40000, 50000),
                'normalized_split/test': (50000, 60000),
                'normalized_full/training': (0, 50000),
                'normalized_full/test': (50000, 60000)}
        for k, (a, b) in want.items():
            d = part(f, k + '/default', (1, b - a, 32, 32, 3))
            t = part(f, k + '/targets', (1, b - a, 1))
            ensure(np.array_equal(t[0, :, 0], ds[a:b, lab - 1]), '%s: labels '
                   'differ from the archive', k)
            for lo in range(0, b - a, 1000):
                sel = sorted({lo, lo + 999} | set(
                    (lo + r.randint(0, 1000, spec['probes'] // 10)).tolist()))
                w = image((ds[a:b][sel, lab:] - mean) / std)
                ensure(np.allclose(d[0, sel], w, rtol=1e-5, atol=1e-6),
                       '%s: images %s are not the normalised images of the '
                       'archive', k, sel)


def check(spec):
    tmp = tempfile.mkdtemp(prefix='verif-c30-')
    try:
        {'mnist': check_mnist, 'hutter': check_hutter}.get(
            spec['kind'], check_cifar)(spec, tmp)
    finally:
        File.made = []
        shutil.rmtree(tmp, ignore_errors=True)
    return {'kind': spec['kind'], 'have': spec['have'], 'env': spec['env']}


def nontrivial(spec, labels):
    return True
