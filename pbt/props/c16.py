"""C16: data-augmenting iterators transform exactly as stated."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import ensure
from pbt.nets import rarely
from brainstorm.data_iterators import (
    AddGaussianNoise, AddSaltNPepper, DataIterator, Flip, Minibatches,
    MultiHot, OneHot, Pad, RandomCrop, Undivided)
from brainstorm.utils import IteratorValidationError

ID = 'C16'
QUICK, THOROUGH = 6000, 80000
RULE = ('Random data sets (images, vectors, index sequences, an untouched '
        'item), a random source iterator and a random nesting of one to four '
        'wrappers with random options; a recording iterator between all '
        'wrappers lets every batch be compared before and after each one: '
        'exactly for padding, one-hot and multi-hot, as membership in the '
        'possible results plus frequencies for flip, crop and noise. Several '
        'and interleaved passes, reseeded repetition, and unusable arguments. '
        'Non-trivial: a wrapper changed something, or a refusal.')
ASSUMPTIONS = ['indices for one-hot and multi-hot are below the vocabulary '
               'size', 'the resulting data type is not prescribed',
               'frequencies are tested at more than 6 standard deviations']

PROBS = [0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0]
IMG, VEC, IDX = 'img', 'vec', 'idx'
WRAPPERS = ['noise', 'salt', 'flip', 'pad', 'crop', 'onehot', 'multihot']


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 6)) == 0:
        return draw(refusals())
    big = draw(st.integers(0, 7)) == 0
    T = draw(rarely(st.integers(1, 3), st.integers(4, 6 if big else 19)))
    dim = rarely(st.integers(1, 5), st.integers(6, 17))
    N = draw(st.sampled_from([150, 311])) if big else draw(st.integers(1, 7))
    items = {'aux': {'kind': VEC, 'shape': [2], 'dtype': 'float64'}}
    for name in draw(st.lists(st.sampled_from(['default', 'x', 'y']),
                              min_size=1, max_size=3, unique=True)):
        kind = draw(st.sampled_from([IMG, IMG, VEC, IDX]))
        shape = {IMG: st.tuples(dim, dim, st.integers(1, 3)).map(list),
                 VEC: st.lists(st.integers(1, 4), min_size=1, max_size=1),
                 IDX: st.sampled_from([[1], [1], [2], [3]])}[kind]
        items[name] = {'kind': kind, 'shape': draw(shape), 'dtype': draw(
            st.sampled_from(['int64', 'int32', 'uint8'] if kind == IDX else
                            ['float64', 'float32']))}
    names = sorted(n for n in items if n != 'aux')
    cur = {n: (items[n]['kind'], list(items[n]['shape'])) for n in names}
    chain = []
    for _ in range(draw(st.integers(1, 4))):
        fit = {w: [] for w in WRAPPERS}
        for n in names:
            k, sh = cur[n]
            if k != IDX:
                fit['noise'].append(n)
                fit['salt'].append(n)
            if k == IMG:
                for w in ('flip', 'pad', 'crop'):
                    fit[w].append(n)
            if k == IDX:
                fit['multihot'].append(n)
                if sh == [1]:
                    fit['onehot'].append(n)
        w = draw(st.sampled_from([w for w in WRAPPERS if fit[w]]))
        keys = draw(st.lists(st.sampled_from(fit[w]), min_size=1, max_size=3,
                             unique=True))
        o = {}
        for n in keys:
            k, sh = cur[n]
            if w == 'noise':
                o[n] = [draw(st.sampled_from([0.0, 0.2, 1.0, 3.0])),
                        draw(st.sampled_from([0.0, -2.0, 0.5]))]
            elif w == 'salt':
                o[n] = [draw(st.sampled_from(PROBS)),
                        draw(st.sampled_from(PROBS))]
            elif w == 'flip':
                o[n] = draw(st.sampled_from(PROBS))
            elif w == 'pad':
                p = draw(rarely(st.integers(0, 2), st.integers(3, 9)))
                o[n] = [p, draw(st.sampled_from([0, 1, -2.5]))]
                cur[n] = (k, [sh[0] + 2 * p, sh[1] + 2 * p, sh[2]])
            elif w == 'crop':
                o[n] = [draw(st.integers(1, sh[0])),
                        draw(st.integers(1, sh[1]))]
                cur[n] = (k, o[n] + [sh[2]])
            else:
                o[n] = draw(st.sampled_from([5, 6, 9, 9, 33, 140]))
                cur[n] = (VEC, [o[n]])
        c = {'w': w, 'o': o}
        if w in ('noise', 'salt', 'pad'):
            c['second'] = draw(st.booleans())
        if w == 'flip' and keys == ['default'] and draw(st.booleans()):
            c['o'] = {'default': 0.5}
            c['no_args'] = True
        chain.append(c)
    return {'T': T, 'N': N, 'items': items, 'chain': chain,
            'source': draw(st.sampled_from(['Minibatches', 'Minibatches',
                                            'Undivided'])),
            'bs': draw(st.sampled_from([64, 150] if big else [1, 2, 3, 10])),
            'shuffle': draw(st.booleans()),
            'mask': draw(st.booleans()),
            'binary': draw(st.booleans()),
            'handler': draw(st.booleans()),
            'seed': draw(st.integers(0, 99999))}


BAD = ['noise-key', 'noise-dicts', 'salt-key', 'salt-dicts', 'flip-key',
       'flip-default', 'flip-prob', 'flip-dims', 'pad-key', 'pad-dicts',
       'pad-dims', 'crop-key', 'crop-type', 'crop-len', 'crop-large',
       'crop-negative', 'crop-dims', 'onehot-key', 'onehot-type',
       'onehot-dims', 'onehot-last', 'multihot-key', 'multihot-type',
       'multihot-dims', 'crop-after-crop', 'onehot-after-onehot']


@st.composite
def refusals(draw):
    return {'bad': draw(st.sampled_from(BAD)),
            'h': draw(st.integers(1, 4)), 'wd': draw(st.integers(1, 4)),
            'd': draw(st.integers(1, 3)), 'eps': draw(st.sampled_from(
                [1e-6, 0.5, 3.0])), 'side': draw(st.booleans()),
            'source': draw(st.booleans())}


def strategy():
    return strategy_()


def check_refusal(s):
    data = {'img': np.zeros((2, 3, s['h'], s['wd'], 1)),
            'vec': np.zeros((2, 3, s['d'] + 1)),
            'one': np.zeros((2, 3, 1), dtype=int)}
    src = Undivided(**data) if s['source'] else Minibatches(2, **data)
    side, d = s['side'], s['d']
    calls = {
        'noise-key': lambda: AddGaussianNoise(src, {'img': 1.0, 'zz': 1.0}),
        'noise-dicts': lambda: AddGaussianNoise(
            src, {'img': 1.0}, {'vec': 1.0} if side else {}),
        'salt-key': lambda: AddSaltNPepper(src, {'zz': 0.5}),
        'salt-dicts': lambda: AddSaltNPepper(
            src, {'img': 0.5}, {'img': 0.5, 'vec': .5} if side else {}),
        'flip-key': lambda: Flip(src, {'img': 0.5, 'zz': 0.5}),
        'flip-default': lambda: Flip(src),
        'flip-prob': lambda: Flip(
            src, {'img': 1 + s['eps'] if side else -s['eps']}),
        'flip-dims': lambda: Flip(src, {'vec': 0.5}),
        'pad-key': lambda: Pad(src, {'zz': 1}),
        'pad-dicts': lambda: Pad(src, {'img': 1},
                                 {'img': 0, 'vec': 1} if side else {}),
        'pad-dims': lambda: Pad(src, {'vec': 1}),
        'crop-key': lambda: RandomCrop(src, {'zz': (1, 1)}),
        'crop-type': lambda: RandomCrop(src, {'img': [1, 1] if side else 1}),
        'crop-len': lambda: RandomCrop(
            src, {'img': (1, 1, 1) if side else (1,)}),
        'crop-large': lambda: RandomCrop(
            src, {'img': (s['h'] + d, 1) if side else (1, s['wd'] + d)}),
        'crop-negative': lambda: RandomCrop(
            src, {'img': (-d, 1) if side else (1, -d)}),
        'crop-dims': lambda: RandomCrop(src, {'vec': (1, 1)}),
        'onehot-key': lambda: OneHot(src, {'zz': 3}),
        'onehot-type': lambda: OneHot(src, {'one': 3.0 if side else '3'}),
        'onehot-dims': lambda: OneHot(src, {'img': 3}),
        'onehot-last': lambda: OneHot(src, {'vec': 3}),
        'multihot-key': lambda: MultiHot(src, {'zz': 3}),
        'multihot-type': lambda: MultiHot(src, {'vec': 3.0}),
        'multihot-dims': lambda: MultiHot(src, {'img': 3}),
        'crop-after-crop': lambda: RandomCrop(
            RandomCrop(src, {'img': (1, 1)}),
            {'img': (2, 1) if side else (1, 2)}),
        'onehot-after-onehot': lambda: OneHot(
            OneHot(src, {'one': 2 + d}), {'one': 3}),
    }
    try:
        calls[s['bad']]()
    except IteratorValidationError:
        return {'refused': s['bad'], 'wrappers': 0, 'changed': False}
    ensure(False, '%s: unusable arguments are accepted', s['bad'])


class Tap(DataIterator):
    """Passes batches on and records them."""

    def __init__(self, it):
        super(Tap, self).__init__(it.data_shapes, it.length)
        self.it = it
        self.passes = []

    def __call__(self, handler=None):
        log = []
        self.passes.append(log)
        for data in (self.it() if handler is None else self.it(handler)):
            log.append(({k: v.copy() for k, v in data.items()}, dict(data)))
            yield data      # the same dict, like an iterator without the tap


def make_data(s):
    r = np.random.RandomState(s['seed'])
    data = {}
    for name, it in sorted(s['items'].items()):
        shape = [s['T'], s['N']] + it['shape']
        if it['kind'] == IDX:
            v = r.randint(0, min([140] + [
                c['o'][name] for c in s['chain'] if name in c['o'] and
                c['w'] in ('onehot', 'multihot')]), shape)
        else:
            v = r.uniform(2.0, 9.0, shape)
            if s.get('binary'):
                # white and black pixels, which salt and pepper look like
                some = r.uniform(size=shape) < 0.5
                v[some] = r.randint(0, 2, shape)[some]
        data[name] = v.astype(it['dtype'])
    if s['mask']:
        data['mask'] = np.zeros((s['T'], s['N'], 1))
        for j in range(s['N']):
            data['mask'][:r.randint(1, s['T'] + 1), j] = 1
    return data


def wrap(it, c):
    w, o = c['w'], c['o']
    first = {n: v[0] if w in ('noise', 'salt', 'pad') else v
             for n, v in o.items()}
    args = [first]
    if c.get('second'):
        args.append({n: v[1] for n, v in o.items()})
    if w == 'crop':
        args = [{n: tuple(v) for n, v in o.items()}]
    if c.get('no_args'):
        args = []
    return {'noise': AddGaussianNoise, 'salt': AddSaltNPepper, 'flip': Flip,
            'pad': Pad, 'crop': RandomCrop, 'onehot': OneHot,
            'multihot': MultiHot}[w](it, *args)


def freq(hits, n, p, what):
    tol = 6.5 * np.sqrt(n * p * (1 - p)) + 3
    if p in (0.0, 1.0):
        tol = 0
    ensure(abs(hits - n * p) <= tol, '%s: %d of %d instead of a share of %s',
           what, hits, n, p)


class Stats(object):
    def __init__(self):
        self.d = {}

    def add(self, key, *vals):
        self.d.setdefault(key, []).append(vals)


def check_step(c, level, inp, out, stats):
    """One batch before and after the wrapper c."""
    w = c['w']
    ensure(set(inp) == set(out), '%s: items %s become %s', w, sorted(inp),
           sorted(out))
    changed = False
    for n in inp:
        a, b = inp[n], out[n]
        where = '%s of %s' % (w, n)
        if n not in c['o']:
            ensure(a.dtype == b.dtype and np.array_equal(a, b),
                   '%s changes the item %s', w, n)
            continue
        o = c['o'][n]
        if w == 'pad':
            size, val = o[0], (o[1] if c['second'] else 0)
            want = np.pad(a.astype(float), [(0, 0), (0, 0), (size, size),
                                            (size, size), (0, 0)],
                          mode='constant', constant_values=val)
            ensure(want.shape == b.shape, '%s: shape %s', where, b.shape)
            ensure(np.array_equal(want, b), '%s: wrong values', where)
            changed |= size > 0
            continue
        if w in ('onehot', 'multihot'):
            want = (a[..., None] == np.arange(o)).any(axis=2)
            ensure(want.shape == b.shape, '%s: shape %s', where, b.shape)
            ensure(np.array_equal(want, b), '%s: wrong values', where)
            changed = True
            continue
        if w == 'crop':
            ensure(b.shape == a.shape[:2] + tuple(o) + a.shape[4:],
                   '%s: shape %s', where, b.shape)
            R, C = a.shape[2] - o[0] + 1, a.shape[3] - o[1] + 1
            for i in range(a.shape[1]):
                hits = [(r, k) for r in range(R) for k in range(C)
                        if np.array_equal(
                            a[:, i, r:r + o[0], k:k + o[1]], b[:, i])]
                ensure(hits, '%s: item %d is not a part of the image',
                       where, i)
                if len(np.unique([
                        a[:, i, r:r + o[0], k:k + o[1]].ravel()
                        for r in range(R) for k in range(C)],
                        axis=0)) == R * C:
                    stats.add((level, n), hits[0], (R, C))
            changed |= R * C > 1
            continue
        ensure(a.shape == b.shape, '%s: shape %s', where, b.shape)
        if w == 'flip':
            for i in range(a.shape[1]):
                same = np.array_equal(a[:, i], b[:, i])
                fl = np.array_equal(a[:, i, :, ::-1], b[:, i])
                ensure(same or fl, '%s: item %d is neither kept nor mirrored',
                       where, i)
                if same != fl:
                    stats.add((level, n), fl)
                    changed |= fl
        elif w == 'noise':
            std, mean = o[0], (o[1] if c['second'] else 0.0)
            delta = b.astype(float) - a
            if std == 0:
                ensure(np.allclose(delta, mean, rtol=1e-5, atol=1e-5),
                       '%s: not shifted by the mean', where)
            else:
                stats.add((level, n), ((delta - mean) / std).ravel())
            changed = True
        elif w == 'salt':
            salt, pepper, kept = b == 1, b == 0, a == b
            ensure((salt | pepper | kept).all(), '%s: other values', where)
            plain = (a != 0) & (a != 1)
            changed |= bool((salt | pepper)[plain].any())
            stats.add((level, n), int(plain.sum()), int(salt[plain].sum()),
                      int(pepper[plain].sum()), int((a == 0).sum()),
                      int(salt[a == 0].sum()), int((a == 1).sum()),
                      int(pepper[a == 1].sum()))
    return changed


def check_stats(s, stats):
    for (level, n), vals in stats.d.items():
        c = s['chain'][level]
        w, o = c['w'], c['o'][n]
        where = '%s of %s' % (w, n)
        if w == 'flip':
            freq(sum(v[0] for v in vals), len(vals), o, where)
        elif w == 'salt':
            n_, sa, pe, n0, sa0, n1, pe1 = [sum(v[i] for v in vals)
                                            for i in range(7)]
            ratio = o[1] if c['second'] else 0.5
            freq(sa, n_, o[0] * ratio, where + ' (salt)')
            freq(pe, n_, o[0] * (1 - ratio), where + ' (pepper)')
            freq(sa0, n0, o[0] * ratio, where + ' (salt on black)')
            freq(pe1, n1, o[0] * (1 - ratio), where + ' (pepper on white)')
        elif w == 'noise':
            z = np.concatenate([v[0] for v in vals])
            ensure(abs(z).max() < 7.5, '%s: noise of %.3g standard deviations',
                   where, abs(z).max())
            ensure(abs(z.mean()) < 6.5 / np.sqrt(len(z)),
                   '%s: mean of the noise is off by %.3g std', where,
                   z.mean())
            if len(z) >= 100:
                ensure(abs(z.std() - 1) < 7 / np.sqrt(2 * len(z)) + 1e-3,
                       '%s: noise has %.3g times the standard deviation',
                       where, z.std())
            ensure(len(np.unique(z)) > 0.5 * len(z), '%s: repeated noise',
                   where)
        elif w == 'crop':
            for ax in range(2):
                k = vals[0][1][ax]
                off = [v[0][ax] for v in vals]
                if len(off) >= 45 * k:
                    for j in range(k):
                        ensure(j in off, '%s: offset %d along axis %d never '
                               'occurs', where, j, ax)
                        freq(off.count(j), len(off), 1. / k, where)


def check(s):
    if 'bad' in s:
        return check_refusal(s)
    data = make_data(s)
    original = {k: v.copy() for k, v in data.items()}
    if s['source'] == 'Undivided':
        src = Undivided(**data)
    else:
        src = Minibatches(s['bs'], s['shuffle'], **data)
    src_shapes = {k: tuple(v) for k, v in src.data_shapes.items()}
    taps = [Tap(src)]
    seeded = [src]
    for c in s['chain']:
        it = wrap(taps[-1], c)
        ensure(it.length == src.length, '%s: announces %s batches', c['w'],
               it.length)
        seeded.append(it)
        taps.append(Tap(it))
    top = taps[-1]
    handler = None
    if s['handler']:
        from brainstorm.handlers import NumpyHandler
        handler = NumpyHandler(np.float64)

    def seed_all():
        for i, it in enumerate(seeded):
            it.rnd.set_seed(s['seed'] + i)

    seed_all()
    passes = 3
    for _ in range(passes):
        for _ in top(handler=handler):
            pass
    g1, g2 = top(), top()           # interleaved
    for a in g1:
        next(g2)
    ensure(next(g2, None) is None, 'interleaved passes differ in length')
    passes += 2
    stats = Stats()
    changed = False
    for level, tap in enumerate(taps):
        ensure(len(tap.passes) == passes, 'level %d: %d passes', level,
               len(tap.passes))
        for log in tap.passes:
            ensure(len(log) == src.length, 'level %d: %d batches', level,
                   len(log))
            for rec, ref in log:
                for k in rec:
                    ensure(np.array_equal(rec[k], ref[k]), 'the data yielded '
                           'by level %d was modified later (item %s)', level,
                           k)
                    shape = tap.data_shapes[k]
                    ensure(tuple(shape[:2]) == (s['T'], s['N']) and
                           tuple(shape[2:]) == rec[k].shape[2:],
                           'announces the shape %s for %s but yields %s',
                           shape, k, rec[k].shape)
        if level:
            c = s['chain'][level - 1]
            for la, lb in zip(taps[level - 1].passes, tap.passes):
                for (a, _), (b, _) in zip(la, lb):
                    changed |= check_step(c, level - 1, a, b, stats)
    check_stats(s, stats)
    for k in original:
        ensure(data[k].dtype == original[k].dtype and
               np.array_equal(data[k], original[k]),
               'the source data was changed (%s)', k)
    ensure({k: tuple(v) for k, v in src.data_shapes.items()} == src_shapes,
           'the shapes announced by the source were changed')
    # the source yields the original data, and reseeding repeats everything
    seed_all()
    again = list(top(handler=handler))
    for (a, _), b in zip(top.passes[0], again):
        for k in a:
            ensure(np.array_equal(a[k], b[k]), 'the same seeds give other '
                   'data (%s)', k)
    return {'wrappers': len(s['chain']), 'changed': changed, 'refused': None,
            'outer': s['chain'][-1]['w']}


def nontrivial(spec, labels):
    return bool(labels['changed'] or labels['refused'])
