"""C15: each pass over the data yields every sequence exactly once."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt.core import ensure
from pbt.nets import rarely
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.utils import IteratorValidationError

ID = 'C15'
QUICK, THOROUGH = 9000, 150000
RULE = ('Random sets of named arrays (1 to 4 arrays of 3 to 5 dimensions, '
        'several types, contiguous or not, every entry coding its position), '
        'random batch sizes, shuffling, masks and sequence lengths, several '
        'and interleaved passes; the yielded batches are matched with the '
        'source. Plus inconsistent arrays that must be refused. Non-trivial: '
        'more than one batch, or cut sequences, or a refusal.')
ASSUMPTIONS = ['shuffling permutes whole batches, as documented',
               'every batch has at least one unmasked time step']


@st.composite
def strategy_(draw):
    T = draw(rarely(st.integers(1, 5), st.sampled_from([8, 13, 30])))
    big = draw(st.integers(0, 14)) == 14
    N = draw(st.sampled_from([21, 64, 101, 129, 257]) if big else
             st.integers(1, 13))
    arrays = {}
    for name in draw(st.lists(st.sampled_from(
            ['default', 'targets', 'x', 'aux']), min_size=1, max_size=3,
            unique=True)):
        arrays[name] = {
            'shape': draw(st.lists(st.integers(1, 3), min_size=1,
                                   max_size=3)),
            'dtype': draw(st.sampled_from(['float64', 'float32', 'int64',
                                           'uint8'])),
            'order': draw(st.sampled_from(['C', 'F', 'strided']))}
    s = {'T': T, 'N': N, 'arrays': arrays,
         'kind': draw(st.sampled_from(['Minibatches'] * 5 + ['Undivided'])),
         'bs': draw(st.sampled_from([20, 10, 11, 33, 64, 100, 128, 256]
                                    if big else
                                    [1, 2, 3, 4, 5, 7, 20, 1, 2, 3, 10])),
         'shuffle': draw(st.booleans()),
         'default_bs': draw(st.integers(0, 9)) == 0,
         'seed': draw(st.integers(0, 9999)),
         'lens': (draw(st.lists(st.integers(1, T), min_size=min(N, 13),
                                max_size=min(N, 13))) * N)[:N] if T > 5 or
         not big or draw(st.booleans()) else
         [1] * (N - 1) + [draw(st.integers(1, T))],
         'mask': draw(st.sampled_from(['none', 'binary', 'holes', 'weights',
                                       'bool'])),
         'cut': draw(st.sampled_from(['default', 'default', 'None', 'list',
                                      'array', 'tuple', 'absent', 'other'])),
         'bad': draw(st.sampled_from([None] * 8 + [
             'sequences', 'steps', 'dims', 'type', 'lens']))}
    return s


def strategy():
    return strategy_()


def make_arrays(s):
    out = {}
    for i, (name, a) in enumerate(sorted(s['arrays'].items())):
        shape = [s['T'], s['N']] + a['shape']
        n = int(np.prod(shape))
        v = (np.arange(n) * (i + 1) + i).reshape(shape)
        v = v.astype(a['dtype'])
        if a['order'] == 'F':
            v = np.asfortranarray(v)
        elif a['order'] == 'strided':
            big = np.zeros([2 * s['T'], s['N']] + a['shape'], v.dtype)
            big[::2] = v
            v = big[::2]
        out[name] = v
    return out


def make_mask(s):
    m = np.zeros((s['T'], s['N'], 1))
    r = np.random.RandomState(s['seed'])
    for j, l in enumerate(s['lens']):
        m[:l, j] = 1
        if s['mask'] == 'holes':
            m[:l - 1, j, 0] = r.randint(0, 2, l - 1)
        if s['mask'] == 'weights':
            m[:l, j, 0] = r.choice([0.5, -1.0, 2.0, 1e-9], l)
    if s['mask'] == 'bool':
        m = m.astype(bool)
    return m


def refused(s, arrays):
    bad = s['bad']
    arrays = dict(arrays)
    name = sorted(s['arrays'])[0]
    v = arrays[name]
    arrays['zz'] = np.zeros((s['T'], s['N'], 1))
    if bad == 'sequences':
        arrays[name] = np.concatenate([v, v[:, :1]], axis=1)
    elif bad == 'steps':
        arrays[name] = np.concatenate([v, v[:1]], axis=0)
    elif bad == 'dims':
        arrays[name] = v[:, :, 0].reshape(v.shape[:2] + (-1,))[:, :, 0]
    elif bad == 'type':
        arrays[name] = v.tolist()
    kw = {}
    if bad == 'lens':
        if s['kind'] == 'Undivided':
            return
        kw['cut_according_to'] = s['lens'] + [1]
    try:
        if s['kind'] == 'Undivided':
            Undivided(**arrays)
        else:
            Minibatches(s['bs'], s['shuffle'], **dict(arrays, **kw))
    except (IteratorValidationError, AssertionError):
        return
    ensure(False, 'inconsistent data (%s) is accepted', bad)


def check(s):
    arrays = make_arrays(s)
    labels = {'kind': s['kind'], 'bad': s['bad'], 'batches': 1, 'cut': False}
    if s['bad']:
        refused(s, arrays)
        return labels
    kw = {}
    lens = [s['T']] * s['N']
    if s['mask'] != 'none':
        name = 'mask' if s['cut'] != 'other' else 'other_mask'
        arrays[name] = make_mask(s)
        if s['cut'] in ('default', 'other'):
            lens = s['lens']
    if s['cut'] == 'None':
        kw['cut_according_to'] = None
    elif s['cut'] in ('list', 'array', 'tuple'):
        kw['cut_according_to'] = {
            'list': list, 'array': np.array, 'tuple': tuple}[s['cut']](
            s['lens'])
        lens = s['lens']
    elif s['cut'] == 'absent':
        kw['cut_according_to'] = 'nothing'
    elif s['cut'] == 'other':
        kw['cut_according_to'] = 'other_mask'
    original = {k: v.copy() for k, v in arrays.items()}
    if s['kind'] == 'Undivided':
        it = Undivided(**arrays)
        bs, lens = s['N'], [s['T']] * s['N']
    else:
        args = [] if s['default_bs'] else [s['bs'], s['shuffle']]
        bs = 1 if s['default_bs'] else s['bs']
        it = Minibatches(*args, **dict(arrays, **kw))
    shuffle = s['kind'] == 'Minibatches' and (s['default_bs'] or s['shuffle'])
    nb = -(-s['N'] // bs)
    labels['batches'] = nb
    labels['cut'] = min(lens) < s['T']
    ensure(it.length == nb, 'announces %s batches instead of %d', it.length,
           nb)
    ensure({k: tuple(v) for k, v in it.data_shapes.items()} ==
           {k: v.shape for k, v in original.items()}, 'announces shapes %s',
           it.data_shapes)

    def match(batches):
        """Indices of the batches of one complete pass."""
        ensure(len(batches) == nb, '%d batches instead of %d', len(batches),
               nb)
        order = []
        for b in batches:
            ensure(set(b) == set(original), 'a batch has the items %s',
                   sorted(b))
            sizes = {v.shape[1] for v in b.values()}
            ensure(len(sizes) == 1, 'items of different batch sizes')
            hit = None
            for j in range(nb):
                sl = slice(j * bs, (j + 1) * bs)
                t = max(lens[sl])
                if all(b[k].shape == original[k][:t, sl].shape and
                       np.array_equal(b[k], original[k][:t, sl])
                       for k in b) and j not in order:
                    hit = j
                    break
            ensure(hit is not None, 'a batch of shape %s is not the next '
                   'batch of the data (batch size %d, lengths %s)',
                   {k: v.shape for k, v in b.items()}, bs, lens)
            order.append(hit)
        ensure(sorted(order) == list(range(nb)), 'batches %s', order)
        if not shuffle:
            ensure(order == list(range(nb)), 'not in order: %s', order)
        return order

    it.rnd.set_seed(s['seed'])
    orders = [match(list(it(handler=None))) for _ in range(4)]
    it.rnd.set_seed(s['seed'])
    again = match(list(it()))
    ensure(again == orders[0] or _ambiguous(original), 'the same seed gives '
           'another order')
    if shuffle and nb >= 5 and not _ambiguous(original):
        ensure(any(o != list(range(nb)) for o in orders), 'shuffling never '
               'changes the order')
        ensure(any(o != orders[0] for o in orders), 'every pass has the same '
               'order')
    # interleaved passes do not disturb each other
    a, b = [], []
    for x, y in itertools.zip_longest(it(), it()):
        a.append(x)
        b.append(y)
    ensure(None not in a and None not in b, 'passes of different lengths')
    match(a)
    match(b)
    # an abandoned pass does not disturb the next
    g = it()
    next(g)
    match(list(it()))
    for k in original:
        ensure(np.array_equal(arrays[k], original[k]), 'the data was changed')
    return labels


def _ambiguous(original):
    """Could two batches look the same?"""
    return not any(v.dtype != np.uint8 and v.dtype != bool and
                   k not in ('mask', 'other_mask')
                   for k, v in original.items())


def nontrivial(spec, labels):
    return labels['batches'] > 1 or labels['cut'] or bool(labels['bad'])
