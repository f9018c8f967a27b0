"""C18: data tools return complete, aligned results."""
import os
import shutil
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
from brainstorm import tools
from brainstorm.data_iterators import Minibatches, Undivided

ID = 'C18'
QUICK, THOROUGH = 4500, 60000
RULE = ('(a) Random networks and data sets: random buffers (inputs, outputs, '
        'internals) are extracted or saved to HDF5 through iterators with '
        'random batch sizes and varying batch lengths, and compared with a '
        'forward pass over each single sequence. (b) Random arrays of several '
        'types split by random ratios and shuffled with random seeds, every '
        'entry coding its position. Non-trivial: more than one batch, or '
        'more than one part, or more than one sequence shuffled.')
ASSUMPTIONS = ['iterators do not shuffle when extracting (the order of the '
               'result is the order of the iterator)',
               'rows after the end of a sequence are not prescribed as far '
               'as its batch reaches, and zero after that',
               'no dropout or batch statistics (evaluation mode)']

KINDS = ['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm',
         'Convolution2D', 'Pooling2D', 'BatchNorm', 'Dropout', 'Elementwise',
         'Highway', 'Merge', 'NoOp', 'SquaredDifference']


@st.composite
def extract_case(draw):
    s = draw(nets.net_specs(max_layers=3, kinds=KINDS, max_heads=1,
                            min_heads=draw(st.integers(0, 1)),
                            T=nets.rarely(st.integers(1, 4),
                                          st.integers(5, 14)),
                            B=nets.rarely(st.integers(1, 8),
                                          st.sampled_from([13, 25, 40]))))
    s['cut'] = draw(st.booleans())
    s['lens'] = draw(st.lists(st.integers(1, s['T']), min_size=s['B'],
                              max_size=s['B']))
    s['bs'] = draw(st.sampled_from([1, 2, 3, 3, 8, 1, 2, 3, 10, 12]))
    s['it'] = draw(st.sampled_from(['M', 'M', 'M', 'U']))
    s['pick'] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=4))
    s['single'] = draw(st.booleans())
    s['save'] = draw(st.booleans())
    s['drop'] = draw(st.booleans())
    s['f32'] = draw(st.booleans())
    return s


@st.composite
def array_case(draw):
    return {'tool': draw(st.sampled_from(['split', 'shuffle'])),
            'T': draw(st.integers(1, 3)), 'N': draw(st.integers(1, 40)),
            'arrays': draw(st.lists(st.sampled_from(
                ['none', 'f8', 'f4', 'i8', 'b', 'fortran', 'two', 'u1']),
                min_size=0, max_size=4)),
            'ratios': draw(st.one_of(st.none(), st.lists(st.sampled_from(
                [1, 2, 3, 9, 0.1, 0.25, 0.5, 0.7, 1e-3, 100]), min_size=1,
                max_size=5))),
            'rtype': draw(st.sampled_from(['list', 'tuple', 'array'])),
            'seed': draw(st.integers(0, 2 ** 32 - 1))}


def strategy():
    return st.one_of(extract_case(), extract_case(), array_case())


def buffers(net, spec):
    names = ['Input.outputs.' + n for n in sorted(spec['inputs'])]
    for l in spec['layers']:
        if l['t'] == 'Loss':
            continue
        v = net.buffer[l['n']]
        for sec in ('outputs', 'internals'):
            for n in sorted(v[sec].keys()) if sec in v else []:
                b = getattr(v, sec)[n]
                struct = (net.layers[l['n']].out_shapes if sec == 'outputs'
                          else net.layers[l['n']].internal_shapes)[n]
                if struct.buffer_type == 2 and not getattr(
                        struct, 'is_backward_only', False):
                    names.append('%s.%s.%s' % (l['n'], sec, n))
    return names


def check_extract(s):
    spec = {k: s[k] for k in ('inputs', 'layers', 'T', 'B', 'seed')}
    T, N = s['T'], s['B']
    dtype = np.float32 if s['f32'] else np.float64
    net, _, params, data, rnd = nets.prepare(spec, dtype)
    net.provide_external_data(data)
    dropout = {l['n'] for l in spec['layers'] if l['t'] == 'Dropout'}
    names = [n for n in buffers(net, spec)
             if not (n.split('.')[0] in dropout and '.internals.' in n)]
    picked = []
    for p in s['pick']:
        picked.append(names[p % len(names)])
    if s['save']:
        picked = sorted(set(picked), key=picked.index)
    lens = list(s['lens']) if s['cut'] and s['it'] == 'M' else [T] * N
    # a pass over each sequence alone
    want = {n: [] for n in picked}
    for j in range(N):
        net.provide_external_data({k: v[:lens[j], j:j + 1]
                                   for k, v in data.items()})
        net.forward_pass()
        for n in want:
            want[n].append(net.get(n))
    used = set()
    for l in spec['layers']:
        for srcs in l['in'].values():
            used |= {x[1] for x in srcs if x[0] == 'Input'}
    sent = dict(data)
    if s['drop']:
        # inputs that only a loss needs may be missing
        for k in list(sent):
            if k.startswith('tgt') and len(sent) > 1:
                del sent[k]
                heads = [l['n'] for l in spec['layers']
                         if ['Input', k] in [list(x) for i in l['in'].values()
                                             for x in i]]
                gone = {'Input.outputs.' + k}
                for n in list(want):
                    if n in gone or n.split('.')[0] in heads or \
                            depends(spec, n.split('.')[0], heads):
                        del want[n]
        picked = [n for n in picked if n in want]
        if not picked:
            return {'mode': 'extract', 'batches': 0, 'cut': False}
    original = {k: v.copy() for k, v in sent.items()}
    before = nets.load_params(net)
    if s['it'] == 'U':
        it, nb = Undivided(**sent), 1
    else:
        it = Minibatches(s['bs'], shuffle=False, cut_according_to=lens,
                         **sent)
        nb = -(-N // s['bs'])
    arg = picked[0] if s['single'] and len(picked) == 1 else list(picked)
    if s['save']:
        d = tempfile.mkdtemp(prefix='c18-')
        try:
            path = os.path.join(d, 'out.hdf5')
            if s['single']:
                with open(path, 'w') as f:
                    f.write('something else')
            tools.extract_and_save(net, it, arg, path)
            with h5py.File(path, 'r') as f:
                ensure(sorted(f.keys()) == sorted(set(picked)),
                       'the file has the entries %s instead of %s',
                       sorted(f.keys()), sorted(set(picked)))
                got = {k: f[k][()] for k in f}
        finally:
            shutil.rmtree(d)
    else:
        got = tools.extract(net, it, arg)
        ensure(sorted(got) == sorted(set(picked)), 'extract returns %s '
               'instead of %s', sorted(got), sorted(set(picked)))
    tol = 2e-4 if s['f32'] else 1e-9
    batch_max = []
    bs = N if s['it'] == 'U' else s['bs']
    for j in range(N):
        b = j // bs
        batch_max.append(max(lens[b * bs:(b + 1) * bs]))
    for n in set(picked):
        v = got[n]
        extra = want[n][0].shape[0] - lens[0]     # context rows
        ensure(v.dtype == dtype, '%s has type %s', n, v.dtype)
        ensure(v.shape[1] == N, '%s: %d sequences instead of %d', n,
               v.shape[1], N)
        ensure(v.shape[0] == max(batch_max) + extra and
               v.shape[2:] == want[n][0].shape[2:], '%s has shape %s', n,
               v.shape)
        for j in range(N):
            rows = lens[j] if lens[j] < batch_max[j] or \
                batch_max[j] < max(batch_max) else want[n][j].shape[0]
            g, w = v[:rows, j], want[n][j][:rows, 0]
            ensure(nets.close(g, w, tol, tol), 'sequence %d of %s (batch size '
                   '%d, lengths %s): %s', j, n, bs, lens,
                   nets.describe_diff(g, w))
            ensure(not np.any(v[batch_max[j] + extra:, j]), 'sequence %d of '
                   '%s is not filled up with zeros', j, n)
    for k in original:
        ensure(np.array_equal(sent[k], original[k]), 'the data was changed')
    for n, d in nets.load_params(net).items():
        for p in d:
            ensure(np.array_equal(d[p], before[n][p]), 'extracting changes '
                   'the parameter %s of %s', p, n)
    return {'mode': 'save' if s['save'] else 'extract', 'batches': nb,
            'cut': len(set(batch_max)) > 1, 'f32': s['f32']}


def depends(spec, layer, heads):
    heads = set(heads)
    for l in spec['layers']:
        if any(x[0] in heads for i in l['in'].values() for x in i):
            heads.add(l['n'])
    return layer in heads


def make_array(kind, T, N, k):
    if kind == 'none':
        return None
    shape = (T, N) if kind == 'two' else (T, N, 2) if k % 2 else (T, N, 1, 3)
    v = (np.arange(int(np.prod(shape))) * (k + 1)).reshape(shape)
    if kind == 'fortran':
        return np.asfortranarray(v.astype(float))
    if kind == 'b':
        return (v // shape[-1]) % 2 == 0
    return v.astype({'f8': 'f8', 'f4': 'f4', 'i8': 'i8', 'u1': 'u1',
                     'two': 'f8'}[kind])


def check_arrays(s):
    T, N = s['T'], s['N']
    index = np.tile(np.arange(N).reshape(1, N, 1), (T, 1, 1))
    args = [index] + [make_array(a, T, N, k)
                      for k, a in enumerate(s['arrays'])]
    before = [None if a is None else a.copy() for a in args]
    labels = {'mode': s['tool'], 'arrays': len(args)}

    def same(got, idxs, what):
        ensure(len(got) == len(args), '%s: %d arrays instead of %d', what,
               len(got), len(args))
        for g, b in zip(got, before):
            if b is None:
                ensure(g is None, '%s: None becomes %r', what, g)
            else:
                w = b[:, idxs]
                ensure(g.dtype == w.dtype and g.shape == w.shape and
                       np.array_equal(g, w), '%s: arrays are not aligned or '
                       'incomplete', what)

    if s['tool'] == 'split':
        kw = {}
        ratios = s['ratios'] or [9, 1]
        if s['ratios']:
            kw['ratios'] = {'list': list, 'tuple': tuple,
                            'array': np.array}[s['rtype']](ratios)
        parts = tools.split(*args, **kw)
        ensure(len(parts) == len(ratios), '%d parts instead of %d',
               len(parts), len(ratios))
        pos = 0
        for i, p in enumerate(parts):
            n = p[0].shape[1]
            same(p, slice(pos, pos + n), 'part %d of split' % i)
            pos += n
            ideal = N * sum(ratios[:i + 1]) / sum(ratios)
            ensure(abs(pos - ideal) <= 0.5 + 1e-6, 'part %d of %d sequences '
                   'split by %s ends at %d', i, N, ratios, pos)
        ensure(pos == N, 'the parts have %d sequences instead of %d', pos, N)
        labels['parts'] = len(parts)
    else:
        res = tools.shuffle_data(*args, seed=s['seed'])
        perm = res[0][0, :, 0]
        ensure(sorted(perm.tolist()) == list(range(N)), 'not a permutation: '
               '%s', perm)
        same(res, perm, 'shuffle_data')
        ensure(np.array_equal(tools.shuffle_data(*args, seed=s['seed'])[0],
                              res[0]), 'the same seed gives another order')
        if N >= 12:
            other = [tools.shuffle_data(*args, seed=k)[0][0, :, 0]
                     for k in (1, 2, 3)]
            ensure(any(not np.array_equal(other[0], o) for o in other[1:]),
                   'the seed has no influence')
            free = [tools.shuffle_data(*args)[0][0, :, 0] for _ in range(3)]
            ensure(any(not np.array_equal(o, np.arange(N)) for o in
                       other + free), 'nothing is shuffled')
        free = tools.shuffle_data(*args)
        perm = free[0][0, :, 0]
        ensure(sorted(perm.tolist()) == list(range(N)), 'not a permutation: '
               '%s', perm)
        same(free, perm, 'shuffle_data without seed')
        labels['parts'] = N
    for a, b in zip(args, before):
        ensure(b is None or np.array_equal(a, b), 'an argument was modified')
    return labels


def check(s):
    return check_arrays(s) if 'tool' in s else check_extract(s)


def nontrivial(spec, labels):
    return labels.get('batches', 0) > 1 or labels.get('parts', 0) > 1
