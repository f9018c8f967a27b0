"""C03: chunked processing with carried context equals one pass."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure

ID = 'C03'
QUICK, THOROUGH = 4500, 90000
RULE = ('Random networks (mostly recurrent), a random sequence and random cut '
        'points; the chunks are processed with the context carried over, '
        'optionally interleaved with passes over unrelated batches, and '
        'compared with one pass over the whole sequence. Non-trivial: at '
        'least two chunks and a recurrent layer.')
ASSUMPTIONS = ['clockwork layers are cut only at multiples of their periods '
               '(each pass starts counting at zero)',
               'batch normalisation and dropout are used in evaluation mode']

KINDS = ['Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm', 'Recurrent',
         'Lstm', 'FullyConnected', 'Elementwise', 'Highway', 'Merge',
         'Convolution2D', 'Pooling2D', 'BatchNorm', 'Dropout', 'Mask',
         'SquaredDifference']


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=4, kinds=KINDS, max_heads=2,
                               first=KINDS[:6] + KINDS[6:8]))
    spec['chunks'] = draw(nets.rarely(
        st.lists(st.integers(1, 3), min_size=2, max_size=5),
        st.lists(st.sampled_from([1, 2, 5, 13]), min_size=2, max_size=9)))
    spec['noise'] = draw(st.lists(st.sampled_from(
        ['none', 'none', 'other', 'same', 'backward', 'context']),
        min_size=5, max_size=5))
    spec['train'] = draw(st.booleans())
    return spec


def strategy():
    return strategy_()


def _snapshot(obj):
    if isinstance(obj, dict):
        return {k: _snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_snapshot(v) for v in obj]
    if obj is None:
        return None
    return np.array(obj)


def _same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return np.array_equal(a, b, equal_nan=True)


def _outs(net, spec, T):
    return {(l['n'], o): nets.get_output(net, l['n'], o, T)
            for l in spec['layers'] if l['t'] != 'Loss'
            for o in net.layers[l['n']].out_shapes}


def check(spec):
    net, _, params, _, rnd = nets.prepare(spec)
    clock = any(l['t'].startswith('Clockwork') for l in spec['layers'])
    chunks = list(spec['chunks'])
    if clock:
        chunks = [c * 2 for c in chunks]
        for n in params:
            if 'timing' in params[n]:
                params[n]['timing'] = 1.0 + (params[n]['timing'] % 2)
        nets.set_params(net, params)
    train = spec['train'] and not (set(nets.spec_kinds(spec)) &
                                   {'BatchNorm', 'Dropout'})
    T, B = sum(chunks), spec['B']
    data = nets.draw_inputs(spec, rnd, T=T)
    other = nets.draw_inputs(spec, rnd, T=T + 1, B=B + 1)
    same = nets.draw_inputs(spec, rnd, T=chunks[0], B=B)

    net.provide_external_data(data)
    net.forward_pass(training_pass=train)
    whole = _outs(net, spec, T)
    whole_loss = {k: float(net.get(k + '.outputs.loss').sum())
                  for k in (l['n'] for l in spec['layers'] if
                            l['t'] == 'Loss')}
    param_loss = {l['n'] for l in spec['layers'] if l['t'] == 'Loss' and
                  any(s[1].startswith('..') for s in l['in']['default'])}

    saved = [(None, None)]
    ctx, pos = None, 0
    loss = dict.fromkeys(whole_loss, 0.0)
    spans = []

    def run_chunk(i, ctx):
        a, b = spans[i]
        net.provide_external_data({k: v[a:b] for k, v in data.items()})
        net.forward_pass(training_pass=train, context=ctx)
        out = _outs(net, spec, b - a)
        for key, v in out.items():
            w = whole[key][a:b]
            ensure(nets.close(v, w, 1e-7, 1e-9 * max(1, np.abs(w).max())),
                   'chunks %s: output %s of %s in chunk %d differs from the '
                   'pass over the whole sequence: %s', chunks, key[1], key[0],
                   i, nets.describe_diff(v, w))

    for i, c in enumerate(chunks):
        spans.append((pos, pos + c))
        run_chunk(i, ctx)
        for k in loss:
            loss[k] += float(net.get(k + '.outputs.loss').sum())
        if spec['noise'][i % 5] == 'backward' and train:
            net.forward_pass(training_pass=train, context=ctx)
            net.backward_pass()
        ctx = net.get_context()
        saved.append((ctx, _snapshot(ctx)))
        pos += c
        what = spec['noise'][i % 5]
        if what == 'other':
            net.provide_external_data(other)
            net.forward_pass(training_pass=train)
        elif what == 'same':
            net.provide_external_data(same)
            net.forward_pass(training_pass=train)
            if train:
                net.backward_pass()
        elif what == 'context':
            net.provide_external_data(same)
            net.forward_pass(training_pass=train, context=ctx)
    for k in loss:
        if k in param_loss:
            continue
        ensure(nets.close(loss[k], whole_loss[k], 1e-6,
                          1e-7 * max(1, abs(whole_loss[k]))),
               'loss %s summed over chunks is %r, over the whole sequence %r',
               k, loss[k], whole_loss[k])
    # saved contexts are intact and can be used again in any order
    for i, (c, snap) in enumerate(saved):
        ensure(c is None or _same(_snapshot(c), snap),
               'the context saved after chunk %d was altered by later passes',
               i)
    for i in reversed(range(len(chunks))):
        run_chunk(i, saved[i][0])
    # no context: zero state, whatever was processed before
    net.provide_external_data(data)
    net.forward_pass(training_pass=train)
    for key, v in _outs(net, spec, T).items():
        ensure(nets.close(v, whole[key], 1e-9, 1e-9), 'a pass without context '
               'does not start from zero state: output %s of %s: %s', key[1],
               key[0], nets.describe_diff(v, whole[key]))
    labels = {'chunks': len(chunks), 'recurrent': nets.is_recurrent(spec)}
    for k in nets.spec_kinds(spec):
        if k in nets.RECURRENT:
            labels['layer:' + k] = 1
    return labels


def nontrivial(spec, labels):
    return labels['recurrent'] and labels['chunks'] > 1
