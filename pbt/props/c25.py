"""C25: batch items are independent and recurrent layers are causal."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure

ID = 'C25'
QUICK, THOROUGH = 5000, 100000
RULE = ('Random layer graphs; a second run on related inputs is compared '
        'with the first one, on the same network object or a fresh one: '
        'items permuted, duplicated or left out; all other items replaced; '
        'everything after a time step replaced or cut away; for networks '
        'without recurrent layers the (time, item) positions re-gridded '
        'arbitrarily. Outputs of every layer, and after a training pass all '
        'deltas (rescaled by the batch sizes) and the sum of the per-item '
        'gradients, have to agree. Non-trivial: more than one item or time '
        'step and the second batch differs from the first.')
ASSUMPTIONS = [
    'no batch normalisation in training passes; dropout only in evaluation '
    'or with probability 0',
    'the delta of an item is its share of the batch average, i.e. it scales '
    'with one over the batch size']

TRAIN_KINDS = ['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
               'ClockworkLstm', 'Convolution2D', 'Pooling2D', 'Dropout',
               'Elementwise', 'NoOp', 'DeltasScaling', 'Highway', 'Merge',
               'Mask', 'SquaredDifference']


@st.composite
def _case(draw):
    mode = draw(st.sampled_from(['items', 'replace', 'future', 'steps',
                                 'items', 'steps', 'future', 'sum']))
    train = mode in ('sum',) or mode != 'future' and draw(st.booleans())
    kinds = list(TRAIN_KINDS)
    if mode == 'steps':
        kinds = [k for k in kinds if k not in nets.RECURRENT]
    elif mode == 'future':
        kinds += ['Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm']
    if not train:
        kinds.append('BatchNorm')
    allow = {'param': mode != 'sum'}
    T = st.sampled_from([2, 3, 4, 5, 8]) if mode == 'future' else \
        st.sampled_from([1, 2, 3, 5])
    B = st.sampled_from([2, 3, 4, 7]) if mode in ('items', 'replace',
                                                  'sum') \
        else st.sampled_from([1, 2, 3])
    spec = draw(nets.net_specs(max_layers=4, kinds=kinds, T=T, B=B,
                               allow=allow))
    if train:
        for l in spec['layers']:
            if l['t'] == 'Dropout':
                l['kw']['drop_prob'] = 0.0
    spec['mode'], spec['train'] = mode, train
    spec['fresh'] = draw(st.booleans())
    T, B = spec['T'], spec['B']
    if mode == 'items':
        spec['idx'] = draw(st.lists(st.integers(0, B - 1), min_size=1,
                                    max_size=B + 2))
    elif mode == 'replace':
        spec['idx'] = draw(st.lists(st.integers(0, B - 1), min_size=1,
                                    max_size=B - 1, unique=True))
        spec['big'] = draw(st.sampled_from([0, 0, 1, 2]))
    elif mode == 'future':
        spec['t0'] = draw(st.integers(1, T - 1))
        spec['cut'] = draw(st.booleans())
        spec['big'] = draw(st.sampled_from([0, 0, 1, 2]))
    elif mode == 'steps':
        T2, B2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        spec['grid'] = [T2, B2]
        spec['pos'] = draw(st.lists(st.integers(0, T * B - 1),
                                    min_size=T2 * B2, max_size=T2 * B2))
    return spec


def strategy():
    return _case()


def run(net, inputs, train):
    net.provide_external_data(inputs)
    net.forward_pass(training_pass=train)
    if train:
        net.backward_pass()


def snapshot(net, spec, T, train):
    """All per-position values: {(section, layer, name): array (T, B, ..)}"""
    res = {}
    for n in [l['n'] for l in spec['layers']] + ['Input']:
        for sec in ('outputs', 'output_deltas', 'input_deltas'):
            if sec != 'outputs' and not train or n == 'Input' and \
                    sec == 'input_deltas':
                continue
            t = [l['t'] for l in spec['layers'] if l['n'] == n]
            if sec in ('outputs', 'output_deltas') and t == ['Loss']:
                continue
            if sec == 'input_deltas' and t == ['Loss'] and any(
                    s[1].startswith('..') for l in spec['layers']
                    if l['n'] == n for s in l['in']['default']):
                continue
            for k in net.buffer[n][sec].keys():
                a = net.get('%s.%s.%s' % (n, sec, k))
                res[(sec, n, k)] = a[:T]
    return res


def compare(first, second, f, g, what, scale=1.0):
    """f selects from the first run, g from the second."""
    for key in sorted(first):
        a, b = f(first[key]), g(second[key])
        if key[0] != 'outputs':
            b = b * scale
        tol = 1e-10 * max(1.0, float(np.abs(a).max()) if a.size else 0.0)
        ensure(nets.close(b, a, 1e-8, tol), '%s: %s.%s.%s: %s', what, key[1],
               key[0], key[2], nets.describe_diff(b, a))


def other(spec, inputs, rnd, keep, big):
    """Replace everything outside the boolean (T, B) mask `keep`."""
    new = nets.draw_inputs(spec, rnd, scale=[1.0, 100.0, 3e4][int(big)])
    return {k: np.where(keep.reshape(keep.shape + (1,) * (v.ndim - 2)), v,
                        new[k]) for k, v in inputs.items()}


def check(spec):
    net, orders, params, inputs, rnd = nets.prepare(spec)
    T, B, mode, train = spec['T'], spec['B'], spec['mode'], spec['train']
    run(net, inputs, train)
    first = snapshot(net, spec, T, train)
    if spec['fresh']:
        net2 = nets.build(spec)
        nets.set_params(net2, params)
    else:
        net2 = net
    lab = {'mode': mode, 'train': train, 'T': min(T, 3), 'B': min(B, 3)}
    if mode == 'items':
        idx = spec['idx']
        run(net2, {k: v[:, idx] for k, v in inputs.items()}, train)
        second = snapshot(net2, spec, T, train)
        compare(first, second, lambda a: a[:, idx], lambda b: b,
                'batch made of items %s of a batch of %d' % (idx, B),
                len(idx) / float(B))
        lab['moved'] = idx != list(range(B))
    elif mode == 'replace':
        idx = spec['idx']
        keep = np.zeros((T, B), bool)
        keep[:, idx] = True
        run(net2, other(spec, inputs, rnd, keep, spec['big']), train)
        second = snapshot(net2, spec, T, train)
        compare(first, second, lambda a: a[:, idx], lambda b: b[:, idx],
                'all items but %s of %d replaced' % (idx, B))
        lab['moved'] = True
    elif mode == 'future':
        t0 = spec['t0']
        if spec['cut']:
            run(net2, {k: v[:t0] for k, v in inputs.items()}, train)
            second = snapshot(net2, spec, t0, train)
        else:
            keep = np.zeros((T, B), bool)
            keep[:t0] = True
            run(net2, other(spec, inputs, rnd, keep, spec['big']), train)
            second = snapshot(net2, spec, T, train)
        compare(first, second, lambda a: a[:t0], lambda b: b[:t0],
                'inputs from step %d of %d on %s' % (
                    t0, T, 'cut away' if spec['cut'] else 'replaced'))
        lab['moved'] = True
    elif mode == 'steps':
        T2, B2 = spec['grid']
        pos = spec['pos']

        def regrid(a):
            f = a.reshape((T * B,) + a.shape[2:])
            return f[pos].reshape((T2, B2) + a.shape[2:])

        run(net2, {k: regrid(v) for k, v in inputs.items()}, train)
        second = snapshot(net2, spec, T2, train)
        compare(first, second, regrid, lambda b: b, 'positions %s of a '
                '%dx%d batch as a %dx%d batch' % (pos, T, B, T2, B2),
                B2 / float(B))
        lab['moved'] = True
    else:
        names = [(n, p) for n, d in sorted(nets.param_shapes(net).items())
                 for p in sorted(d)]
        total = {k: B * net.get('%s.gradients.%s' % k) for k in names}
        got = {k: 0.0 for k in names}
        loss = B * float(net.get_loss_values()['total_loss'])
        parts = 0.0
        size = {k: np.abs(v).max() if v.size else 0.0
                for k, v in total.items()}
        for b in range(B):
            run(net2, {k: v[:, b:b + 1] for k, v in inputs.items()}, True)
            parts += float(net2.get_loss_values()['total_loss'])
            for k in names:
                g = net2.get('%s.gradients.%s' % k)
                got[k] = got[k] + g
                if g.size:
                    size[k] = max(size[k], np.abs(g).max())
        for k in names:
            ensure(nets.close(got[k], total[k], 1e-8, 1e-10 * max(
                1.0, size[k]) * B), 'gradient of %s.%s: the mean over %d '
                'single items differs from that of the batch: %s', k[0],
                k[1], B, nets.describe_diff(got[k], total[k]))
        ensure(abs(loss - parts) <= 1e-8 * (1 + abs(loss)) or
               _cancelling(first, spec, loss, parts), 'the losses of %d '
               'single items sum to %r, the batch has %d * loss = %r', B,
               parts, B, loss)
        lab['moved'] = True
    for k in nets.spec_kinds(spec):
        lab['layer:' + k] = 1
    return lab


def _cancelling(first, spec, a, b):
    """Large loss terms of opposite signs may cancel."""
    top = max([1.0] + [float(np.abs(v).sum()) for v in first.values()])
    return abs(a - b) <= 1e-9 * top * 10


def nontrivial(spec, labels):
    return bool(labels.get('moved')) and spec['T'] * spec['B'] > 1
