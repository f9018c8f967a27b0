"""C26: masked positions have no influence on losses, scores, gradients."""
import copy

import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from pbt import nets
from pbt.core import ensure
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.scorers import Accuracy, Hamming, MeanSquaredError
from brainstorm.training.steppers import MomentumStepper, SgdStepper

ID = 'C26'
QUICK, THOROUGH = 5000, 100000
RULE = ('Random networks whose losses are all behind a mask layer (masks of '
        'every accepted shape, 0/1 or weighted; sequence tails for recurrent '
        'networks, arbitrary positions otherwise, single features where only '
        'targets change). Relations: other contents at the masked positions; '
        'the masked tail cut away; every item alone, cut to its length; an '
        'all-ones mask against no mask layer; an all-zero mask; whole '
        'training runs and evaluations over padded data against other '
        'padding, against batches cut by the iterator and (scores) against '
        'the data without fully masked sequences. Non-trivial: some '
        'position is masked (or the all-ones relation).')
ASSUMPTIONS = ['masked positions hold finite numbers, and valid class '
               'indices in class targets', 'no batch statistics; dropout '
               'with probability 0', 'at least one time step is left when '
               'batches are cut']

BODY = ['FullyConnected', 'FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
        'ClockworkLstm', 'Convolution2D', 'Pooling2D', 'Dropout',
        'Elementwise', 'NoOp', 'DeltasScaling', 'Highway', 'Merge', 'Mask',
        'SquaredDifference']
HEADS = ['SoftmaxCE', 'SigmoidCE', 'SquaredError', 'BinomialCrossEntropy',
         'Loss', 'L1Decay', 'L2Decay', 'MaskL2', 'SquaredDifference']


@st.composite
def _case(draw):
    mode = draw(st.sampled_from(['content', 'content', 'cut', 'items',
                                 'ones', 'zero', 'train', 'train', 'eval']))
    train = mode in ('train', 'eval')
    spec = draw(nets.net_specs(
        max_layers=3, kinds=BODY, heads=False,
        T=st.sampled_from([1, 2, 3, 4, 6]),
        B=st.sampled_from([1, 2, 3, 5, 7]) if train else None))
    for l in spec['layers']:
        if l['t'] == 'Dropout':
            l['kw']['drop_prob'] = 0.0
    rec = nets.is_recurrent(spec)
    tails = rec or mode in ('cut', 'items') or draw(st.booleans())
    heads = []
    body = list(spec['layers'])
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        l = body[draw(st.integers(0, len(body) - 1))]
        t = draw(st.sampled_from(HEADS[:3] if mode == 'eval' else HEADS))
        src = [l['n'], 'default']
        if t in HEADS[:4]:
            size = draw(st.sampled_from([[1], [2], [3], [2, 2], [1, 2, 3]]))
            act = 'sigmoid' if t == 'BinomialCrossEntropy' else 'linear'
            spec['layers'].append({
                'n': 'proj%d' % i, 't': 'FullyConnected', 'in': {
                    'default': [src]}, 'kw': {'size': size,
                                              'activation': act}})
            tsh = size[:-1] + [1] if t == 'SoftmaxCE' else size
            spec['inputs']['tgt_%d' % i] = tsh
            spec['layers'].append({
                'n': 'head%d' % i, 't': t, 'kw': {}, 'in': {
                    'default': [['proj%d' % i, 'default']],
                    'targets': [['Input', 'tgt_%d' % i]]}})
            src = ['head%d' % i, 'default' if t == 'BinomialCrossEntropy'
                   else 'loss']
            sh = [1] if t == 'BinomialCrossEntropy' else tsh
        elif t in ('L1Decay', 'L2Decay', 'SquaredDifference'):
            ins = {'default': [src]} if t[0] == 'L' else {
                'inputs_1': [src], 'inputs_2': [src]}
            if t[0] == 'S':
                cands = [b for b in body if nets.out_shape(
                    spec, [b['n'], 'default']) == nets.out_shape(spec, src)]
                b = cands[draw(st.integers(0, len(cands) - 1))]
                ins['inputs_2'] = [[b['n'], 'default']]
            spec['layers'].append({'n': 'head%d' % i, 't': t, 'kw': {},
                                   'in': ins})
            src = ['head%d' % i, 'loss' if t[0] == 'L' else 'default']
            sh = list(nets.out_shape(spec, src))
        else:
            sh = list(nets.out_shape(spec, src))
        msh = draw(st.sampled_from([[1], sh[:-1] + [1], sh]))
        if mode in ('train', 'eval'):
            msh = [1]
        spec['inputs']['maskq%d' % i] = msh
        spec['layers'].append({
            'n': 'mask_%d' % i, 't': 'Mask', 'kw': {}, 'in': {
                'default': [src], 'mask': [['Input', 'maskq%d' % i]]}})
        src = ['mask_%d' % i, 'default']
        if t == 'MaskL2':
            spec['layers'].append({'n': 'head%d' % i, 't': 'L2Decay',
                                   'in': {'default': [src]}, 'kw': {}})
            src = ['head%d' % i, 'loss']
        spec['layers'].append({'n': 'lossq%d' % i, 't': 'Loss', 'kw': {
            'importance': draw(st.sampled_from([1.0, 0.5, -2.0]))},
            'in': {'default': [src]}})
        heads.append({'t': t, 'feat': mode == 'content' and msh == sh and
                      t in ('SigmoidCE', 'SquaredError') and draw(
                          st.booleans())})
    spec.update(mode=mode, tails=tails, heads=heads,
                weights=draw(st.integers(0, 3)) == 0,
                scale=draw(st.sampled_from([1.0, 30.0, 2e4])),
                fresh=draw(st.booleans()))
    if mode in ('train', 'eval'):
        spec['bs'] = draw(st.integers(1, spec['B']))
        spec['shuffle'] = draw(st.booleans())
        spec['cut'] = draw(st.booleans())
        spec['gone'] = draw(st.booleans())
        spec['step'] = draw(st.sampled_from(['sgd', 'momentum']))
        spec['epochs'] = draw(st.integers(1, 2))
    return spec


def strategy():
    return _case()


def draw_masks(spec, rnd):
    """({mask input: array}, lens) and the (T, B) map of live positions."""
    T, B = spec['T'], spec['B']
    data = {}
    live = np.zeros((T, B), bool)
    low = 1 if spec['mode'] in ('train', 'eval', 'items') else 0
    if spec['mode'] == 'eval' and spec.get('gone') and not spec['cut']:
        low = 0     # sequences that are masked altogether
    lens = rnd.randint(low, T + 1, size=B)
    if spec['mode'] == 'eval':
        lens[0] = max(1, lens[0])
    if spec['mode'] == 'cut' and lens.max() == 0:
        lens[rnd.randint(B)] = 1
    if spec['mode'] == 'cut' and T > 1 and lens.max() == T:
        lens = np.minimum(lens, T - 1)
    for i, h in enumerate(spec['heads']):
        if spec['tails']:
            ln = lens if i == 0 else np.minimum(
                lens, rnd.randint(low, T + 1, size=B))
            if spec['mode'] == 'eval':
                ln[0] = max(1, ln[0])
            pos = np.arange(T)[:, None] < ln[None, :]
        else:
            pos = rnd.uniform(size=(T, B)) < 0.5
            if spec['mode'] in ('train', 'eval'):
                pos[0] = True
        if spec['mode'] == 'ones':
            pos[...] = True
        if spec['mode'] == 'zero':
            pos[...] = False
        live |= pos
        sh = spec['inputs']['maskq%d' % i]
        m = pos.reshape((T, B) + (1,) * len(sh)).astype(float) * np.ones(sh)
        if h['feat']:
            m = m * (rnd.uniform(size=m.shape) < 0.7)
        if spec['weights'] and spec['mode'] not in ('ones',):
            m = m * rnd.choice([1.0, 0.5, 2.0], size=m.shape)
        data['maskq%d' % i] = m
    return data, lens, live


def draw_targets(spec, rnd):
    T, B = spec['T'], spec['B']
    res = {}
    for i, h in enumerate(spec['heads']):
        n = 'tgt_%d' % i
        if n not in spec['inputs']:
            continue
        shape = (T, B) + tuple(spec['inputs'][n])
        if h['t'] == 'SoftmaxCE':
            l = [l for l in spec['layers'] if l['n'] == 'proj%d' % i][0]
            res[n] = rnd.randint(0, l['kw']['size'][-1],
                                 size=shape).astype(float)
        elif h['t'] == 'SquaredError':
            res[n] = rnd.normal(size=shape)
        else:
            res[n] = rnd.randint(0, 2, size=shape).astype(float)
    return res


def draw_all(spec, rnd):
    body = {k: v for k, v in spec['inputs'].items()
            if not k.startswith(('tgt_', 'maskq'))}
    data = nets.draw_inputs(dict(spec, inputs=body), rnd)
    data.update(draw_targets(spec, rnd))
    masks, lens, live = draw_masks(spec, rnd)
    data.update(masks)
    return data, lens, live


def change(spec, data, live, rnd):
    """Other contents at masked positions."""
    new = dict(data)
    body = {k: v for k, v in spec['inputs'].items()
            if not k.startswith(('tgt_', 'maskq'))}
    other = nets.draw_inputs(dict(spec, inputs=body), rnd,
                             scale=spec['scale'])
    for k in body:
        a = data[k]
        keep = live.reshape(live.shape + (1,) * (a.ndim - 2))
        new[k] = np.where(keep, a, other[k])
    ot = draw_targets(spec, rnd)
    for i, h in enumerate(spec['heads']):
        n = 'tgt_%d' % i
        if n not in ot:
            continue
        a, m = data[n], data['maskq%d' % i] != 0
        if h['feat']:
            new[n] = np.where(m, a, ot[n] * (
                spec['scale'] if h['t'] == 'SquaredError' else 1))
            continue
        m = m.reshape(m.shape[:2] + (-1,))
        # masks that are finer than positions are constant or feature-wise
        pos = m.any(axis=-1).reshape(m.shape[:2] + (1,) * (a.ndim - 2))
        new[n] = np.where(pos, a, ot[n] * (
            spec['scale'] if h['t'] == 'SquaredError' else 1))
    return new


def run(net, data):
    net.provide_external_data(data)
    net.forward_pass(training_pass=True)
    net.backward_pass()
    return ({k: float(v) for k, v in net.get_loss_values().items()},
            {(n, p): net.get('%s.gradients.%s' % (n, p))
             for n, d in nets.param_shapes(net).items() for p in d})


def compare(a, b, size, what):
    """a, b: (losses, gradients)"""
    for k in a[0]:
        ensure(k in b[0] and abs(a[0][k] - b[0][k]) <= 1e-9 * (
            size + abs(a[0][k])), '%s: loss %s is %r, before %r', what, k,
            b[0].get(k), a[0][k])
    top = max([1.0] + [float(np.abs(g).max()) for g in a[1].values()
                       if g.size])
    for k in sorted(a[1]):
        ensure(nets.close(b[1][k], a[1][k], 1e-7, 1e-9 * top), '%s: gradient '
               'of %s.%s: %s', what, k[0], k[1],
               nets.describe_diff(b[1][k], a[1][k]))


def magnitude(net, spec):
    """Sum of absolute loss contributions, for cancellation."""
    s = 1.0
    for i in range(len(spec['heads'])):
        s += float(np.abs(net.get('mask_%d.outputs.default' % i)).sum()) * 2
    return s


def unmasked_spec(spec):
    s = copy.deepcopy({k: spec[k] for k in ('inputs', 'layers', 'T', 'B',
                                            'seed')})
    for i in range(len(spec['heads'])):
        m = [l for l in s['layers'] if l['n'] == 'mask_%d' % i][0]
        src = m['in']['default'][0]
        s['layers'].remove(m)
        for l in s['layers']:
            for k, v in l['in'].items():
                l['in'][k] = [src if x == ['mask_%d' % i, 'default'] else x
                              for x in v]
        del s['inputs']['maskq%d' % i]
    return s


def second(spec, net, params):
    if not spec['fresh']:
        return net
    n = nets.build(spec)
    nets.set_params(n, params)
    return n


def check(spec):
    mode = spec['mode']
    net, orders, params, _, rnd = nets.prepare(spec)
    data, lens, live = draw_all(spec, rnd)
    lab = {'mode': mode, 'masked': not live.all() or any(
        (data['maskq%d' % i] == 0).any() for i in range(len(spec['heads'])))}
    for k in nets.spec_kinds(spec):
        lab['layer:' + k] = 1
    if mode in ('train', 'eval'):
        check_train(spec, params, data, lens, live, rnd)
        return lab
    first = run(net, data)
    size = magnitude(net, spec)
    if mode == 'content':
        for n in spec['inputs']:
            # nothing flows into fully masked positions
            if n.startswith(('tgt_', 'maskq')):
                continue
            d = net.get('Input.output_deltas.' + n)
            dead = d[~live]
            ensure(not dead.size or np.all(dead == 0), 'masked positions '
                   'receive deltas for %s: %s', n, dead[dead != 0][:3])
        net2 = second(spec, net, params)
        got = run(net2, change(spec, data, live, rnd))
        compare(first, got, size, 'other contents at masked positions')
    elif mode == 'cut':
        n = int(lens.max())
        net2 = second(spec, net, params)
        got = run(net2, {k: v[:n] for k, v in data.items()})
        compare(first, got, size, 'masked tail after %d of %d steps cut away'
                % (n, spec['T']))
    elif mode == 'items':
        B = spec['B']
        net2 = second(spec, net, params)
        losses = dict.fromkeys(first[0], 0.0)
        grads = {k: np.zeros_like(v) for k, v in first[1].items()}
        for b in range(B):
            l, g = run(net2, {k: v[:lens[b], b:b + 1]
                              for k, v in data.items()})
            for k in losses:
                losses[k] += l[k] / B
            for k in grads:
                grads[k] += g[k] / B
        compare(first, (losses, grads), size, 'mean over the items, each cut '
                'to its length (%s)' % lens.tolist())
    elif mode == 'ones':
        s = unmasked_spec(spec)
        n2 = nets.build(s)
        nets.set_params(n2, params)
        got = run(n2, {k: v for k, v in data.items() if k in s['inputs']})
        compare(got, first, size, 'an all-ones mask against no mask')
    else:
        ensure(all(v == 0 for v in first[0].values()), 'losses behind an '
               'all-zero mask: %s', first[0])
        for k, g in first[1].items():
            ensure(np.all(g == 0), 'gradient of %s.%s behind an all-zero '
                   'mask: %s', k[0], k[1], g.tolist())
    return lab


SCORER = {'SoftmaxCE': Accuracy, 'SigmoidCE': Hamming,
          'SquaredError': MeanSquaredError}


def check_train(spec, params, data, lens, live, rnd):
    cut = spec['cut'] and spec['tails']
    variants = [('the same data', data, False)]
    changed = change(spec, data, live, rnd)
    variants.append(('other contents at masked positions', changed, False))
    if cut:
        variants.append(('batches cut to their longest sequence', data, True))
        variants.append(('batches cut, other padding', changed, True))
    some = live.any(0)
    if spec['mode'] == 'eval' and not some.all():
        variants.append(('the data without masked sequences', {
            k: v[:, some] for k, v in data.items()}, False))
    base = None
    for what, d, c in variants:
        net = nets.build(spec)
        nets.set_params(net, params)
        bs.global_rnd.set_seed(spec['seed'] % 1000)
        it = Minibatches(spec['bs'], spec['shuffle'],
                         cut_according_to='maskq0' if c else None, **d)
        it.rnd.set_seed(spec['seed'] % 1000)
        if spec['mode'] == 'train':
            step = SgdStepper(1e-3) if spec['step'] == 'sgd' else MomentumStepper(
                1e-3, 0.9)
            tr = bs.Trainer(step, verbose=False)
            tr.add_hook(bs.hooks.StopAfterEpoch(spec['epochs']))
            tr.train(net, it)
            res = nets.load_params(net)
            if base is None:
                base = res
                top = max([1.0] + [float(np.abs(v).max()) for x in
                                   res.values() for v in x.values()])
                if not top < 1e6:
                    return
                continue
            for n in base:
                for p in base[n]:
                    ensure(nets.close(res[n][p], base[n][p], 1e-7,
                                      1e-9 * top), 'training on %s gives '
                           'other parameters %s.%s: %s', what, n, p,
                           nets.describe_diff(res[n][p], base[n][p]))
        else:
            sc = []
            for i, h in enumerate(spec['heads']):
                sc.append(SCORER[h['t']](
                    out_name='head%d.outputs.predictions' % i,
                    targets_name='tgt_%d' % i, mask_name='maskq%d' % i,
                    name='s%d' % i))
            # scorers take one mask value per row of the flattened scores
            sc = [s for i, s in enumerate(sc)
                  if len(spec['inputs']['tgt_%d' % i]) == 1]
            res = bs.tools.evaluate(net, it, sc)
            if base is None:
                base = res
                continue
            ensure(list(res) == list(base), 'evaluate returns %s and %s',
                   list(res), list(base))
            for k in base:
                if 'without' in what and k not in [x.__name__ for x in sc]:
                    continue    # losses are averages over all sequences
                a, b = float(base[k]), float(res[k])
                ensure(abs(a - b) <= 1e-8 * (1 + abs(a)), 'evaluation on %s '
                       'gives %s = %r, before %r', what, k, b, a)


def nontrivial(spec, labels):
    return bool(labels.get('masked')) or spec['mode'] == 'ones'
