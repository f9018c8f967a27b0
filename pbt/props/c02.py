"""C02: forward pass equals the composed layer definitions."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
from pbt.ref import RefNet
from brainstorm.handlers import NumpyHandler

ID = 'C02'
QUICK, THOROUGH = 6000, 120000
RULE = ('Random layer graphs (all layer types, fan-out, concatenated inputs, '
        'several losses) with random parameters and batches; every layer '
        'output, loss value, running statistic of the real network is '
        'compared with an independent numpy reference. Non-trivial: at least '
        'two layers and more than one (time, item) position, or a dropout '
        'frequency case.')
ASSUMPTIONS = [
    'inputs fed by several sources have one feature dimension (see known '
    'finding of C05)',
    'dropout masks are read from the layer (their frequency is checked '
    'separately)']


@st.composite
def _graph(draw):
    spec = draw(nets.net_specs(max_layers=5))
    spec['kind'] = 'net'
    spec['train'] = draw(st.booleans())
    spec['f32'] = draw(st.integers(0, 4)) == 0
    spec['warm'] = draw(st.sampled_from([0, 0, 1, 2]))
    spec['scale'] = draw(st.sampled_from([1.0, 1.0, 0.1, 4.0]))
    return spec


@st.composite
def _drop(draw):
    return {'kind': 'drop', 'p': draw(st.sampled_from(
        [0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95])),
        'T': draw(st.sampled_from([1, 1, 2, 3, 12])),
        'B': draw(st.sampled_from([1, 2, 3, 4, 11])),
        'n': draw(st.integers(300, 900)), 'image': draw(st.booleans()),
        'seed': draw(st.integers(0, 2 ** 31 - 1))}


def strategy():
    return st.integers(0, 24).flatmap(
        lambda i: _drop() if i == 0 else _graph())


def check_drop(spec):
    T, B, n, p = spec['T'], spec['B'], spec['n'], spec['p']
    feat = [n]
    if spec.get('image'):
        feat = [max(2, n // 60), 6, 10]
    net_spec = {'inputs': {'default': feat}, 'T': T, 'B': B,
                'seed': spec['seed'],
                'layers': [{'n': 'd', 't': 'Dropout', 'kw': {'drop_prob': p},
                            'in': {'default': [['Input', 'default']]}}]}
    net = nets.build(net_spec)
    net.handler.rnd.set_seed(spec['seed'])
    rnd = np.random.RandomState(spec['seed'])
    full = (T, B) + tuple(feat)
    x = rnd.uniform(1, 2, size=full) * rnd.choice([-1, 1], full)
    net.provide_external_data({'default': x})
    kept = []
    for _ in range(2):
        net.forward_pass(training_pass=True)
        y = net.get('d.outputs.default')
        r = y / x * (1 - p)
        on = np.abs(r) > 0.5
        ensure(np.allclose(r, on, atol=1e-9), 'dropout with drop_prob=%g '
               'gives output/input ratios other than 0 and 1/(1-p): %s', p,
               np.unique(np.round(y / x, 6))[:6].tolist())
        N = x.size
        sd = np.sqrt(N * p * (1 - p))
        ensure(abs((~on).sum() - N * p) <= 6.5 * sd + 1,
               'drop_prob=%g dropped %d of %d values', p, (~on).sum(), N)
        kept.append(on)
    ensure((kept[0] != kept[1]).any(), 'two training passes use the same '
           'dropout mask')
    # no dependence between positions: the masks of two time steps, items or
    # features agree as often as independent ones
    agree = p ** 2 + (1 - p) ** 2
    for axis, size in enumerate(full):
        for lag in sorted({1, 2, size // 2} & set(range(1, size))):
            pairs = np.moveaxis(on, axis, 0)
            same = (pairs[lag:] == pairs[:-lag])
            ensure(abs(same.sum() - same.size * agree) <=
                   4 * np.sqrt(same.size) + 1, 'dropout masks that are %d '
                   'apart on axis %d agree in %d of %d places, %d are '
                   'expected', lag, axis, same.sum(), same.size,
                   same.size * agree)
    net.forward_pass(training_pass=False)
    y = net.get('d.outputs.default')
    ensure(np.array_equal(y, x), 'dropout is not the identity in evaluation')
    return {'kind': 'drop'}


def check(spec):
    if spec['kind'] == 'drop':
        return check_drop(spec)
    f32 = spec['f32'] and not (set(nets.spec_kinds(spec)) & {
        'BatchNorm', 'SquaredDifference'})
    handler = NumpyHandler(np.float32 if f32 else np.float64)
    net, orders, params, inputs, rnd = nets.prepare(spec, handler=handler)
    inputs = nets.draw_inputs(spec, rnd, scale=spec['scale'])
    ref = RefNet(spec, orders)
    for i in range(spec['warm']):
        warm = nets.draw_inputs(spec, rnd, T=spec['T'] + 1 - i,
                                B=max(1, spec['B'] + 1 - 2 * i))
        net.provide_external_data(warm)
        net.forward_pass(training_pass=bool(i))
    nets.set_params(net, params)   # BatchNorm statistics
    net.provide_external_data(inputs)
    net.forward_pass(training_pass=spec['train'])
    masks = nets.dropout_masks(net, spec) if spec['train'] else {}
    if f32:
        inputs = {k: v.astype(np.float32).astype(np.float64)
                  for k, v in inputs.items()}
        params = {n: {p: v.astype(np.float32).astype(np.float64)
                      for p, v in d.items()} for n, d in params.items()}
    want = ref.run(params, inputs, spec['train'], masks)
    top = max([1.0] + [float(np.abs(v).max()) for d in
                       want['outputs'].values() for v in d.values()
                       if np.size(v)])
    if f32 and top > 1e3:
        return {'kind': 'skipped'}
    rtol, atol = (2e-3, 1e-3) if f32 else (1e-7, 1e-8)
    nets.same_outputs(net, want['outputs'], spec, spec['T'], rtol, atol)
    for n in spec['inputs']:
        ensure(np.array_equal(nets.get_output(net, 'Input', n, spec['T']),
                              inputs[n].astype(handler.dtype)),
               'external input %s is not what was provided', n)
    # losses
    got = nets.loss_values(net)
    lay = sorted(want['losses'])
    expect = {} if len(lay) == 1 else dict(want['losses'])
    if len(lay) >= 1:
        expect['total_loss'] = want['total']
    ensure(set(got) == set(expect) or (not lay), 'get_loss_values gives '
           'entries %s, expected %s', sorted(got), sorted(expect))
    lscale = max([1.0] + [abs(float(v)) for v in want['losses'].values()])
    for k, v in expect.items():
        ensure(nets.close(got[k], float(v), rtol, atol * lscale * 10),
               'loss %s is %r, expected %r', k, got[k], float(v))
    # running statistics; other parameters unchanged
    now = nets.load_params(net)
    for n, d in params.items():
        for p, v in d.items():
            w = want['stats'].get(n, {}).get(p, v)
            if spec['train'] is False or n not in want['stats'] or \
                    p not in ('mu', 'sigma'):
                ensure(np.array_equal(now[n][p], v.astype(handler.dtype)),
                       'forward pass changed parameter %s.%s', n, p)
            else:
                ensure(nets.close(now[n][p], w, 1e-6, 1e-8),
                       'running statistic %s of %s: %s', p, n,
                       nets.describe_diff(now[n][p], w))
    labels = {'train': spec['train'], 'f32': f32}
    for k in nets.spec_kinds(spec):
        labels['layer:' + k] = 1
    return labels


def nontrivial(spec, labels):
    if spec['kind'] == 'drop':
        return True
    return labels.get('kind') != 'skipped' and len(spec['layers']) > 1 \
        and spec['T'] * spec['B'] > 1
