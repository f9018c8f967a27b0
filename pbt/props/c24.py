"""C24: extreme but finite inputs never give NaN or infinite results."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
from pbt.ref import RefNet, softmax, sigm
from brainstorm.handlers import NumpyHandler

ID = 'C24'
QUICK, THOROUGH = 16000, 300000
RULE = ('Four kinds of cases in float32 and float64: activation functions '
        'and their derivatives on arrays of extreme values; softmax and the '
        'three cross-entropy layers on extreme inputs (for the binomial one '
        'on probabilities including exact 0 and 1); batch normalisation on '
        'constant, single-item and far-offset batches; random networks on '
        'inputs of scale up to 1e4. Everything has to be finite, in its '
        'mathematical range, on the right side of saturation and, where it '
        'is well conditioned, equal to the formula. Non-trivial: some input '
        'magnitude is at least 50, or a degenerate batch.')
ASSUMPTIONS = [
    'the value at which cross-entropy losses are cut off is not claimed, '
    'only that they stay finite, large and monotone there',
    'networks: finiteness is required while the exact values fit the type']

SPECIAL = [0.0, -0.0, 1e-30, -1e-30, 1e-8, -1e-8, 0.5, -0.5, 1.0, -1.0, 5.0,
           -5.0, 16.0, -16.0, 17.5, -17.5, 20.0, -20.0, 37.0, -37.0, 50.0,
           -50.0, 87.0, -87.0, 88.5, -88.5, 89.0, -89.0, 104.0, -104.0,
           350.0, -350.0, 500.0, -500.0, 709.0, -709.0, 710.0, -710.0, 745.0,
           -745.0, 750.0, -750.0, 1e3, -1e3, 1e4, -1e4]
VALUE = st.one_of(st.sampled_from(SPECIAL),
                  st.floats(-1e4, 1e4, width=32), st.floats(-30, 30, width=32))
SEED = st.integers(0, 2 ** 31 - 1)


@st.composite
def _act(draw):
    return {'kind': 'act', 'f': draw(st.sampled_from(
        ['rel', 'tanh', 'sigmoid', 'el'])), 'f32': draw(st.booleans()),
        'via': draw(st.sampled_from(['handler', 'Elementwise',
                                     'FullyConnected', 'Convolution2D',
                                     'Recurrent', 'Lstm'])),
        'x': draw(st.lists(VALUE, min_size=1, max_size=12))}


@st.composite
def _ce(draw):
    t = draw(st.sampled_from(['SoftmaxCE', 'SoftmaxCE', 'SigmoidCE',
                              'BinomialCrossEntropy', 'softmax_m']))
    C = draw(st.integers(1, 5))
    n = draw(st.integers(1, 4))
    if t == 'BinomialCrossEntropy':
        el = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-7, 1e-30, 1 - 1e-7,
                                        1e-6, 1e-5, 1 - 1e-5]),
                       st.floats(0, 1, width=32))
    else:
        el = VALUE
    return {'kind': 'ce', 't': t, 'C': C, 'n': n, 'f32': draw(st.booleans()),
            'img': draw(st.integers(0, 4)) == 0,
            'x': draw(st.lists(el, min_size=n * C, max_size=n * C)),
            'soft': draw(st.integers(0, 3)) == 0,
            'imp': draw(st.sampled_from([1.0, -1.0, 2.0])),
            'seed': draw(SEED)}


@st.composite
def _bn(draw):
    return {'kind': 'bn', 'f32': draw(st.booleans()),
            'T': draw(st.integers(1, 3)), 'B': draw(st.integers(1, 4)),
            'F': draw(st.integers(1, 3)),
            'offset': draw(st.lists(VALUE, min_size=3, max_size=3)),
            'spread': draw(st.sampled_from([0.0, 0.0, 1e-12, 1e-6, 1.0,
                                            1e4])),
            'eps': draw(st.sampled_from([1e-5, 1e-5, 1e-3, 0.1])),
            'decay': draw(st.sampled_from([0.9, 0.0, 1.0])),
            'rep': draw(st.integers(1, 3)), 'seed': draw(SEED)}


@st.composite
def _net(draw):
    spec = draw(nets.net_specs(max_layers=4))
    spec['kind'] = 'net'
    spec['f32'] = draw(st.booleans())
    spec['scale'] = draw(st.sampled_from([1e4, 1e4, 1e3, 100.0]))
    spec['train'] = draw(st.booleans())
    return spec


def strategy():
    return st.integers(0, 9).flatmap(
        lambda i: _act() if i < 3 else _ce() if i < 6 else
        _bn() if i < 8 else _net())


def finite(a, what, *args):
    a = np.asarray(a)
    if not np.all(np.isfinite(a)):
        ensure(False, what + ' is not finite: %s', *(args + (
            a.ravel()[~np.isfinite(a.ravel())][:3].tolist(),)))


RANGE = {'rel': (0, np.inf), 'tanh': (-1, 1), 'sigmoid': (0, 1),
         'el': (-1, np.inf)}
FORM = {'rel': lambda x: np.maximum(x, 0), 'tanh': np.tanh, 'sigmoid': sigm,
        'el': lambda x: np.where(x >= 0, x, np.expm1(np.minimum(x, 0)))}
DERIV = {'rel': lambda x, y: (x > 0) * 1.0,
         'tanh': lambda x, y: 1 - np.tanh(x) ** 2,
         'sigmoid': lambda x, y: sigm(x) * sigm(-x),
         'el': lambda x, y: np.where(x >= 0, 1, np.exp(np.minimum(x, 0)))}


def check_act(spec):
    dt = np.float32 if spec['f32'] else np.float64
    h = NumpyHandler(dt)
    f, via = spec['f'], spec['via']
    x = np.array(spec['x'], dtype=dt)
    n = len(x)
    dy = np.where(np.arange(n) % 2, -2.0, 1.5).astype(dt)
    exact = x.astype(np.float64)
    eps = float(np.finfo(dt).eps)
    if via == 'handler':
        y, dx = np.full(n, np.nan, dt), np.full(n, np.nan, dt)
        getattr(h, f)(x, y)
        getattr(h, f + '_deriv')(x, y, dy, dx)
    else:
        # the value reaches the activation of the layer through unit weights
        t = via
        if via == 'Elementwise':
            l = {'n': 'l', 't': t, 'kw': {'activation': f}}
            shape = (n,)
        elif via == 'Convolution2D':
            l = {'n': 'l', 't': t, 'kw': {
                'num_filters': 1, 'kernel_size': [1, 1], 'activation': f}}
            shape = (n, 1, 1)
        else:
            l = {'n': 'l', 't': t, 'kw': {'size': n, 'activation': f}}
            shape = (n,)
        l['in'] = {'default': [['Input', 'default']]}
        dy[:] = 1.5
        ns = {'inputs': {'default': list(shape)}, 'T': 1, 'B': 1, 'layers': [
            l, {'n': 'loss', 't': 'Loss', 'kw': {'importance': 1.5},
                'in': {'default': [['l', 'default']]}}]}
        net = nets.build(ns, handler=h)
        for p, s in nets.param_shapes(net).get('l', {}).items():
            v = np.zeros(s)
            if p in ('W', 'Wz'):
                v = np.eye(n).reshape(s) if via != 'Convolution2D' else \
                    np.ones(s)
            net.buffer.l.parameters[p][...] = v
        net.provide_external_data({'default': x.reshape((1, 1) + shape)})
        net.forward_pass(training_pass=True)
        if via == 'Lstm':
            # cell = f(x)/2, output = f(cell)/2; the saturating gates
            y = net.get('l.outputs.default')[0, 0]
            net.backward_pass()
            finite(y, 'output of an Lstm with %s for inputs %s', f, spec['x'])
            want = FORM[f](FORM[f](exact) * 0.5) * 0.5
            ensure(nets.close(y, want, 64 * eps, 64 * eps), 'Lstm with %s '
                   'for inputs %s: %s', f, spec['x'],
                   nets.describe_diff(y, want))
            # saturated gates
            half = np.full(n, 0.5)
            net.buffer.l.parameters['Wz'][...] = 0
            net.buffer.l.parameters['bz'][...] = 0.5
            for g in 'ifo':
                net.buffer.l.parameters['W' + g][...] = np.eye(n)
                net.forward_pass(training_pass=True)
                gi = sigm(exact) if g == 'i' else half
                go = sigm(exact) if g == 'o' else half
                want = FORM[f](FORM[f](half) * gi) * go
                got = net.get('l.outputs.default')[0, 0]
                finite(got, 'output of an Lstm with gate %s fed %s', g,
                       spec['x'])
                ensure(nets.close(got, want, 64 * eps, 64 * eps), 'Lstm with '
                       'gate %s fed %s: %s', g, spec['x'],
                       nets.describe_diff(got, want))
                net.backward_pass()
                for p in nets.param_shapes(net)['l']:
                    finite(net.get('l.gradients.' + p), 'gradient of %s of '
                           'an Lstm with gate %s fed %s', p, g, spec['x'])
                net.buffer.l.parameters['W' + g][...] = 0
            return {'kind': 'act', 'f': f, 'via': via, 'f32': spec['f32']}
        y = net.get('l.outputs.default')[0, 0].reshape(-1)
        net.backward_pass()
        dx = net.get('Input.output_deltas.default')[0, 0].reshape(-1)
        for p in nets.param_shapes(net).get('l', {}):
            finite(net.get('l.gradients.' + p), 'gradient of %s of %s with '
                   '%s for inputs %s', p, via, f, spec['x'])
    finite(y, '%s via %s of %s', f, via, spec['x'])
    finite(dx, 'derivative of %s via %s at %s', f, via, spec['x'])
    lo, hi = RANGE[f]
    ensure(np.all((y >= lo) & (y <= hi)), '%s via %s of %s leaves its range: '
           '%s', f, via, spec['x'], y.tolist())
    want = FORM[f](exact)
    # FullyConnected sums up n products with zeros: exact
    ensure(nets.close(y, want, 8 * eps, 8 * eps), '%s via %s of %s: %s',
           f, via, spec['x'], nets.describe_diff(y, want))
    want = DERIV[f](exact, y) * dy
    ok = nets.close(dx, want, 16 * eps, 16 * eps)
    if not ok and f == 'el':
        # one-sided derivatives at 0 agree anyway
        ok = nets.close(dx, want, 64 * eps, 64 * eps)
    if not ok and f == 'rel':
        ok = nets.close(dx[exact != 0], want[exact != 0], 16 * eps, 16 * eps)
    ensure(ok, 'derivative of %s via %s at %s: %s', f, via, spec['x'],
           nets.describe_diff(dx, want))
    return {'kind': 'act', 'f': f, 'via': via, 'f32': spec['f32']}


def check_softmax_rows(p, x, eps, what):
    """p = softmax(x) by row."""
    finite(p, what + ': softmax of %s', x.tolist())
    p = np.asarray(p, dtype=np.float64)
    ensure(np.all((p >= 0) & (p <= 1 + 4 * eps)), '%s: softmax of %s leaves '
           '[0, 1]: %s', what, x.tolist(), p.tolist())
    ensure(np.all(np.abs(p.sum(-1) - 1) <= 16 * eps), '%s: softmax of %s '
           'sums to %s', what, x.tolist(), p.sum(-1).tolist())
    # rounding of differences of large values in the type itself
    want = softmax(x)
    ensure(nets.close(p, want, 64 * eps * (1 + np.ptp(x, axis=-1).max()),
                      64 * eps), '%s: softmax of %s: %s', what, x.tolist(),
           nets.describe_diff(p, want))
    for r in range(len(x)):
        o = np.argsort(x[r], kind='stable')
        ensure(np.all(np.diff(p[r][o]) >= -4 * eps), '%s: softmax of %s is '
               'not monotone: %s', what, x[r].tolist(), p[r].tolist())


def check_ce(spec):
    dt = np.float32 if spec['f32'] else np.float64
    eps = float(np.finfo(dt).eps)
    h = NumpyHandler(dt)
    n, C, t = spec['n'], spec['C'], spec['t']
    x = np.array(spec['x'], dtype=dt).reshape(n, C)
    ex = x.astype(np.float64)
    lab = {'kind': 'ce', 't': t, 'f32': spec['f32']}
    if t == 'softmax_m':
        out = np.full((n, C), np.nan, dt)
        h.softmax_m(x, out)
        check_softmax_rows(out, ex, eps, 'handler')
        return lab
    rnd = np.random.RandomState(spec['seed'])
    if t == 'SoftmaxCE':
        tgt = rnd.randint(0, C, size=(n, 1)).astype(float)
    else:
        tgt = rnd.uniform(size=(n, C)) if spec['soft'] else \
            rnd.randint(0, 2, size=(n, C)).astype(float)
    fs = [C]
    ts = list(tgt.shape[1:])
    if spec['img']:
        fs = [1] + fs
        ts = [1] + ts
    out = 'default' if t == 'BinomialCrossEntropy' else 'loss'
    lsh = {'SoftmaxCE': ts, 'SigmoidCE': fs, 'BinomialCrossEntropy': [1]}[t]
    ns = {'inputs': {'default': fs, 'tgt1': ts}, 'T': 1, 'B': n, 'layers': [
        {'n': 'h', 't': t, 'kw': {}, 'in': {
            'default': [['Input', 'default']], 'targets': [['Input',
                                                            'tgt1']]}},
        {'n': 'l', 't': 'Loss', 'kw': {'importance': spec['imp']},
         'in': {'default': [['h', out]]}}]}
    net = nets.build(ns, handler=h)
    net.provide_external_data({
        'default': x.reshape([1, n] + fs), 'tgt1': tgt.reshape([1, n] + ts)})
    net.forward_pass(training_pass=True)
    net.backward_pass()
    loss = net.get('h.outputs.' + out)[0].reshape(n, -1).astype(np.float64)
    dx = net.get('Input.output_deltas.default')[0].reshape(
        n, C).astype(np.float64)
    what = '%s on inputs %s with targets %s' % (t, ex.tolist(), tgt.tolist())
    finite(loss, '%s: loss', what)
    finite(dx, '%s: gradient', what)
    finite(float(nets.loss_values(net)['total_loss']), '%s: total loss', what)
    ensure(np.all(loss >= -8 * eps * C), '%s: negative loss %s', what,
           loss.tolist())
    tgt = tgt.astype(dt).astype(np.float64)
    share = spec['imp'] / n

    def nlogs(p, got, what2):
        """got should be -log p up to a cut-off"""
        good = p > 1e-5
        rel = 64 * eps / np.maximum(p, 1e-5) + 64 * eps
        ensure(np.all(np.abs(got + np.log(np.maximum(p, 1e-300)))[good] <=
                      rel[good]), '%s: %s, expected %s', what, got.tolist(),
               (-np.log(np.maximum(p, 1e-300))).tolist())
        ensure(np.all(got[~good] >= 11), '%s: losses %s for probabilities %s',
               what, got.tolist(), p.tolist())

    if t == 'SoftmaxCE':
        p = net.get('h.outputs.predictions')[0].reshape(n, C)
        check_softmax_rows(p, ex, eps, t)
        ti = tgt.astype(int)
        sel = np.take_along_axis(softmax(ex), ti, -1)
        slack = np.ptp(ex, axis=-1).max()
        if slack < 1e3 or not spec['f32']:
            nlogs(sel, loss, what)
        want = (softmax(ex) - (np.arange(C) == ti)) * share
        ensure(nets.close(dx, want, 1e-5 if spec['f32'] else 1e-9,
                          256 * eps * (1 + slack)), '%s: gradient: %s', what,
               nets.describe_diff(dx, want))
    elif t == 'SigmoidCE':
        p = net.get('h.outputs.predictions')[0].reshape(n, C)
        finite(p, '%s: predictions', what)
        ensure(np.all((p >= 0) & (p <= 1)), '%s: predictions %s', what,
               p.tolist())
        ensure(nets.close(p, sigm(ex), 8 * eps, 8 * eps), '%s: predictions: '
               '%s', what, nets.describe_diff(p, sigm(ex)))
        for v in (0, 1):
            hit = tgt == v
            if hit.any():
                nlogs((sigm(ex) if v else sigm(-ex))[hit], loss[hit], what)
        want = (sigm(ex) - tgt) * share
        ensure(nets.close(dx, want, 64 * eps, 64 * eps), '%s: gradient: %s',
               what, nets.describe_diff(dx, want))
    else:
        one = tgt == 1
        zero = tgt == 0
        if (one | zero).all() and C == 1:
            nlogs(np.where(one, ex, 1 - ex), loss, what)
        # direction of the gradient
        s = np.sign(ex - tgt) * np.sign(spec['imp'])
        ensure(np.all((np.sign(dx) == s) | (np.abs(ex - tgt) < 4 * eps)),
               '%s: gradient %s has the wrong sign', what, dx.tolist())
        v = ex * (1 - ex)
        good = v > 1e-4
        want = (ex - tgt) / np.where(good, v, 1) * share
        ensure(nets.close(dx[good], want[good], 1e4 * eps, 1e4 * eps),
               '%s: gradient: %s', what, nets.describe_diff(dx[good],
                                                            want[good]))
    return lab


def check_bn(spec):
    dt = np.float32 if spec['f32'] else np.float64
    eps = float(np.finfo(dt).eps)
    h = NumpyHandler(dt)
    T, B, F = spec['T'], spec['B'], spec['F']
    ns = {'inputs': {'default': [F]}, 'T': T, 'B': B, 'layers': [
        {'n': 'b', 't': 'BatchNorm', 'kw': {'epsilon': spec['eps'],
                                            'decay': spec['decay']},
         'in': {'default': [['Input', 'default']]}},
        {'n': 'l', 't': 'Loss', 'kw': {}, 'in': {'default': [['b',
                                                              'default']]}}]}
    net = nets.build(ns, handler=h)
    rnd = np.random.RandomState(spec['seed'])
    gamma, beta = rnd.uniform(-2, 2, F), rnd.uniform(-2, 2, F)
    nets.set_params(net, {'b': {'gamma': gamma, 'beta': beta,
                                'mu': np.zeros(F), 'sigma': np.ones(F)}})
    m = T * B
    constant = spec['spread'] == 0 or m == 1
    big = max(abs(v) for v in spec['offset'])
    for _ in range(spec['rep']):
        x = (np.array(spec['offset'][:F]) + spec['spread'] * rnd.normal(
            size=(T, B, F))).astype(dt)
        net.provide_external_data({'default': x})
        for train in (True, False):
            net.forward_pass(training_pass=train)
            y = net.get('b.outputs.default').astype(np.float64)
            finite(y, 'BatchNorm output for %s', spec)
            for p in ('mu', 'sigma'):
                finite(net.get('b.parameters.' + p), 'BatchNorm %s for %s',
                       p, spec)
            ensure(np.all(net.get('b.parameters.sigma') > 0),
                   'BatchNorm sigma %s is not positive for %s',
                   net.get('b.parameters.sigma').tolist(), spec)
            if train:
                bound = np.abs(gamma) * np.sqrt(m) * 1.001 + np.abs(beta)
                ensure(np.all(np.abs(y) <= bound + 1e-3 * spec['f32'] +
                              1e-9), 'BatchNorm output %s exceeds what '
                       'normalised values can be (%s) for %s', y.tolist(),
                       bound.tolist(), spec)
                noise = 8 * m * big * eps / np.sqrt(spec['eps'])
                if constant and noise < 0.1:
                    ensure(np.all(np.abs(y - beta) <= np.abs(gamma) * noise +
                                  8 * eps), 'BatchNorm output %s of a '
                           'constant batch is not beta %s for %s',
                           y.tolist(), beta.tolist(), spec)
                net.backward_pass()
                finite(net.get('Input.output_deltas.default'),
                       'BatchNorm input deltas for %s', spec)
                for p in ('gamma', 'beta'):
                    finite(net.get('b.gradients.' + p), 'BatchNorm gradient '
                           'of %s for %s', p, spec)
    return {'kind': 'bn', 'f32': spec['f32'], 'degenerate': constant}


def _all_values(net, spec):
    for n in [l['n'] for l in spec['layers']]:
        v = net.buffer[n]
        for sec in ('outputs', 'internals', 'input_deltas', 'output_deltas',
                    'parameters', 'gradients'):
            if sec in v:
                for k, a in v[sec].items():
                    yield '%s.%s.%s' % (n, sec, k), a
    v = net.buffer['Input']
    for k, a in v.output_deltas.items():
        yield 'Input.output_deltas.' + k, a


def run_net(spec, dt, params, inputs):
    net = nets.build(spec, handler=NumpyHandler(dt))
    net.handler.rnd.set_seed(spec['seed'])
    nets.set_params(net, params)
    net.provide_external_data(inputs)
    net.forward_pass(training_pass=True if spec['train'] else False)
    has_loss = any(l['t'] == 'Loss' for l in spec['layers'])
    needs = {'Dropout', 'BatchNorm'} & set(nets.spec_kinds(spec))
    if has_loss and (spec['train'] or not needs):
        net.backward_pass()
    return net


def check_net(spec):
    net, orders, params, inputs, rnd = nets.prepare(spec)
    inputs = nets.draw_inputs(spec, rnd, scale=spec['scale'])
    inputs = {k: np.clip(v, -1e4, 1e4) for k, v in inputs.items()}
    net = run_net(spec, np.float64, params, inputs)
    masks = nets.dropout_masks(net, spec) if spec['train'] else {}
    ref = RefNet(spec, orders).run(params, inputs, spec['train'], masks)
    top = max([1.0] + [float(np.abs(v).max()) for d in
                       ref['outputs'].values() for v in d.values()
                       if np.size(v)])
    lab = {'kind': 'net', 'f32': spec['f32'], 'train': spec['train']}
    if not top < 1e120:
        return {'kind': 'skipped'}
    for what, a in _all_values(net, spec):
        finite(a, '%s in float64 (largest exact output %g)', what, top)
    ranges(net, spec, 1e-12)
    if spec['f32']:
        top = max([top] + [float(np.abs(a).max()) for _, a in _all_values(
            net, spec) if a.size])
        if top < 1e15:
            n32 = run_net(spec, np.float32, params, inputs)
            for what, a in _all_values(n32, spec):
                finite(a, '%s in float32 (largest value in float64 %g)',
                       what, top)
            ranges(n32, spec, 1e-5)
        else:
            lab['f32'] = False
    for k in nets.spec_kinds(spec):
        lab['layer:' + k] = 1
    return lab


def ranges(net, spec, tol):
    T = spec['T']
    for l in spec['layers']:
        n, t = l['n'], l['t']
        if t in ('SoftmaxCE', 'SigmoidCE'):
            p = nets.get_output(net, n, 'predictions', T)
            ensure(np.all((p >= 0) & (p <= 1 + tol)), 'predictions of %s '
                   '(%s) outside [0, 1]: %s', n, t, p.tolist())
            if t == 'SoftmaxCE':
                s = p.sum(-1)
                ensure(np.all(np.abs(s - 1) <= tol), 'predictions of %s sum '
                       'to %s', n, s.tolist())
            lo = nets.get_output(net, n, 'loss', T)
            ensure(np.all(lo >= -tol), 'negative loss of %s', n)
        act = l['kw'].get('activation')
        if t in ('FullyConnected', 'Elementwise', 'Recurrent', 'Clockwork',
                 'Convolution2D') and act in RANGE:
            y = nets.get_output(net, n, 'default', T)
            lo, hi = RANGE[act]
            ensure(np.all((y >= lo) & (y <= hi)), '%s (%s) output outside '
                   'the range of %s', n, t, act)
        if t in ('Lstm', 'ClockworkLstm') and act in (None, 'tanh'):
            y = nets.get_output(net, n, 'default', T)
            ensure(np.all(np.abs(y) <= 1), '%s (%s) output outside [-1, 1]',
                   n, t)


def check(spec):
    with np.errstate(all='ignore'):
        return {'act': check_act, 'ce': check_ce, 'bn': check_bn,
                'net': check_net}[spec['kind']](spec)


def nontrivial(spec, labels):
    k = labels.get('kind')
    if k == 'bn':
        return bool(labels['degenerate']) or max(
            abs(v) for v in spec['offset']) >= 50
    if k in ('act', 'ce'):
        return max(abs(v) for v in spec['x']) >= 50 or \
            spec.get('t') == 'BinomialCrossEntropy' and any(
                v in (0.0, 1.0) for v in spec['x'])
    return k == 'net'
