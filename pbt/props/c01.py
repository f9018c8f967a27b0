"""C01: gradients and input deltas are the derivative of the total loss."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
from pbt.ref import RefNet

ID = 'C01'
QUICK, THOROUGH = 6000, 120000
RULE = ('Random layer graphs with one to three losses, random parameters and '
        'batch, a random number of earlier passes with other sizes and '
        'optionally an initial recurrent context. After forward(training) + '
        'backward the directional derivative along a random direction of '
        'every parameter array and every external input is compared with the '
        'complex-step derivative of an independent reference. Non-trivial: '
        'the network has parameters and at least two layers.')
ASSUMPTIONS = [
    'targets and masks are constants, DeltasScaling scales deltas on purpose',
    'at kinks (rel, max ties) the convention of the layers is assumed',
    'inputs fed by several sources have one feature dimension (see known '
    'finding of C05)',
    'a cross entropy clips probabilities below 1e-6 in its value but not in '
    'its gradient; BinomialCrossEntropy is not judged in that range',
    'backward passes follow a training forward pass']
H = 1e-30


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=5, first=[
        'FullyConnected', 'Recurrent', 'Lstm', 'BatchNorm', 'Convolution2D',
        'Clockwork', 'ClockworkLstm', 'Dropout', 'Pooling2D', 'Elementwise',
        'DeltasScaling', 'Mask']))
    spec['warm'] = draw(st.sampled_from([0, 0, 1, 2]))
    spec['ctx'] = draw(st.integers(0, 2)) == 0
    spec['twice'] = draw(st.integers(0, 3)) == 0
    return spec


def strategy():
    return strategy_()


def ref_state(net, spec, orders, params, rnd, run_net=True):
    """Run a preceding chunk; return (context, reference state)."""
    first = nets.draw_inputs(spec, rnd, T=1 + spec['seed'] % 3)
    net.provide_external_data(first)
    net.forward_pass(training_pass=True)
    masks = nets.dropout_masks(net, spec)
    st_ = RefNet(spec, orders).run(params, first, True, masks)['state']
    return net.get_context(), st_


def check(spec):
    net, orders, params, inputs, rnd = nets.prepare(spec)
    ref = RefNet(spec, orders)
    for i in range(spec['warm']):
        warm = nets.draw_inputs(spec, rnd, T=spec['T'] + 1 - i,
                                B=max(1, spec['B'] + 1 - 2 * i))
        net.provide_external_data(warm)
        net.forward_pass(training_pass=True)
        net.backward_pass()
        nets.set_params(net, params)
    context, state = None, None
    use_ctx = spec['ctx'] and nets.is_recurrent(spec)
    if use_ctx:
        context, state = ref_state(net, spec, orders, params, rnd)
        nets.set_params(net, params)
    net.provide_external_data(inputs)
    net.handler.rnd.set_seed(spec['seed'])
    net.forward_pass(training_pass=True, context=context)
    masks = nets.dropout_masks(net, spec)
    nets.set_params(net, params)
    net_total = sum(float(net.get(l['n'] + '.outputs.loss').sum())
                    for l in spec['layers'] if l['t'] == 'Loss')
    net.backward_pass()

    def collect():
        grads = {n: {p: net.get('%s.gradients.%s' % (n, p)) for p in d}
                 for n, d in params.items()}
        deltas = {n: net.get('Input.output_deltas.' + n)
                  for n in spec['inputs']}
        return grads, deltas

    grads, deltas = collect()
    for n, d in grads.items():
        for p, g in d.items():
            ensure(g.shape == params[n][p].shape and np.isfinite(g).all(),
                   'gradient %s.%s has wrong shape or is not finite', n, p)
    if spec['twice']:
        net.forward_pass(training_pass=False)   # something in between
        nets.set_params(net, params)
        net.handler.rnd.set_seed(spec['seed'])
        net.forward_pass(training_pass=True, context=context)
        nets.set_params(net, params)
        net.backward_pass()
        g2, d2 = collect()
        for n in grads:
            for p in grads[n]:
                ensure(nets.close(g2[n][p], grads[n][p], 1e-9, 1e-9),
                       'repeating the passes changes gradient %s.%s: %s', n,
                       p, nets.describe_diff(g2[n][p], grads[n][p]))
        for n in deltas:
            ensure(nets.close(d2[n], deltas[n], 1e-9, 1e-9), 'repeating the '
                   'passes changes the deltas of input %s: %s', n,
                   nets.describe_diff(d2[n], deltas[n]))

    base = ref.run(params, inputs, True, masks, state)
    if base['saturated']:
        return {'params': False, 'mode': 'saturated'}
    agrees = nets.close(net_total, float(base['total']), 1e-7,
                        1e-7 * max([1.0] + [abs(float(v)) for v in
                                            base['losses'].values()]))
    params0, inputs0 = params, inputs
    drnd = np.random.RandomState(spec['seed'] ^ 0x5bd1e995)

    def ref_deriv(dparams, dinputs, jitter=None):
        jr = np.random.RandomState(jitter or 0)
        params, inputs = [
            {n: v for n, v in d.items()} for d in (params0, inputs0)]
        if jitter is not None:
            def shake(v):
                return v * (1 + 1e-11 * jr.normal(size=v.shape))
            params = {n: {p: v if p == 'timing' else shake(v)
                          for p, v in sorted(d.items())}
                      for n, d in sorted(params.items())}
            inputs = {n: v if n.startswith(('tgt', 'mask')) else shake(v)
                      for n, v in sorted(inputs.items())}
        cp = {n: {p: v + (1j * H) * dparams[n][p]
                  if dparams.get(n, {}).get(p) is not None else v
                  for p, v in d.items()} for n, d in params.items()}
        ci = {n: (v + (1j * H) * dinputs[n] if n in dinputs else v)
              for n, v in inputs.items()}
        with np.errstate(all='ignore'):
            return float(np.imag(ref.run(cp, ci, True, masks,
                                         state)['total']) / H)

    def net_loss(dparams, dinputs, h):
        pp = {n: {p: v + h * dparams[n][p]
                  if dparams.get(n, {}).get(p) is not None else v
                  for p, v in d.items()} for n, d in params.items()}
        nets.set_params(net, pp)
        net.provide_external_data({n: (v + h * dinputs[n] if n in dinputs
                                       else v) for n, v in inputs.items()})
        net.handler.rnd.set_seed(spec['seed'])
        net.forward_pass(training_pass=True, context=context)
        r = sum(float(net.get(l['n'] + '.outputs.loss').sum())
                for l in spec['layers'] if l['t'] == 'Loss')
        nets.set_params(net, params)
        return r

    def judge(dparams, dinputs, got, scale, what):
        if agrees:
            want = ref_deriv(dparams, dinputs)
            tol = 1e-6 * max(1.0, scale, abs(want))
            if not abs(got - want) <= tol:
                # a derivative that depends this much on the last digits of
                # its arguments (or a kink that close) decides nothing
                near = [ref_deriv(dparams, dinputs, k) for k in range(4)]
                if max(abs(v - want) for v in near) > 0.5 * abs(got - want):
                    return
            ensure(abs(got - want) <= tol, '%s: directional derivative is '
                   '%.12g, backward pass says %.12g', what, want, got)
            return
        # the forward pass does not follow the reference: compare with
        # differences of the network's own loss
        if any(l['t'] == 'DeltasScaling' for l in spec['layers']):
            return
        ests = []
        for h in (1e-4, 1e-5, 1e-6):
            ests.append((net_loss(dparams, dinputs, h) -
                         net_loss(dparams, dinputs, -h)) / (2 * h))
        if max(ests) - min(ests) > 1e-3 * max(1, abs(ests[1])):
            return
        ensure(min(abs(e - got) for e in ests) <= 1e-2 * max(
            1.0, abs(got), scale), '%s: difference quotient of the loss is '
            '%.9g, backward pass says %.9g', what, ests[1], got)

    kinds = {l['n']: l['t'] for l in spec['layers']}
    nparam = 0
    for n in sorted(params):
        for p in sorted(params[n]):
            v, g = params[n][p], grads[n][p]
            nparam += v.size
            what = 'parameter %s of %s (%s)' % (p, n, kinds[n])
            if p == 'timing' or (kinds[n] == 'BatchNorm' and
                                 p in ('mu', 'sigma')):
                ensure(not g.any(), '%s has a gradient although the training '
                       'loss does not depend on it', what)
                continue
            d = drnd.normal(size=v.shape)
            judge({n: {p: d}}, {}, float((g * d).sum()),
                  float(np.abs(g * d).sum()), what)
    for n in sorted(inputs):
        d = drnd.normal(size=inputs[n].shape)
        if n.startswith(('tgt', 'mask')):
            continue
        judge({}, {n: d}, float((deltas[n] * d).sum()),
              float(np.abs(deltas[n] * d).sum()), 'external input ' + n)
    labels = {'ctx': use_ctx, 'warm': spec['warm'], 'params': nparam > 0,
              'mode': 'reference' if agrees else 'difference quotient'}
    for k in nets.spec_kinds(spec):
        labels['layer:' + k] = 1
    return labels


def nontrivial(spec, labels):
    return labels['params'] and len(spec['layers']) > 1
