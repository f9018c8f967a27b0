"""C04: passes are independent of history; parameters survive it."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
import brainstorm as bs
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.debug_handler import DebugHandler

ID = 'C04'
QUICK, THOROUGH = 4000, 80000
RULE = ('Random networks and random histories (resizing, forward passes with '
        'and without training and context, backward passes, modifier calls, '
        'handler replacement, use of a second network of the same '
        'architecture); then a final forward and backward pass is compared '
        'with the one of a fresh network holding the same parameters, and '
        'parameters are compared after every step. Non-trivial: at least two '
        'operations and a network with parameters.')
ASSUMPTIONS = ['running statistics of batch normalisation are persistent '
               'state changed by training passes']

OPS = ['data', 'data', 'eval', 'train', 'train_back', 'train_back', 'context',
       'handler', 'debug', 'modifiers', 'twin', 'losses', 'get', 'partial']


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=4, max_heads=2, first=[
        'FullyConnected', 'Recurrent', 'Lstm', 'BatchNorm', 'Convolution2D',
        'Clockwork', 'ClockworkLstm', 'Dropout']))
    spec['ops'] = draw(nets.rarely(
        st.lists(st.tuples(st.sampled_from(OPS), st.integers(1, 6),
                           st.integers(1, 4)), min_size=2, max_size=8),
        st.lists(st.tuples(st.sampled_from(OPS),
                           st.sampled_from([1, 4, 11, 26]),
                           st.sampled_from([1, 3, 12, 37])),
                 min_size=2, max_size=16)))
    spec['ftrain'] = draw(st.booleans())
    spec['again'] = draw(st.booleans())
    spec['fctx'] = draw(st.integers(0, 3)) == 0
    spec['fpart'] = draw(st.integers(0, 7))
    return spec


def strategy():
    return strategy_()


def _everything(net, spec, T):
    res = {}
    for n in net.layers:
        if n == 'Input':
            continue
        for o in net.layers[n].out_shapes:
            res[n + '.outputs.' + o] = nets.get_output(net, n, o, T)
    return res


def _back(net, spec):
    res = {}
    for n, d in nets.param_shapes(net).items():
        for p in d:
            res['%s.gradients.%s' % (n, p)] = net.get(
                '%s.gradients.%s' % (n, p))
    for i in spec['inputs']:
        res['Input.output_deltas.' + i] = net.get('Input.output_deltas.' + i)
    res['gradients'] = net.get('gradients')
    return res


def check(spec):
    net, _, params, final, rnd = nets.prepare(spec)
    twin = None
    bn = {l['n'] for l in spec['layers'] if l['t'] == 'BatchNorm'}
    has_data = False
    cur_b = None

    def same_params(op):
        now = nets.load_params(net)
        for n in params:
            for p in params[n]:
                if n in bn and p in ('mu', 'sigma') and op.startswith(
                        'train'):
                    params[n][p] = now[n][p]
                    continue
                ensure(np.array_equal(now[n][p], params[n][p]),
                       'parameter %s.%s changed by "%s"', n, p, op)

    for op, T, B in spec['ops']:
        if op == 'data' or not has_data:
            data = nets.draw_inputs(spec, rnd, T=T, B=B)
            net.provide_external_data(data)
            has_data, cur_b, cur_t = True, B, T
        if op == 'eval':
            net.forward_pass(training_pass=False)
        elif op == 'train':
            net.forward_pass(training_pass=True)
        elif op == 'train_back':
            net.forward_pass(training_pass=True)
            net.backward_pass()
        elif op == 'context':
            net.forward_pass(training_pass=False)
            ctx = net.get_context()
            net.forward_pass(training_pass=False, context=ctx)
        elif op == 'handler':
            net.set_handler(NumpyHandler(np.float64))
            has_data = False
        elif op == 'debug':
            net.set_handler(DebugHandler(NumpyHandler(np.float64)))
            has_data = False
        elif op == 'modifiers':
            net.apply_weight_modifiers()
            net.apply_gradient_modifiers()
        elif op == 'twin':
            if twin is None:
                twin = nets.build(spec)
            twin.initialize(bs.initializers.Uniform(0.5), seed=T)
            twin.provide_external_data(nets.draw_inputs(spec, rnd, T=T, B=B))
            twin.forward_pass(training_pass=True)
            twin.backward_pass()
        elif op == 'losses':
            net.forward_pass()
            net.get_loss_values()
        elif op == 'get':
            net.get('parameters')[...] = 7.0    # a copy, so no effect
            net.get_context()
        elif op == 'partial':
            d = nets.draw_inputs(spec, rnd, T=cur_t, B=cur_b)
            k = sorted(d)[T % len(d)]
            net.provide_external_data({k: d[k]}, all_inputs=False)
        same_params(op)

    if any(op == 'debug' for op, _, _ in spec['ops']):
        net.set_handler(NumpyHandler(np.float64))
    fresh = nets.build(spec)
    nets.set_params(fresh, params)
    first = nets.draw_inputs(spec, rnd, T=2)
    results = []
    # new data of another size with one input left out (it then is zero)
    left = None
    if spec['fpart'] < len(final) and len(final) > 1 and has_data and not \
            spec['fctx'] and 'debug' not in [o[0] for o in spec['ops']] and \
            (cur_t, cur_b) != final[min(final)].shape[:2]:
        left = sorted(final)[spec['fpart']]
        del final[left]
    copies = {k: v.copy() for k, v in final.items()}
    for n in (net, fresh):
        ctx = None
        n.handler.rnd.set_seed(spec['seed'])
        if spec['fctx']:
            n.provide_external_data(first)
            n.forward_pass(training_pass=False)
            ctx = n.get_context()
        n.provide_external_data(final, all_inputs=left is None)
        n.forward_pass(training_pass=spec['ftrain'], context=ctx)
        r = _everything(n, spec, spec['T'])
        if spec['ftrain']:
            n.backward_pass()
            r.update(_back(n, spec))
        for i, v in final.items():
            ensure(np.array_equal(n.get_input(i)[:spec['T']], v), 'the pass '
                   'changed the provided input %s', i)
        if spec['again'] and not bn:
            # the same passes again, without providing the data again
            n.handler.rnd.set_seed(spec['seed'])
            n.forward_pass(training_pass=spec['ftrain'], context=ctx)
            r2 = _everything(n, spec, spec['T'])
            if spec['ftrain']:
                n.backward_pass()
                r2.update(_back(n, spec))
            for k in sorted(r):
                ensure(np.array_equal(r[k], r2[k], equal_nan=True),
                       'repeating the passes changes %s: %s', k,
                       nets.describe_diff(r2[k], r[k]))
        results.append(r)
    a, b = results
    ensure(set(a) == set(b), 'different arrays')
    for k in sorted(a):
        ensure(nets.close(a[k], b[k], 1e-8,
                          1e-9 * max(1, np.abs(b[k]).max() if b[k].size
                                     else 0)),
               'after the history %s differs from a fresh network: %s',
               k, nets.describe_diff(a[k], b[k]))
    for k in copies:
        ensure(np.array_equal(copies[k], final[k]), 'the provided array %s '
               'was modified', k)
    labels = {'ops': len(spec['ops']), 'params': bool(params),
              'partial': left is not None, 'train': spec['ftrain']}
    for op in spec['ops']:
        labels['op:' + op[0]] = 1
    return labels


def nontrivial(spec, labels):
    return labels['params'] and labels['ops'] >= 2
