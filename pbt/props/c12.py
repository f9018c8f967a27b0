"""C12: training steppers follow their published update rule."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets, objects
from pbt.core import ensure
from brainstorm.training import steppers as ST

ID = 'C12'
QUICK, THOROUGH = 3600, 70000
RULE = ('Random networks (with gradient modifiers) and random sequences of '
        'steps on batches of changing size, changes of learning rate and '
        'momentum, and restarts; after every step the parameters are compared '
        'with the textbook rule computed in NumPy from the gradient of a twin '
        'network. Non-trivial: parameters changed in at least two steps.')
ASSUMPTIONS = ['gradients themselves are judged by C01',
               'running statistics of batch normalisation are updated by the '
               'forward pass, not by the stepper']


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=3, first=[
        'FullyConnected', 'Recurrent', 'Lstm', 'Convolution2D', 'BatchNorm',
        'FullyConnected'], min_heads=1, max_heads=2))
    spec['stepper'] = draw(st.sampled_from(
        ['SgdStepper', 'MomentumStepper', 'NesterovStepper',
         'MomentumStepper', 'NesterovStepper', 'ForwardStepper']))
    kw = {}
    if spec['stepper'] == 'ForwardStepper':
        if draw(st.booleans()):
            kw['use_training_pass'] = draw(st.booleans())
    else:
        if draw(st.booleans()):
            kw['learning_rate'] = draw(st.sampled_from([0.01, 0.1, 0.5, 1]))
        if spec['stepper'] != 'SgdStepper':
            if draw(st.integers(0, 4)):
                kw['momentum'] = draw(st.sampled_from(
                    [0.9, 0.5, 0.0, 0.99, 1.0]))
            if draw(st.booleans()):
                kw['scale_learning_rate'] = draw(st.booleans())
    spec['kw'] = kw
    spec['grads'] = draw(st.lists(objects.mod_spec(gradient=True).filter(
        lambda m: m['m'] != 'FreezeValues'), max_size=2))
    spec['f32'] = draw(st.integers(0, 4)) == 0 and \
        spec['stepper'] != 'NesterovStepper'
    ops = []
    for _ in range(draw(nets.rarely(st.integers(2, 6),
                                    st.sampled_from([12, 23])))):
        k = draw(st.sampled_from(['run', 'run', 'run', 'run', 'lr', 'mom',
                                  'restart', 'batch', 'forward', 'write']))
        if k == 'lr':
            ops.append([k, draw(st.sampled_from([0.02, 0.2, 0.0, 1.0]))])
        elif k == 'mom':
            ops.append([k, draw(st.sampled_from([0.0, 0.3, 0.95]))])
        elif k == 'batch':
            ops.append([k, draw(nets.rarely(st.integers(1, 4), st.just(12))),
                        draw(nets.rarely(st.integers(1, 3),
                                         st.sampled_from([9, 33])))])
        else:
            ops.append([k])
    spec['ops'] = ops + [['run'], ['run']]
    return spec


def strategy():
    return strategy_()


def check(spec):
    dtype = np.float32 if spec['f32'] else np.float64
    tol = 2e-3 if spec['f32'] else 1e-9
    net, orders, params, inputs, rnd = nets.prepare(spec, dtype=dtype)
    twin = nets.prepare(spec, dtype=dtype)[0]
    for n in (net, twin):
        n.set_gradient_modifiers(objects.make_mod(spec['grads']))
    stepper = getattr(ST, spec['stepper'])(**spec['kw'])
    kind = spec['stepper']
    lr = spec['kw'].get('learning_rate', 0.1)
    mom = spec['kw'].get('momentum', 0.0)
    scale = spec['kw'].get('scale_learning_rate', True)
    stepper.start(net)
    size = net.buffer.parameters.size
    vel = np.zeros(size)
    theta = net.get('parameters').astype(float)
    labels = {'stepper': kind, 'moved': 0, 'f32': spec['f32']}
    data = inputs
    seed = 0
    for i, op in enumerate(spec['ops']):
        if op[0] == 'lr':
            if kind != 'ForwardStepper':
                stepper.learning_rate = lr = op[1]
            continue
        if op[0] == 'mom':
            if kind in ('MomentumStepper', 'NesterovStepper'):
                stepper.momentum = mom = op[1]
            continue
        if op[0] == 'restart':
            stepper.start(net)
            vel[:] = 0
            ensure(np.array_equal(net.get('parameters'), theta.astype(dtype)),
                   'starting the stepper changed the parameters')
            continue
        if op[0] == 'batch':
            data = nets.draw_inputs(spec, rnd, T=op[1], B=op[2])
            continue
        if op[0] == 'forward':
            net.provide_external_data(data)
            net.forward_pass()
            continue
        if op[0] == 'write':
            # parameters assigned from outside take effect
            theta = theta * 0.5 + 0.25
            for l in spec['layers']:
                for q in ('timing', 'sigma'):
                    if l['t'] in nets.PARAM_NAMES and \
                            q in nets.PARAM_NAMES[l['t']]:
                        return labels
            net.buffer.parameters[:] = theta
            theta = net.get('parameters').astype(float)
            continue
        seed += 1
        # ---- reference step
        point = theta.copy()
        if kind == 'NesterovStepper':
            point = theta + mom * vel
        twin.buffer.parameters[:] = point
        twin.handler.rnd.set_seed(seed)
        twin.provide_external_data(data)
        training = kind != 'ForwardStepper' or bool(
            spec['kw'].get('use_training_pass', False))
        twin.forward_pass(training_pass=training)
        losses = twin.get_loss_values()
        shift = twin.get('parameters').astype(float) - \
            point.astype(dtype).astype(float)      # running statistics
        if kind == 'ForwardStepper':
            want = theta + shift
        else:
            twin.backward_pass()
            g = twin.get('gradients').astype(float)
            eta = lr
            if kind == 'SgdStepper':
                want = theta + shift - eta * g
            else:
                if scale:
                    eta = lr * (1 - mom)
                vel = mom * vel - eta * g
                want = theta + shift + vel
        # ---- real step
        net.provide_external_data(data)
        net.handler.rnd.set_seed(seed)
        result = stepper.run()
        got = net.get('parameters').astype(float)
        if not np.all(np.isfinite(want)) or np.abs(want).max(initial=0) > 1e6:
            return labels
        ensure(nets.close(got, want, tol, tol), '%s, step %d: wrong '
               'parameters: %s', kind, i, nets.describe_diff(got, want))
        if kind == 'ForwardStepper':
            ensure(result is not None and set(result) == set(losses),
                   'the forward step reports %s', result)
            for k in losses:
                ensure(np.array_equal(result[k], losses[k], equal_nan=True),
                       'the forward step reports %s = %s instead of %s', k,
                       result[k], losses[k])
            labels['moved'] += 1
        else:
            ensure(stepper.learning_rate == lr, 'the learning rate of the '
                   'stepper changed')
            if np.abs(got - theta).max(initial=0) > 0:
                labels['moved'] += 1
        # follow the real trajectory to keep rounding apart
        theta = got
        if kind in ('MomentumStepper', 'NesterovStepper') and spec['f32']:
            vel = vel.astype(np.float32).astype(float)
    labels['moved'] = min(labels['moved'], 2)
    return labels


def nontrivial(spec, labels):
    return labels['moved'] >= 2
