"""C07: saving and loading a network preserves its behaviour exactly."""
import json
import os
import shutil
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from pbt import nets, objects
from pbt.core import ensure
import brainstorm as bs
from brainstorm.describable import get_description
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.debug_handler import DebugHandler

ID = 'C07'
QUICK, THOROUGH = 2200, 40000
RULE = ('Random networks with random initialisers, modifiers, handler type '
        'and parameter values (including extreme ones), optionally trained a '
        'little, saved to HDF5, loaded and saved again; compared bitwise in '
        'parameters, outputs, losses, gradients, and in architecture, '
        'initialisers, modifiers, output_name and file content. Non-trivial: '
        'the network has parameters.')
ASSUMPTIONS = ['networks are initialised before saving',
               'dynamic modifier state (first values seen by FreezeValues) '
               'is not part of a saved network']


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=4, first=[
        'FullyConnected', 'Recurrent', 'Lstm', 'BatchNorm', 'Convolution2D',
        'Clockwork', 'Dropout']))
    spec['handler'] = draw(st.sampled_from(['f64', 'f64', 'f32', 'default',
                                            'debug']))
    spec['init'] = draw(st.sampled_from([
        {'default': {'i': 'Gaussian', 'kw': {}}},
        {'default': 0.5},
        {'default': {'i': 'DenseSqrtFanIn', 'kw': {}},
         'fallback': {'i': 'Uniform', 'kw': {'low': 0.2}}},
        {'default': {'i': 'SparseInputs', 'sub': {'i': 'Gaussian', 'kw': {}},
                     'kw': {'connections': 1}}, 'fallback': 0.1},
        {'default': {'i': 'Orthogonal', 'kw': {}}, 'fallback': 1}]))
    spec['arrays'] = draw(st.booleans())
    spec['bare'] = draw(st.integers(0, 5)) == 0
    spec['weights'] = draw(st.lists(objects.mod_spec(), max_size=2))
    spec['grads'] = draw(st.lists(objects.mod_spec(gradient=True),
                                  max_size=2))
    spec['masks'] = draw(st.booleans())
    spec['extreme'] = draw(st.booleans())
    spec['train'] = draw(st.booleans())
    spec['output'] = draw(st.booleans())
    spec['each'] = draw(st.booleans())
    spec['comment'] = draw(st.sampled_from(['', 'hello', u'\xe9\u4e2d']))
    return spec


def strategy():
    return strategy_()


def run(net, spec, data):
    net.handler.rnd.set_seed(7) if hasattr(net.handler, 'rnd') else \
        net.handler.handler.rnd.set_seed(7)
    net.provide_external_data(data)
    net.forward_pass(training_pass=True)
    r = {'%s.%s' % (n, o): net.get('%s.outputs.%s' % (n, o))
         for n in net.layers for o in net.layers[n].out_shapes}
    for k, v in net.get_loss_values().items():
        r['loss ' + k] = np.array(v)
    net.backward_pass()
    r['gradients'] = net.get('gradients')
    net.forward_pass(training_pass=False)
    r.update({'eval %s.%s' % (n, o): net.get('%s.outputs.%s' % (n, o))
              for n in net.layers for o in net.layers[n].out_shapes})
    net.apply_weight_modifiers()
    r['modified parameters'] = net.get('parameters')
    return r


def make_net(spec):
    h = {'f64': lambda: NumpyHandler(np.float64),
         'f32': lambda: NumpyHandler(np.float32),
         'debug': lambda: DebugHandler(NumpyHandler(np.float64)),
         'default': lambda: None}[spec['handler']]()
    nodes = nets.construct(spec)
    net = bs.Network.from_layer(nodes['Input'])
    if h is not None:
        net.set_handler(h)
    rnd = np.random.RandomState(spec['seed'])
    if spec['handler'] == 'debug':      # needs arithmetic on raw arrays
        for k in ('weights', 'grads'):
            spec[k] = [m for m in spec[k] if m['m'] != 'ConstrainL2Norm']
    init = {k: objects.make_init(v) for k, v in spec['init'].items()}
    shapes = nets.param_shapes(net)
    first = sorted(shapes)[0] if shapes else None
    if spec['arrays'] and first:
        p = sorted(shapes[first])[0]
        init[first] = {p: rnd.normal(size=shapes[first][p])}
    if spec.get('each'):
        # one pattern per layer and parameter
        for i, n in enumerate(sorted(shapes)):
            if n not in init:
                init[n] = {p: bs.initializers.Uniform(0.1 * (i + 1), 5. + j)
                           for j, p in enumerate(sorted(shapes[n]))}
    if shapes and not spec['bare']:
        net.initialize(init, seed=3)
    if spec['weights'] and spec.get('each'):
        net.set_weight_modifiers({
            n: {p: objects.make_mod(spec['weights']) for p in shapes[n]}
            for n in shapes})
    elif spec['weights']:
        net.set_weight_modifiers(objects.make_mod(spec['weights']))
    if spec['grads']:
        net.set_gradient_modifiers(objects.make_mod(spec['grads']))
    elif spec['masks'] and first:
        p = sorted(shapes[first])[-1]
        net.set_gradient_modifiers({first: {p: bs.value_modifiers.MaskValues(
            rnd.randint(0, 2, size=shapes[first][p]).astype(float))}})
    if spec['output']:
        net.output_name = 'Input.outputs.default'
        if spec.get('each'):
            last = sorted(net.layers)[-1]
            net.output_name = last + '.outputs.' + sorted(
                net.layers[last].out_shapes)[-1]
    params = nets.draw_params(net, spec, rnd)
    if spec['extreme']:
        for d in params.values():
            for p, v in d.items():
                if p in ('W', 'bias', 'Wz'):
                    v.flat[0] = [1e-300, -0.0, np.pi * 1e-7, 1e-45][
                        spec['seed'] % 4]
    nets.set_params(net, params)
    return net, rnd


def check(spec):
    net, rnd = make_net(spec)
    data = nets.draw_inputs(spec, rnd)
    if spec['train']:
        net.provide_external_data(data)
        net.forward_pass(training_pass=True)
        net.backward_pass()
        # (periods and standard deviations of 0 are no valid parameters)
        fixed = {n + '.parameters.' + p: net.get(n + '.parameters.' + p)
                 for n, l in net.layers.items()
                 for p in l.parameter_shapes if p in ('timing', 'sigma')}
        net.apply_weight_modifiers()
        for path, v in fixed.items():
            net.handler.set_from_numpy(net.buffer[path], v)
    before = net.get('parameters')
    arch = json.dumps(net.architecture, sort_keys=True)
    desc = json.dumps(get_description(net), sort_keys=True)
    tmp = tempfile.mkdtemp(prefix='verif-c07-')
    try:
        f1, f2 = os.path.join(tmp, 'a.h5'), os.path.join(tmp, 'b.h5')
        net.save_as_hdf5(f1, comment=spec['comment'])
        ensure(np.array_equal(net.get('parameters'), before), 'saving changed '
               'the parameters')
        ensure(json.dumps(get_description(net), sort_keys=True) == desc,
               'saving changed the description of the network')
        loaded = bs.Network.from_hdf5(f1)
        loaded.save_as_hdf5(f2, comment=spec['comment'])
        with h5py.File(f1, 'r') as a, h5py.File(f2, 'r') as b:
            ensure(set(a) == set(b), 'file members differ')
            da = json.loads(a['description'][()].decode())
            db = json.loads(b['description'][()].decode())
            ensure(da == db, 'description in the second file differs: %s %s',
                   json.dumps(da, sort_keys=True),
                   json.dumps(db, sort_keys=True))
            ensure(np.array_equal(a['parameters'][()], b['parameters'][()])
                   and a['parameters'].dtype == b['parameters'].dtype,
                   'parameters in the second file differ')
    finally:
        shutil.rmtree(tmp)
    ensure(list(loaded.layers) == list(net.layers), 'loaded layers differ')
    ensure(json.dumps(loaded.architecture, sort_keys=True) == arch,
           'loaded architecture differs')
    ensure(json.dumps(get_description(loaded), sort_keys=True) == desc,
           'loaded description differs')
    ensure(loaded.output_name == net.output_name, 'output_name is lost')
    ensure(type(loaded.handler) is type(net.handler) and
           nets.dtype_of(loaded.handler) == nets.dtype_of(net.handler), 'handler differs')
    got = loaded.get('parameters')
    ensure(got.dtype == before.dtype and got.tobytes() == before.tobytes(),
           'loaded parameters are not bitwise equal: %s',
           nets.describe_diff(got, before))
    for part in ('weight_modifiers', 'gradient_modifiers'):
        a = get_description(getattr(net, part))
        b = get_description(getattr(loaded, part))
        ensure(a == b, '%s differ: %s, loaded %s', part, a, b)
    ensure(get_description(loaded.initializers) ==
           get_description(net.initializers), 'initializers differ')
    ra, rb = run(net, spec, data), run(loaded, spec, data)
    frozen = any(m['m'] == 'FreezeValues' for m in spec['weights'] +
                 spec['grads']) and spec['train']
    ensure(set(ra) == set(rb), 'results differ in kind')
    for k in sorted(ra):
        if frozen and k in ('gradients', 'modified parameters'):
            continue
        ensure(np.array_equal(ra[k], rb[k], equal_nan=True),
               'the loaded network gives other %s: %s', k,
               nets.describe_diff(rb[k], ra[k]))
    return {'params': before.size > 0, 'handler': spec['handler'],
            'mods': len(spec['weights']) + len(spec['grads'])}


def nontrivial(spec, labels):
    return labels['params']
