"""C08: descriptions round-trip every configurable object."""
import copy
from collections import OrderedDict
import json
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import nets, objects
from pbt.core import ensure
import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import scorers as S
from brainstorm.describable import (Describable, create_from_description,
                                    get_description)
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.debug_handler import DebugHandler
from brainstorm.randomness import global_rnd
from brainstorm.training import schedules as SC
from brainstorm.training import steppers as ST
from brainstorm.training.trainer import Trainer

ID = 'C08'
QUICK, THOROUGH = 9000, 90000
RULE = ('Random initialisers, modifiers, schedules, steppers, scorers, '
        'handlers, networks, trainers with hooks, and nestings of them in '
        'lists and dicts, described, dumped to JSON, re-created, compared in '
        'description and behaviour; hierarchies of user-defined classes '
        'with undescribed and default attributes; malformed descriptions. '
        'Non-trivial: the object has at least one non-default option or '
        'nested part.')
ASSUMPTIONS = ['names of hooks are stored by the trainer that holds them',
               'data iterators, the Bokeh visualiser and InfoUpdater are not '
               'covered']

COUNT = [0]
pos = st.sampled_from([0.01, 0.1, 0.5, 1.0, 2.0])
anyf = st.sampled_from([-1.0, -0.5, 0.0, 0.1, 0.3, 1.0, 1e-30, 12345.678])


@st.composite
def schedule_spec(draw):
    k = draw(st.sampled_from(['Linear', 'Exponential', 'MultiStep',
                              'DecreaseAfterEpoch']))
    if k == 'Linear':
        return {'s': k, 'kw': {'initial_value': draw(anyf),
                               'final_value': draw(anyf),
                               'num_changes': draw(st.integers(1, 5))}}
    if k == 'Exponential':
        kw = {'initial_value': draw(anyf), 'factor': draw(pos)}
        if draw(st.booleans()):
            kw['minimum'] = draw(anyf)
        if draw(st.booleans()):
            kw['maximum'] = draw(anyf)
        return {'s': k, 'kw': kw}
    if k == 'MultiStep':
        steps = sorted(draw(st.sets(st.integers(1, 9), max_size=3)))
        return {'s': k, 'kw': {'initial_value': draw(anyf), 'steps': steps,
                               'values': [draw(anyf) for _ in steps]}}
    return {'s': k, 'kw': {'initial_value': draw(anyf),
                           'T': draw(st.integers(1, 6))}}


@st.composite
def stepper_spec(draw):
    k = draw(st.sampled_from(['SgdStepper', 'MomentumStepper',
                              'NesterovStepper', 'ForwardStepper']))
    kw = {}
    if k == 'ForwardStepper':
        if draw(st.booleans()):
            kw['use_training_pass'] = draw(st.booleans())
        return {'st': k, 'kw': kw}
    if draw(st.booleans()):
        kw['learning_rate'] = draw(pos)
    if k != 'SgdStepper':
        if draw(st.booleans()):
            kw['momentum'] = draw(st.sampled_from([0.0, 0.5, 0.9, 1.0]))
        if draw(st.booleans()):
            kw['scale_learning_rate'] = draw(st.booleans())
    return {'st': k, 'kw': kw}


@st.composite
def scorer_spec(draw):
    k = draw(st.sampled_from(['Accuracy', 'Hamming', 'MeanSquaredError']))
    kw = {}
    if k == 'Hamming' and draw(st.booleans()):
        kw['threshold'] = draw(st.sampled_from([0.1, 0.5, 0.9]))
    for a in ('out_name', 'targets_name', 'mask_name', 'name'):
        if draw(st.booleans()):
            kw[a] = draw(st.sampled_from(['a', 'b.c', 'targets', u'\xe9']))
    return {'sc': k, 'kw': kw}


@st.composite
def hook_spec(draw):
    k = draw(st.sampled_from([
        'SaveBestNetwork', 'SaveLogs', 'SaveNetwork', 'MonitorLayerDeltas',
        'MonitorLayerGradients', 'MonitorLayerInOuts',
        'MonitorLayerParameters', 'MonitorLoss', 'MonitorScores',
        'EarlyStopper', 'StopAfterEpoch', 'StopAfterThresholdReached',
        'StopOnNan', 'StopOnSigQuit', 'ProgressBar',
        'ModifyStepperAttribute', 'MonitorLoss', 'MonitorScores']))
    if k == 'ProgressBar':
        return {'h': k, 'kw': {}}
    kw = {}
    if draw(st.booleans()):
        kw['name'] = 'n%d' % draw(st.integers(0, 9))
    if draw(st.booleans()):
        kw['timescale'] = draw(st.sampled_from(['epoch', 'update']))
    if draw(st.booleans()):
        kw['interval'] = draw(st.integers(1, 3))
    if k not in ('SaveLogs', 'SaveNetwork') and draw(st.booleans()):
        kw['verbose'] = draw(st.sampled_from([True, False, None]))
    s = {'h': k, 'kw': kw}
    if k.startswith('MonitorLayer'):
        kw['layer_name'] = draw(st.sampled_from(['h', 'o', 'loss']))
    if k in ('MonitorLoss', 'MonitorScores'):
        kw['iter_name'] = draw(st.sampled_from(
            ['valid', 'training_data_iter']))
    if k == 'MonitorScores':
        s['scorers'] = draw(st.lists(st.sampled_from(
            [{'sc': 'MeanSquaredError', 'kw': {}},
             {'sc': 'MeanSquaredError', 'kw': {'name': 'mse2'}}]),
            max_size=2, unique_by=lambda x: str(x)))
    if k in ('EarlyStopper', 'StopAfterThresholdReached', 'SaveBestNetwork'):
        kw['log_name'] = 'rolling_training.total_loss'
        if k != 'SaveBestNetwork':
            kw['timescale'] = 'epoch'
        else:
            kw['timescale'] = 'epoch'
            if draw(st.booleans()):
                kw['filename'] = 'best.h5'
        if draw(st.booleans()):
            kw['criterion'] = draw(st.sampled_from(['min', 'max']))
    if k == 'EarlyStopper' and draw(st.booleans()):
        kw['patience'] = draw(st.integers(1, 3))
    if k == 'StopAfterThresholdReached':
        kw['threshold'] = draw(anyf)
    if k == 'StopAfterEpoch':
        kw['max_epochs'] = draw(st.integers(1, 3))
    if k in ('SaveLogs', 'SaveNetwork'):
        kw['filename'] = k + '.h5'
    if k == 'StopOnNan':
        if draw(st.booleans()):
            kw['logs_to_check'] = draw(st.sampled_from(
                [['rolling_training.total_loss'], [], 'rolling_training.total_loss']))
        for a in ('check_parameters', 'check_training_loss'):
            if draw(st.booleans()):
                kw[a] = draw(st.booleans())
    if k == 'ModifyStepperAttribute':
        s['schedule'] = draw(schedule_spec().filter(
            lambda x: x['s'] != 'MultiStep'))
        if draw(st.booleans()):
            kw['attr_name'] = 'learning_rate'
    return s


@st.composite
def handler_spec(draw):
    return {'hd': draw(st.sampled_from(['NumpyHandler', 'DebugHandler'])),
            'dtype': draw(st.sampled_from(['float32', 'float64']))}


@st.composite
def trainer_spec(draw):
    return {'tr': draw(stepper_spec()),
            'verbose': draw(st.booleans()),
            'hooks': draw(nets.rarely(
                st.lists(hook_spec(), max_size=4),
                st.lists(hook_spec(), min_size=11, max_size=14))),
            # hooks that were added to another trainer before, in this order
            'before': draw(st.sampled_from([None, None, 'same', 'reversed',
                                            'odd', 'rotated'])),
            'scorers': draw(st.sampled_from(
                [[], [{'sc': 'MeanSquaredError', 'kw': {'name': 'm'}}]])),
            'epochs': draw(st.integers(1, 2))}


@st.composite
def net_obj(draw):
    s = draw(nets.net_specs(max_layers=3, max_heads=1))
    s['init'] = draw(objects.init_spec())
    s['mods'] = draw(st.lists(objects.mod_spec(), max_size=2))
    s['grads'] = draw(st.lists(objects.mod_spec(gradient=True), max_size=2))
    s['dtype'] = draw(st.sampled_from(['float32', 'float64']))
    s['output'] = draw(st.sampled_from([None, 'a.outputs.default']))
    return {'net': s}


@st.composite
def array_spec(draw):
    shape = tuple(draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)))
    n = int(np.prod(shape))
    vals = st.one_of(anyf, st.sampled_from([1 / 3., -1e-17, 0.1 + 0.2,
                                            1e300, 123456789.123456789]))
    return {'arr': np.array(draw(st.lists(
        vals, min_size=n, max_size=n))).reshape(shape).tolist(),
        'as': draw(st.sampled_from(['ai', 'np', 'list']))}


shape3 = st.sampled_from([(3,), (2, 3), (4, 2)])


def simple():
    return st.one_of(
        objects.init_spec(depth=2), objects.init_spec(depth=2),
        objects.mod_spec(gradient=True),
        shape3.flatmap(lambda s: objects.mod_spec(shape=s)),
        schedule_spec(), stepper_spec(), scorer_spec(), handler_spec(),
        array_spec())


basic = st.one_of(st.none(), st.booleans(), st.integers(-2**40, 2**40),
                  st.floats(allow_nan=False), st.text(max_size=4))


def nested():
    leaf = st.one_of(simple().map(lambda s: {'obj': s}), basic)
    return st.recursive(
        leaf, lambda c: st.one_of(
            st.lists(c, max_size=3).map(lambda x: {'list': x}),
            st.dictionaries(st.text(max_size=3).filter(
                lambda t: t != '@type'), c, max_size=3).map(
                lambda x: {'dict': x})), max_leaves=5).map(
        lambda x: {'nest': x})


bad = st.sampled_from([
    {'@type': 'NoSuchThing'}, {'a': [{'@type': 'NoSuch', 'x': 1}]},
    {'@type': 'gaussian'}, {'@type': ''}, {'@type': 'Network'},
    {'@type': 'NumpyHandler'},
    {'@type': 'Network', 'architecture': {}},
    {'@type': 'Trainer', 'hooks': {'a': {'@type': 'NoHook'}}},
    'object', 'set', 'tuple', 'array', 'bytes', 'nested object'])


@st.composite
def user_class(draw):
    """A hierarchy of describable classes and an object of the last."""
    vals = st.sampled_from([0, 1, -2.5, 'x', True, None, [], [1, 2], {},
                            {'k': [0]}, {'@np': [0, 0]}, {'@np': [1, 2]},
                            {'@np': [1.5]}, {'@np': []}])
    attrs = ['p', 'q', 'r', 's', 't']
    levels = []
    for _ in range(draw(st.integers(1, 3))):
        und = draw(st.sampled_from(['dict', 'set', 'none']))
        levels.append({
            'und': {'dict': {a: draw(vals) for a in draw(st.lists(
                st.sampled_from(attrs), max_size=2, unique=True))},
                'set': draw(st.lists(st.sampled_from(attrs), max_size=2,
                                     unique=True)), 'none': None}[und],
            'def': draw(st.one_of(st.none(), st.dictionaries(
                st.sampled_from(attrs), vals, max_size=2)))})
    return {'user': levels, 'vals': {a: draw(vals) for a in draw(st.lists(
        st.sampled_from(attrs), unique=True, max_size=5))},
        'new': draw(vals), 'wrap': draw(st.booleans())}


def strategy():
    return st.one_of(user_class(),simple().map(lambda s: {'one': s}),
                     simple().map(lambda s: {'one': s}),
                     simple().map(lambda s: {'one': s}),
                     nested(), trainer_spec().map(lambda s: {'one': s}),
                     trainer_spec().map(lambda s: {'one': s}),
                     net_obj().map(lambda s: {'one': s}),
                     bad.map(lambda b: {'bad': b}))


# --------------------------------------------------------------- realisation

def make(s):
    if isinstance(s, (int, float)) or (
            isinstance(s, dict) and ('i' in s or 'arr' in s)):
        return objects.make_init(s)
    if 'm' in s:
        return objects.make_mod(s)
    if 's' in s:
        return getattr(SC, s['s'])(**copy.deepcopy(s['kw']))
    if 'st' in s:
        return getattr(ST, s['st'])(**s['kw'])
    if 'sc' in s:
        return getattr(S, s['sc'])(**s['kw'])
    if 'hd' in s:
        h = NumpyHandler(np.dtype(s['dtype']))
        return DebugHandler(h) if s['hd'] == 'DebugHandler' else h
    if 'h' in s:
        kw = dict(s['kw'])
        if 'scorers' in s:
            kw['scorers'] = [make(x) for x in s['scorers']]
        if 'schedule' in s:
            kw['schedule'] = make(s['schedule'])
        return getattr(H, s['h'])(**kw)
    if 'tr' in s:
        t = Trainer(make(s['tr']), verbose=s['verbose'])
        t.train_scorers = [make(x) for x in s['scorers']]
        hooks = OrderedDict()
        for i, h in enumerate(s['hooks']):
            h = make(h)
            if h.__name__ in hooks and len(s['hooks']) > 10:
                h.__name__ += '_%d' % i
            hooks.setdefault(h.__name__, h)
        hooks = list(hooks.values())
        other = {'same': hooks, 'reversed': hooks[::-1],
                 'odd': hooks[1::2], 'rotated': hooks[1:] + hooks[:1]
                 }.get(s.get('before'), [])
        t2 = Trainer(make(s['tr']))
        for h in other:
            t2.add_hook(h)
        for h in hooks:
            t.add_hook(h)
        t.add_hook(H.StopAfterEpoch(s['epochs'], name='the end'))
        return t
    if 'net' in s:
        n = s['net']
        net = nets.build(n)
        net.set_handler(NumpyHandler(np.dtype(n['dtype'])))
        if nets.param_shapes(net):
            net.initialize(objects.make_init(n['init']), fallback=0.25,
                           seed=5)
        net.set_weight_modifiers(objects.make_mod(n['mods']))
        net.set_gradient_modifiers(objects.make_mod(n['grads']))
        net.output_name = n['output']
        return net
    raise KeyError(s)


def make_nest(x):
    if isinstance(x, dict):
        if 'obj' in x:
            return make(x['obj'])
        if 'list' in x:
            return [make_nest(v) for v in x['list']]
        return {k: make_nest(v) for k, v in x['dict'].items()}
    return x


# ------------------------------------------------------------------ behaviour

def small_net(handler_dtype=np.float64):
    inp = bs.layers.Input(out_shapes={'default': ('T', 'B', 2),
                                      'targets': ('T', 'B', 2)})
    h = bs.layers.FullyConnected(3, activation='tanh', name='h')
    o = bs.layers.FullyConnected(2, activation='linear', name='o')
    e = bs.layers.SquaredError(name='e')
    inp >> h >> o >> 'default' - e
    inp - 'targets' >> 'targets' - e
    e - 'loss' >> bs.layers.Loss(name='loss')
    net = bs.Network.from_layer(inp)
    net.output_name = 'o.outputs.default'
    net.set_handler(NumpyHandler(handler_dtype, seed=11))
    net.initialize(bs.initializers.Gaussian(1.0), seed=9)
    return net


def outcome(f):
    try:
        return 'ok', f()
    except Exception as e:
        return type(e).__name__, None


def run_init(init, shape):
    if not hasattr(init, 'rnd'):
        return bs.initializers.evaluate_initializer(init, shape)
    init.rnd.set_seed(77)
    return bs.initializers.evaluate_initializer(init, shape, seed=77)


def behave(s, obj):
    """A comparable record of what obj does."""
    global_rnd.set_seed(99)
    np.random.seed(99)
    rnd = np.random.RandomState(5)
    if isinstance(s, (int, float)):
        return [type(obj).__name__, obj]
    if 'i' in s or 'arr' in s:
        shapes = [(3,), (4, 4), (4, 3), (8, 2), (2, 3, 2), (1, 1)]
        if 'arr' in s:
            shapes.append(np.shape(s['arr']))
        return [outcome(lambda: run_init(obj, sh)) for sh in shapes]
    if 'm' in s:
        h = NumpyHandler(np.float64)
        out = []
        shapes = [(3,), (2, 3), (4, 2)]
        if 'mask' in s:
            shapes = [np.shape(s['mask'])]
        if 'given' in s:
            shapes = [np.shape(s['given'])]
        for sh in shapes[:1] if s['m'] == 'FreezeValues' else shapes:
            for _ in range(2):
                v, p = rnd.normal(size=sh) * 3, rnd.normal(size=sh)
                if s['m'] in ('L1Decay', 'L2Decay'):
                    obj(h, p, v)
                else:
                    obj(h, v)
                out.append(v)
        return out
    if 's' in s:
        return [obj(e, u, ts, i, None, None, None)
                for ts in ('epoch', 'update') for i in (1, 2, 3)
                for e in range(8) for u in (e, 2 * e)
                if i == 1 or s['s'] != 'MultiStep']
    if 'st' in s:
        net = small_net()
        out = []
        obj.start(net)
        for _ in range(3):
            net.provide_external_data({'default': rnd.normal(size=(1, 3, 2)),
                                       'targets': rnd.normal(size=(1, 3, 2))})
            obj.run()
            out.append(net.get('parameters'))
        return out
    if 'sc' in s:
        p = rnd.rand(6, 3)
        t = rnd.randint(0, 3, (6, 1)) if s['sc'] == 'Accuracy' else \
            rnd.randint(0, 2, (6, 3))
        m = rnd.randint(0, 2, (6, 1))
        return [obj(t, p), obj(t, p, m), obj.__name__, obj.out_name,
                obj.targets_name, obj.mask_name,
                obj.aggregate([(2, 1.), (3, 7.)])]
    if 'hd' in s:
        return [type(obj).__name__, str(np.dtype(nets.dtype_of(obj)))]
    if 'tr' in s:
        net = small_net()
        data = dict(default=rnd.normal(size=(1, 5, 2)),
                    targets=rnd.normal(size=(1, 5, 2)))
        it = bs.data_iterators.Minibatches(2, shuffle=True, **data)
        va = bs.data_iterators.Minibatches(3, shuffle=False, **data)
        cwd = os.getcwd()
        tmp = tempfile.mkdtemp(prefix='verif-c08-')
        os.chdir(tmp)
        try:
            r = outcome(lambda: obj.train(net, it, valid=va))[0]
            files = sorted(os.listdir(tmp))
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp)
        return [r, files, obj.logs, net.get('parameters'),
                obj.current_epoch_nr, obj.current_update_nr,
                [(k, type(h).__name__, h.__name__, h.timescale, h.interval,
                  h.verbose) for k, h in obj.hooks.items()]]
    if 'net' in s:
        n = s['net']
        params = nets.draw_params(obj, n, np.random.RandomState(n['seed']))
        if nets.param_shapes(obj):
            obj.initialize(create_from_description(get_description(
                obj.initializers)), seed=3)
            first = obj.get('parameters')
            nets.set_params(obj, params)
        else:
            first = 0
        obj.handler.rnd.set_seed(1)
        obj.provide_external_data(nets.draw_inputs(
            n, np.random.RandomState(3)))
        obj.forward_pass(training_pass=True)
        outs = [obj.get('%s.outputs.%s' % (k, o)) for k in obj.layers
                for o in sorted(obj.layers[k].out_shapes)]
        obj.backward_pass()
        g = obj.get('gradients')
        obj.apply_weight_modifiers()
        return [first, outs, g, obj.get('parameters'), obj.output_name,
                list(obj.layers), type(obj.handler).__name__,
                str(np.dtype(obj.handler.dtype))]
    raise KeyError(s)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b and type(a) == type(b) or (
        isinstance(a, (int, float, np.number)) and
        isinstance(b, (int, float, np.number)) and
        not isinstance(a, bool) and a == b)


def dumps(d):
    return json.dumps(d, sort_keys=True)


def scribble(d):
    """Overwrite everything mutable inside a description."""
    if isinstance(d, dict):
        for k in list(d):
            scribble(d[k])
            d[k] = 'scribble'
        d['extra'] = 1
    elif isinstance(d, list):
        for x in d:
            scribble(x)
        d[:] = ['scribble']


def roundtrip(obj):
    d = get_description(obj)
    text = dumps(d)
    ensure(json.loads(text) == json.loads(dumps(get_description(obj))),
           'describing twice gives two descriptions')
    d = json.loads(text)
    new = create_from_description(d)
    ensure(dumps(d) == text, 're-creating changed the description')
    d2 = dumps(get_description(new))
    ensure(d2 == text, 'the re-created object is described as %s instead of '
           '%s', d2, text)
    scribble(get_description(obj))
    ensure(dumps(get_description(obj)) == text, 'the description shares data '
           'with the object')
    return new, text


def refused(f):
    try:
        f()
    except (TypeError, KeyError, ValueError, AssertionError, AttributeError,
            bs.utils.NetworkValidationError):
        return True
    return False


def decode(v):
    """Arrays are {'@np': list} in a spec."""
    if isinstance(v, dict):
        if '@np' in v:
            return np.array(v['@np'])
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def equals(a, b):
    # arrays are described as lists
    a, b = [v.tolist() if isinstance(v, np.ndarray) else v for v in (a, b)]
    return a == b


def check_user(s):
    s = decode(s)
    und, default = {}, {}
    cls = Describable
    COUNT[0] += 1
    for i, l in enumerate(s['user']):
        ns = {}
        if l['und'] is not None:
            ns['__undescribed__'] = copy.deepcopy(l['und']) if isinstance(
                l['und'], dict) else set(l['und'])
            und.update(l['und'] if isinstance(l['und'], dict)
                       else {k: None for k in l['und']})
        if l['def'] is not None:
            ns['__default_values__'] = copy.deepcopy(l['def'])
            default.update(l['def'])
        cls = type(str('User%d_%d' % (COUNT[0], i)), (cls,), ns)
    obj = cls()
    obj.__dict__.update(copy.deepcopy(s['vals']))
    d = get_description({'a': [obj]} if s['wrap'] else obj)
    new, text = roundtrip({'a': [obj]} if s['wrap'] else obj)
    if s['wrap']:
        d, new = d['a'][0], new['a'][0]
    want = {k: v.tolist() if isinstance(v, np.ndarray) else v
            for k, v in s['vals'].items() if k not in und and not (
        k in default and equals(default[k], v))}
    want['@type'] = cls.__name__
    ensure(d == want, 'an object with %s, undescribed %s and defaults %s is '
           'described as %s', s['vals'], und, default, d)
    ensure(type(new) is cls, 're-created as %s', type(new).__name__)
    state = dict(und)
    state.update(default)
    state.update({k: v for k, v in want.items() if k != '@type'})
    ensure(same(new.__dict__, state) and list(map(str, map(
        new.__dict__.get, sorted(state)))) == list(map(str, map(
            state.get, sorted(state)))), 'an object with %s, undescribed %s '
        'and defaults %s is re-created with %s', s['vals'], und, default,
        new.__dict__)
    # several objects from one description are independent
    twin = create_from_description(d)
    for k, v in new.__dict__.items():
        if isinstance(v, np.ndarray):
            v += 1
        elif isinstance(v, list):
            v.append(s['new'])
        elif isinstance(v, dict):
            v['new'] = s['new']
    third = create_from_description(d)
    for o in (twin, third):
        ensure(same(o.__dict__, state), 'objects created from one description '
               'share state: %s', o.__dict__)
    other = cls()
    other.__dict__.update(copy.deepcopy(s['vals']))
    ensure(get_description(other) == want, 'changing a re-created object '
           'changes the descriptions of others')
    return {'kind': 'user', 'opts': bool(und or default)}


def check(spec):
    if 'user' in spec:
        return check_user(spec)
    if 'bad' in spec:
        b = spec['bad']
        if isinstance(b, dict):
            ensure(refused(lambda: create_from_description(b)), 'accepts '
                   'the description %r', b)
        else:
            v = {'object': object(), 'set': {1}, 'tuple': (1, 2),
                 'array': np.zeros(2), 'bytes': b'ab',
                 'nested object': {'a': [1, object()]}}[b]
            ensure(refused(lambda: create_from_description(v)), 'accepts a '
                   'description of type %s', b)
            if b not in ('tuple', 'array'):
                ensure(refused(lambda: get_description(v)), 'describes %s',
                       b)
        return {'kind': 'bad'}
    if 'nest' in spec:
        obj = make_nest(spec['nest'])
        global_rnd.set_seed(3)
        new, text = roundtrip(obj)

        def walk(x, o, n):
            if isinstance(x, dict) and 'obj' in x:
                if isinstance(o, (int, float)):
                    return
                if 'arr' in x['obj']:
                    ensure(same(behave(x['obj'], o), behave(x['obj'], n)),
                           'array %r became %r', o, n)
                    return
                ensure(type(o) is type(n), 're-created as %s instead of %s',
                       type(n).__name__, type(o).__name__)
                ensure(same(behave(x['obj'], o), behave(x['obj'], n)),
                       're-created %s behaves differently', type(o).__name__)
            elif isinstance(x, dict) and 'list' in x:
                for i, v in enumerate(x['list']):
                    walk(v, o[i], n[i])
            elif isinstance(x, dict):
                for k in x['dict']:
                    walk(x['dict'][k], o[k], n[k])
            else:
                ensure(o == n and type(o) is type(n), 'basic value %r became '
                       '%r', o, n)
        walk(spec['nest'], obj, new)
        return {'kind': 'nest', 'opts': text not in ('[]', '{}')}
    s = spec['one']
    obj = make(s)
    state = global_rnd.get_state()
    get_description(obj)
    after = global_rnd.get_state()
    ensure(state[2] == after[2] and np.array_equal(state[1], after[1]),
           'describing consumes random numbers')
    new, text = roundtrip(obj)
    kind = 'init' if isinstance(s, (int, float)) else sorted(
        set(s) & {'i', 'arr', 'm', 's', 'st', 'sc', 'hd', 'tr', 'net'})[0]
    if kind != 'arr':
        ensure(type(new) is type(obj), 're-created as %s instead of %s',
               type(new).__name__, type(obj).__name__)
    a = behave(s, obj)
    b = behave(s, new)
    ensure(same(a, b), 'the re-created %s behaves differently:\n%s\n%s',
           type(obj).__name__, str(a)[:600], str(b)[:600])
    used = json.loads(dumps(get_description(obj)))
    first = json.loads(text)
    if kind == 'tr':
        for d in (used, first):
            if isinstance(d.get('stepper'), dict):
                d['stepper'].pop('learning_rate', None)
    ensure(used == first, 'after use the description has become %s instead '
           'of %s', dumps(used), dumps(first))
    opts = kind in ('tr', 'net', 'arr') or (
        not isinstance(s, (int, float)) and bool(
            s.get('kw') or s.get('gates') or s.get('sub') or 'hd' in s or
            'mask' in s))
    return {'kind': kind, 'opts': opts}


def nontrivial(spec, labels):
    return bool(labels.get('opts'))
