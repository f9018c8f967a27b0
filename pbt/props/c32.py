"""C32: data that does not fit the network is refused, all other is used."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import tools
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.debug_handler import DebugHandler
from brainstorm.training.steppers import SgdStepper

ID = 'C32'
QUICK, THOROUGH = 5000, 80000
RULE = ('Random networks get a history of offers of data: complete and '
        'fitting (any type, memory layout, order, with additional names, '
        'read-only), in part, or with one mistake (an input missing, another '
        'number of features, steps or items, also one that numpy would '
        'repeat, more or fewer dimensions), directly, through iterators in '
        'a training, in a monitor, in evaluation or extraction, or hooks '
        'that ask for iterators, layers or attributes that do not exist. '
        'Mistakes must raise an error before any parameter changes, and '
        'leave the network usable; everything else must be accepted, arrive '
        'exactly, and stay the caller\'s. Non-trivial: at least one mistake '
        'and one fitting offer.')
ASSUMPTIONS = ['the number of steps and items is that of any one of the '
               'arrays offered',
               'offers in part name at least one input']

DTYPES = ['float64', 'float32', 'float16', 'int64', 'int32', 'uint8', 'bool']


@st.composite
def offer(draw):
    return {'how': draw(st.sampled_from(
        ['direct', 'direct', 'direct', 'train', 'valid', 'evaluate',
         'extract', 'hook'])),
        'bad': draw(st.sampled_from(
            [None, None, None, 'missing', 'features', 'one', 'steps',
             'items', 'single step', 'single item', 'more', 'fewer',
             'part', 'extra'])),
        'which': draw(st.integers(0, 7)), 'axis': draw(st.integers(0, 3)),
        'up': draw(st.booleans()),
        'dtype': draw(st.lists(st.sampled_from(DTYPES), min_size=3,
                               max_size=3)),
        'layout': draw(st.lists(st.sampled_from(
            ['C', 'F', 'step', 'reversed', 'readonly']), min_size=3,
            max_size=3)),
        'order': draw(st.integers(0, 5)),
        'T': draw(st.sampled_from([1, 2, 3, 4])),
        'B': draw(st.sampled_from([1, 2, 3, 5]))}


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=3, T=st.sampled_from([1, 2, 3]),
                               B=st.sampled_from([1, 2, 3])))
    spec['handler'] = draw(st.sampled_from(['f64', 'f64', 'f32', 'debug']))
    spec['offers'] = draw(st.lists(offer(), min_size=1, max_size=5))
    return spec


def strategy():
    return strategy_()


def make_handler(s):
    if s == 'debug':
        return DebugHandler(NumpyHandler(np.float64))
    return NumpyHandler(np.float32 if s == 'f32' else np.float64)


def switch(net, spec):
    if spec['handler'] != 'f64':
        net.set_handler(make_handler(spec['handler']))


def lay_out(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'step':
        big = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        big[::2] = a
        return big[::2]
    if how == 'reversed':
        return a[..., ::-1].copy()[..., ::-1]
    a = a.copy()
    if how == 'readonly':
        a.flags.writeable = False
    return a


def arrange(data, o):
    """Types, layouts and order of the arrays."""
    out = {}
    names = sorted(data)
    k = o['order'] % len(names)
    for i, n in enumerate(names[k:] + names[:k]):
        a = data[n]
        # types that hold the values of labels and masks
        dt = np.dtype(o['dtype'][i % 3])
        b = a.astype(dt)
        if not np.array_equal(b.astype(float), a):
            b = a.astype(np.float32 if dt == np.float16 else dt
                         if dt.kind == 'f' else np.float64)
        out[n] = lay_out(b, o['layout'][i % 3])
    return out


def spoil(data, o):
    """The data with the mistake, or None if it can not be made here."""
    bad = o['bad']
    names = sorted(data)
    n = names[o['which'] % len(names)]
    d = dict(data)
    a = d[n]
    if bad == 'missing':
        if len(names) < 2:
            return None
        del d[n]
        return d
    if bad == 'features':
        ax = 2 + o['axis'] % (a.ndim - 2)
        pad = np.take(a, [0], axis=ax)
        if o['up'] or a.shape[ax] == 1:
            d[n] = np.concatenate([a, pad], axis=ax)
        else:
            d[n] = np.delete(a, 0, axis=ax)
        return d
    if bad == 'one':
        ax = 2 + o['axis'] % (a.ndim - 2)
        if a.shape[ax] == 1:
            return None
        d[n] = np.take(a, [0], axis=ax)
        return d
    if bad in ('steps', 'items', 'single step', 'single item'):
        if len(names) < 2:
            return None
        ax = int(bad in ('items', 'single item'))
        if bad.startswith('single'):
            if a.shape[ax] == 1:
                return None
            d[n] = np.take(a, [0], axis=ax)
        else:
            d[n] = np.concatenate([a, np.take(a, [0], axis=ax)], axis=ax)
        return d
    if bad == 'more':
        d[n] = a[None] if o['up'] else a[..., None]
        return d
    if bad == 'fewer':
        d[n] = a[0] if o['up'] else a[..., 0]
        return d
    raise KeyError(bad)


def check(spec):
    net, orders, params, first, rnd = nets.prepare(
        spec, handler=NumpyHandler(np.float64))
    switch(net, spec)
    dt = np.float32 if spec['handler'] == 'f32' else np.float64
    good = bad = 0
    labels = {'handler': spec['handler']}
    for o in spec['offers']:
        data = nets.draw_inputs(spec, rnd, T=o['T'], B=o['B'])
        wrong = o['bad'] not in (None, 'part', 'extra')
        if wrong and o['how'] != 'hook':
            data = spoil(data, o)
            if data is None:
                continue
        data = arrange(data, o)
        if o['bad'] == 'extra':
            data['nobody'] = np.ones((o['T'], o['B'], 2))
        before = {k: v.copy() for k, v in data.items()}
        params = nets.load_params(net)
        what = '%s %s of %s' % (o['how'], o['bad'] or 'fitting data', {
            k: v.shape for k, v in data.items()})
        with np.errstate(all='ignore'):
            verdict = OFFERS[o['how']](net, spec, data, o, dt, what)
        if verdict is None:
            continue
        for k, v in before.items():
            ensure(np.array_equal(data[k], v, equal_nan=True),
                   '%s changed the array %s', what, k)
        if verdict == 'refused':
            bad += 1
            now = nets.load_params(net)
            for l in params:
                for p in params[l]:
                    ensure(np.array_equal(params[l][p], now[l][p]),
                           'refusing %s changed %s.%s', what, l, p)
        else:
            good += 1
        labels[o['how']] = labels.get(o['how'], 0) + 1
    # the network is as good as new
    final = nets.draw_inputs(spec, rnd, T=spec['T'], B=spec['B'])
    fresh = nets.build(spec, handler=NumpyHandler(np.float64))
    nets.set_params(fresh, nets.load_params(net))
    switch(fresh, spec)
    for n in (net, fresh):
        n.provide_external_data(final)
        with np.errstate(all='ignore'):
            try:
                n.forward_pass()
            except ValueError:      # the checking backend found a NaN
                return {'kind': 'nan'}
    for l in spec['layers']:
        for k in net.layers[l['n']].out_shapes:
            a = nets.get_output(net, l['n'], k, spec['T'])
            b = nets.get_output(fresh, l['n'], k, spec['T'])
            ensure(np.array_equal(a, b, equal_nan=True), 'after the offers '
                   '%s.outputs.%s differs from a fresh network', l['n'], k)
    labels.update({'good': good, 'bad': bad})
    return labels


def refused(o, f, what):
    """Run f; True if it refuses."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            f()
    except (ValueError, KeyError, TypeError, IndexError, AssertionError,
            AttributeError, bs.utils.ValidationError) as e:
        return e
    return None


def judge(o, f, what):
    wrong = o['bad'] not in (None, 'part', 'extra')
    e = refused(o, f, what)
    if wrong:
        ensure(e is not None, 'accepted %s', what)
        return 'refused'
    ensure(e is None, 'refused %s: %r', what, e)
    return 'accepted'


def direct(net, spec, data, o, dt, what):
    kw = {}
    old = {k: net.get_input(k) for k in net.layers['Input'].out_shapes}
    given = data
    if o['bad'] == 'part':
        names = sorted(data)
        keep = names[:1 + o['which'] % len(names)]
        given = {k: data[k] for k in keep}
        kw = {'all_inputs': False}
    elif o['bad'] is None and o['up']:
        kw = {'all_inputs': True}
    v = judge(o, lambda: net.provide_external_data(given, **kw), what)
    if v == 'refused':
        return v
    for k, a in old.items():
        got = net.get_input(k)
        if k in given:
            ensure(got.dtype == dt and np.array_equal(
                got[:o['T']], given[k].astype(dt)), '%s: input %s is not '
                'what was provided', what, k)
        elif got.shape == a.shape:
            ensure(np.array_equal(got, a, equal_nan=True), '%s: input %s, '
                   'which was not provided, changed', what, k)
    # the copy is the network's own
    for k, a in given.items():
        if a.flags.writeable and k in old:
            keep = a.copy()
            a[...] = 1 if a.dtype == bool else 99
            ensure(np.array_equal(net.get_input(k)[:o['T']],
                                  keep.astype(dt)),
                   '%s: input %s shares memory with the caller', what, k)
            a[...] = keep
    return v



def iterator(net, data):
    """None if the iterator itself refuses the data."""
    try:
        return bs.data_iterators.Undivided(**data)
    except bs.utils.IteratorValidationError:
        return None


def trainer(hooks=()):
    t = bs.Trainer(SgdStepper(0.0), verbose=False)
    for h in hooks:
        t.add_hook(h)
    t.add_hook(H.StopAfterEpoch(1, name='end'))
    return t


def in_training(net, spec, data, o, dt, what):
    if spec['handler'] == 'debug':
        return None         # may find NaNs
    if o['bad'] == 'part':
        return None
    it = iterator(net, data)
    if it is None:
        return 'refused'
    if o['bad'] == 'extra':
        # the trainer wants exactly the inputs
        ensure(refused(o, lambda: trainer().train(net, it), what), 'trained '
               'with %s', what)
        return 'refused'
    done = []

    class Spy(H.Hook):
        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            done.append(update_nr)

    v = judge(o, lambda: trainer([Spy(timescale='update')]).train(net, it),
              what)
    if v == 'refused':
        ensure(max([0] + done) == 0, 'updates were done before refusing %s',
               what)
    else:
        ensure(done == [0, 1], 'updates %s in an epoch of one batch', done)
    return v


def as_valid(net, spec, data, o, dt, what):
    if spec['handler'] == 'debug' or o['bad'] == 'part':
        return None
    it = iterator(net, data)
    if it is None:
        return 'refused'
    fit = nets.draw_inputs(spec, np.random.RandomState(o['which']))
    hook = H.MonitorLoss('valid') if o['up'] else H.MonitorScores('valid', [])
    return judge(o, lambda: trainer([hook]).train(
        net, bs.data_iterators.Undivided(**fit), valid=it, unused=it), what)


def in_evaluate(net, spec, data, o, dt, what):
    if spec['handler'] == 'debug' or o['bad'] == 'part':
        return None
    it = iterator(net, data)
    if it is None:
        return 'refused'
    return judge(o, lambda: tools.evaluate(net, it), what)


def in_extract(net, spec, data, o, dt, what):
    if spec['handler'] == 'debug' or o['bad'] in ('missing', 'part'):
        return None         # extraction needs only some of the data
    it = iterator(net, data)
    if it is None:
        return 'refused'
    name = 'Input.outputs.' + sorted(net.layers['Input'].out_shapes)[0]
    return judge(o, lambda: tools.extract(net, it, [name]), what)


def bad_hook(net, spec, data, o, dt, what):
    """Hooks that ask for what does not exist."""
    if spec['handler'] == 'debug':
        return None
    fit = nets.draw_inputs(spec, np.random.RandomState(o['which']))
    layer = sorted(net.layers)[o['axis'] % len(net.layers)]
    lay = layer + 'x' if o['bad'] else layer
    while o['bad'] and lay in net.layers:
        lay += 'x'
    attr = 'learning_rates' if o['bad'] else 'learning_rate'
    src = 'valid' if o['bad'] else 'training_data_iter'
    bs_ = bs.training.schedules.Linear(0.0, 0.0, 5)
    hook = [lambda: H.MonitorLayerDeltas(lay),
            lambda: H.MonitorLayerGradients(lay),
            lambda: H.MonitorLayerInOuts(lay),
            lambda: H.MonitorLayerParameters(lay),
            lambda: H.MonitorLoss(src),
            lambda: H.MonitorScores(src, []),
            lambda: H.ModifyStepperAttribute(bs_, attr)][o['which'] % 7]()
    if hook.__class__.__name__ == 'MonitorLayerGradients' and not o['bad']:
        return None     # empty arrays have no minimum
    o = dict(o, bad='hook' if o['bad'] else None)
    return judge(o, lambda: trainer([hook]).train(
        net, bs.data_iterators.Undivided(**fit)),
        'the hook %s' % hook.__class__.__name__)


OFFERS = {'direct': direct, 'train': in_training, 'valid': as_valid,
          'evaluate': in_evaluate, 'extract': in_extract, 'hook': bad_hook}


def nontrivial(spec, labels):
    return labels.get('good', 0) > 0 and labels.get('bad', 0) > 0
