"""C31: training follows the textbook procedure from data to parameters."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import nets, objects
from pbt.core import ensure
import brainstorm as bs
from brainstorm import hooks as H
from brainstorm.data_iterators import Minibatches, OneHot, Pad, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.training import schedules as S
from brainstorm.training import steppers as ST

ID = 'C31'
QUICK, THOROUGH = 3000, 60000
RULE = ('Random networks, data sets, iterators (uneven and shuffled batches, '
        'batches cut to their longest sequence, one-hot and padding '
        'wrappers), steppers, learning rate schedules, gradient and weight '
        'modifiers of single parameters, hooks that evaluate other data, run '
        'the network on other sizes or write files between the updates, and '
        'a second training of the same, a copied or a reloaded network. '
        'Every update is recomputed from its batch and the parameters before '
        'it with a network made for this update alone and plain numpy '
        'formulas. Non-trivial: at least three updates that move parameters.')
ASSUMPTIONS = ['the gradient of one pass of a fresh network is right (C01)',
               'hooks that run the network do so without training passes']


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(
        max_layers=3, T=st.integers(1, 4), B=nets.rarely(
            st.integers(2, 7), st.sampled_from([1, 12, 19])),
        first=['FullyConnected', 'FullyConnected', 'Recurrent', 'Lstm',
               'BatchNorm', 'Convolution2D', 'Clockwork', 'Dropout',
               'ClockworkLstm', 'Mask'], max_heads=2))
    N = spec['B']
    b = {'whole': draw(st.integers(0, 4)) == 0,
         'bs': draw(st.integers(1, max(1, min(N, 4)))),
         'shuffle': draw(st.integers(0, 2)) == 0,
         'cut': draw(st.sampled_from(['no', 'no', 'lengths', 'mask']))}
    spec['iter'] = b
    spec['wrap'] = draw(st.sampled_from(['none', 'none', 'onehot', 'pad']))
    spec['pad'] = draw(st.integers(1, 2))
    spec['padval'] = draw(st.sampled_from([0, 0.5]))
    spec['stepper'] = draw(st.sampled_from(['SgdStepper', 'MomentumStepper',
                                            'NesterovStepper']))
    kw = {}
    if spec['stepper'] != 'SgdStepper':
        kw['momentum'] = draw(st.sampled_from([0.0, 0.5, 0.9, 0.97]))
        if draw(st.booleans()):
            kw['scale_learning_rate'] = draw(st.booleans())
    spec['kw'] = kw
    spec['lr'] = draw(st.sampled_from([0.01, 0.05, 0.2]))
    spec['schedule'] = draw(st.sampled_from([
        None, None, ['Linear', 0.1, 0.02, 5], ['MultiStep', 0.1, [2, 4],
                                               [0.05, 0.01]],
        ['Exponential', 0.1, 0.7]]))
    spec['sched_scale'] = draw(st.sampled_from(['update', 'epoch']))
    mods = {}
    owners = [(l['n'], p) for l in spec['layers']
              for p in nets.PARAM_NAMES.get(l['t'], ())
              if p not in ('timing',)]
    for sec, grad in (('grad', True), ('weight', False)):
        mods[sec] = []
        if owners and draw(st.booleans()):
            for n, p in draw(st.lists(st.sampled_from(owners), max_size=3,
                                      unique=True)):
                ms = draw(st.lists(objects.mod_spec(gradient=grad).filter(
                    lambda m: m['m'] != 'FreezeValues'), min_size=1,
                    max_size=2))
                mods[sec].append([n, p, ms])
    spec['mods'] = mods
    spec['between'] = draw(st.lists(st.sampled_from(
        ['loss', 'poke', 'context', 'save', 'params', 'gradients', 'resize',
         'other net']), max_size=3, unique=True))
    spec['every'] = draw(st.integers(1, 2))
    spec['NV'] = draw(st.integers(1, 5))
    spec['epochs'] = draw(st.sampled_from([2, 3, 1, 4]))
    spec['phases'] = draw(st.sampled_from(
        [[], [], ['same'], ['same trainer'], ['copy'], ['reload'],
         ['reload', 'same']]))
    return spec


def strategy():
    return strategy_()


class Poke(H.Hook):
    """Uses the network between the updates."""

    def __init__(self, spec, dirname, rnd):
        super(Poke, self).__init__('poke', 'update', spec['every'])
        self.spec, self.dirname, self.rnd = spec, dirname, rnd
        self.other = None

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        spec, what = self.spec, self.spec['between']
        r = self.rnd
        if 'poke' in what:
            net.provide_external_data(nets.draw_inputs(
                spec, r, T=r.randint(1, 7), B=r.randint(1, 6)))
            net.forward_pass()
        if 'context' in what:
            d = nets.draw_inputs(spec, r, T=r.randint(1, 4), B=2)
            net.provide_external_data(d)
            net.forward_pass()
            c = net.get_context()
            net.provide_external_data(nets.draw_inputs(spec, r, T=2, B=2))
            net.forward_pass(context=c)
        if 'save' in what:
            net.save_as_hdf5(os.path.join(self.dirname, 'some.hdf5'))
        if 'gradients' in what:
            net.get('gradients')[...] = 7.0
            net.buffer.gradients[...] = 5.0
        if 'params' in what:
            net.get('parameters')[...] = 7.0
            for n in spec['layers']:
                for k in net.layers[n['n']].parameter_shapes:
                    net.get('%s.parameters.%s' % (n['n'], k))[...] = 3.0
        if 'resize' in what:
            net.provide_external_data(nets.draw_inputs(
                spec, r, T=r.randint(1, 9), B=r.randint(1, 9)))
        if 'other net' in what:
            if self.other is None:
                self.other = nets.build(spec, handler=NumpyHandler(
                    np.float64))
                nets.set_params(self.other, nets.draw_params(
                    self.other, spec, r))
            o = self.other
            o.provide_external_data(nets.draw_inputs(
                spec, r, T=r.randint(1, 4), B=r.randint(1, 4)))
            o.forward_pass(training_pass=True)
            o.backward_pass()


class Watch(H.Hook):
    """Parameters at the end of every update, after the modifiers."""

    def __init__(self):
        super(Watch, self).__init__('watch', 'update', 1)
        self.seen, self.last = [], 0

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if update_nr != self.last:      # (also called before training)
            self.last = update_nr
            self.seen.append(nets.load_params(net))


class Recorder(object):
    def __init__(self, inner, seeds):
        self.inner, self.seeds, self.seen = inner, seeds, []

    def start(self, net):
        self.net = net
        self.inner.start(net)

    @property
    def learning_rate(self):
        return self.inner.learning_rate

    @learning_rate.setter
    def learning_rate(self, v):
        self.inner.learning_rate = v

    def run(self):
        net = self.net
        seed = self.seeds.randint(1, 10 ** 6)
        net.handler.rnd.set_seed(seed)
        names = sorted(net.layers['Input'].out_shapes)
        e = {'seed': seed, 'lr': self.inner.learning_rate,
             'before': nets.load_params(net),
             'batch': {n: net.get_input(n) for n in names}}
        self.inner.run()
        e['losses'] = {k: float(v) for k, v in net.get_loss_values().items()}
        self.seen.append(e)


def make_data(spec, rnd):
    """(raw arrays, finished arrays, lengths, wrapper)"""
    data = nets.draw_inputs(spec, rnd)
    lens = rnd.randint(1, spec['T'] + 1, spec['B'])
    masks = [n for n in data if n.startswith('mask') and
             data[n].shape[2:] == (1,)]
    for n in masks:
        for j, l in enumerate(lens):
            data[n][:, j] = 0
            data[n][:l, j] = 1
    raw = dict(data)
    shape = tuple(spec['inputs']['default'])
    wrap = None
    if spec['wrap'] == 'onehot' and len(shape) == 1:
        idx = rnd.randint(0, shape[0], data['default'].shape[:2])
        raw['default'] = idx[..., None]
        data['default'] = np.eye(shape[0])[idx]
        if idx.max() + 1 <= shape[0]:
            wrap = 'onehot'
    if spec['wrap'] == 'pad' and len(shape) == 3 and min(shape[:2]) > 2 * \
            spec['pad']:
        p, full = spec['pad'], data['default']
        raw['default'] = full[:, :, p:-p, p:-p].copy()
        data['default'] = np.full(full.shape, float(spec['padval']))
        data['default'][:, :, p:-p, p:-p] = raw['default']
        wrap = 'pad'
    cut = spec['iter']['cut']
    how = None
    if cut == 'lengths':
        how = lens
    elif cut == 'mask' and masks:
        how = masks[0]
    return raw, data, lens if how is not None else None, how, wrap


def make_iter(spec, raw, how, wrap, seed):
    b = spec['iter']
    if b['whole']:
        it = Undivided(**raw)
    else:
        it = Minibatches(b['bs'], b['shuffle'], cut_according_to=how, **raw)
        it.rnd.set_seed(seed)
    if wrap == 'onehot':
        it = OneHot(it, {'default': spec['inputs']['default'][0]})
    elif wrap == 'pad':
        it = Pad(it, {'default': spec['pad']},
                 value_dict={'default': spec['padval']})
    return it


def batches(spec, data, lens):
    """The batches of an unshuffled pass."""
    b = spec['iter']
    n = spec['B']
    if b['whole']:
        return [data]
    res = []
    for i in range(0, n, b['bs']):
        part = {k: v[:, i:i + b['bs']] for k, v in data.items()}
        if lens is not None:
            part = {k: v[:max(lens[i:i + b['bs']])] for k, v in part.items()}
        res.append(part)
    return res


def modifiers(entries):
    res = {}
    for n, p, ms in entries:
        res.setdefault(n, {})[p] = objects.make_mod(ms)
    return res


def build(spec):
    return nets.build(spec, handler=NumpyHandler(np.float64))


def check(spec):
    d = tempfile.mkdtemp(prefix='c31_')
    try:
        with np.errstate(all='ignore'):
            return _check(spec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_schedule(s):
    if s[0] == 'Linear':
        return S.Linear(s[1], s[2], s[3])
    if s[0] == 'MultiStep':
        return S.MultiStep(s[1], s[2], s[3])
    return S.Exponential(s[1], s[2])


def _check(spec, d):
    rnd = np.random.RandomState(spec['seed'])
    net = build(spec)
    params = nets.draw_params(net, spec, rnd)
    nets.set_params(net, params)
    raw, data, lens, how, wrap = make_data(spec, rnd)
    valid = nets.draw_inputs(spec, rnd, T=1 + spec['seed'] % 3, B=spec['NV'])
    net.set_gradient_modifiers(modifiers(spec['mods']['grad']))
    net.set_weight_modifiers(modifiers(spec['mods']['weight']))
    lab = {'wrap': str(wrap), 'cut': how is not None and
           not spec['iter']['whole'], 'mods': bool(spec['mods']['grad'] or
                                                   spec['mods']['weight']),
           'phases': len(spec['phases']), 'updates': 0, 'moved': 0}
    trainer = None
    for nr, phase in enumerate(['first'] + spec['phases']):
        if phase == 'reload':
            f = os.path.join(d, 'net.hdf5')
            net.save_as_hdf5(f)
            net = bs.Network.from_hdf5(f)
            # the handler of a loaded network works in single precision
            net.set_handler(NumpyHandler(np.float64))
            net2 = bs.Network.from_hdf5(f)
            nets.set_params(net, nets.load_params(net2))
        elif phase == 'copy':
            vals = nets.load_params(net)
            net = bs.Network.from_architecture(net.architecture)
            net.set_handler(NumpyHandler(np.float64))
            net.set_gradient_modifiers(modifiers(spec['mods']['grad']))
            net.set_weight_modifiers(modifiers(spec['mods']['weight']))
            nets.set_params(net, vals)
        if phase == 'same trainer':
            rec.seen, watch.seen = [], []
            stop.max_epochs += spec['epochs']
        else:
            rec = Recorder(getattr(ST, spec['stepper'])(
                learning_rate=spec['lr'], **spec['kw']),
                np.random.RandomState(spec['seed'] + nr))
            trainer = bs.Trainer(rec, verbose=False)
            if spec['schedule']:
                trainer.add_hook(H.ModifyStepperAttribute(
                    make_schedule(spec['schedule']), 'learning_rate',
                    timescale=spec['sched_scale']))
            if spec['between']:
                trainer.add_hook(Poke(spec, d, np.random.RandomState(
                    spec['seed'] + 7)))
            if 'loss' in spec['between']:
                trainer.add_hook(H.MonitorLoss('valid', name='valid_loss',
                                               timescale='update'))
            watch = Watch()
            trainer.add_hook(watch)
            stop = H.StopAfterEpoch(spec['epochs'])
            trainer.add_hook(stop)
        trainer.train(net, make_iter(spec, raw, how, wrap,
                                     spec['seed'] % 1000),
                      valid=Undivided(**valid))
        judge(spec, nr, rec, watch, data, lens, lab)
    lab['updates'] = min(lab['updates'], 9)
    lab['moved'] = min(lab['moved'], 5)
    for k in nets.spec_kinds(spec):
        lab['layer:' + k] = 1
    for k in spec['between']:
        lab['between:' + k] = 1
    return lab


def judge(spec, nr, rec, watch, data, lens, lab):
    plan = batches(spec, data, lens)
    ensure(len(rec.seen) == len(watch.seen) == len(plan) * spec['epochs'],
           'training %d: %d updates in %d epochs of %d batches', nr,
           len(rec.seen), spec['epochs'], len(plan))
    mom = spec['kw'].get('momentum', 0.0)
    scaled = spec['kw'].get('scale_learning_rate', True)
    vel = None
    models = {(n, p): [objects.ModModel(m) for m in ms]
              for n, p, ms in spec['mods']['weight']}
    gmodels = {(n, p): [objects.ModModel(m) for m in ms]
               for n, p, ms in spec['mods']['grad']}
    last = None
    for i, (e, after) in enumerate(zip(rec.seen, watch.seen)):
        lab['updates'] += 1
        what = 'training %d, update %d' % (nr, i + 1)
        if not all(np.all(np.abs(v) < 1e4) for q in after.values()
                   for v in q.values()):
            return                          # diverged
        if last is not None:
            for n in last:
                for p in last[n]:
                    ensure(np.array_equal(last[n][p], e['before'][n][p]),
                           '%s: %s.%s changed since the previous update',
                           what, n, p)
        last = after
        batch = plan[i % len(plan)]
        if spec['iter']['shuffle'] and not spec['iter']['whole']:
            batch = e['batch']
        else:
            for k in batch:
                ensure(np.array_equal(batch[k], e['batch'][k]), '%s: %s is '
                       'not the batch of the data: %s', what, k,
                       nets.describe_diff(e['batch'][k], batch[k]))
        one = build(spec)
        point = e['before']
        if vel is None:
            vel = {n: {p: np.zeros_like(v) for p, v in q.items()}
                   for n, q in point.items()}
        if spec['stepper'] == 'NesterovStepper':
            point = {n: {p: v + mom * vel[n][p] for p, v in q.items()}
                     for n, q in point.items()}
        nets.set_params(one, point)
        one.handler.rnd.set_seed(e['seed'])
        one.provide_external_data(batch)
        one.forward_pass(training_pass=True)
        losses = {k: float(v) for k, v in one.get_loss_values().items()}
        for k, v in losses.items():
            ensure(set(losses) == set(e['losses']) and abs(
                e['losses'][k] - v) <= 1e-9 * (1 + abs(v)) or v != v,
                '%s: loss %s is %r, on the batch it is %r', what, k,
                e['losses'].get(k), v)
        passed = nets.load_params(one)      # with running statistics
        one.backward_pass()
        eta = e['lr']
        if scaled and spec['stepper'] != 'SgdStepper':
            eta = eta * (1 - mom)
        for n in sorted(passed):
            for p in sorted(passed[n]):
                g = one.get('%s.gradients.%s' % (n, p))
                for m in gmodels.get((n, p), ()):
                    g = m(g, passed[n][p])
                if spec['stepper'] == 'SgdStepper':
                    want = passed[n][p] - eta * g
                elif spec['stepper'] == 'MomentumStepper':
                    vel[n][p] = mom * vel[n][p] - eta * g
                    want = passed[n][p] + vel[n][p]
                else:
                    vel[n][p] = mom * vel[n][p] - eta * g
                    want = passed[n][p] - eta * g
                for m in models.get((n, p), ()):
                    want = m(want)
                got = after[n][p]
                if not np.all(np.abs(want) < 1e4):
                    return
                top = max(1.0, np.abs(g).max(initial=0),
                          np.abs(want).max(initial=0))
                ensure(nets.close(got, want, 1e-9, 1e-9 * top), '%s: '
                       'parameter %s.%s: %s', what, n, p,
                       nets.describe_diff(got, want))
        if any(not np.array_equal(after[n][p], e['before'][n][p])
               for n in after for p in after[n]):
            lab['moved'] += 1


def nontrivial(spec, labels):
    return labels['moved'] >= 3
