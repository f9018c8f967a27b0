"""C13: the trainer calls steps and hooks exactly as documented."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import nets, objects
from pbt.core import ensure
import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import layers as L
from brainstorm import scorers as S
from brainstorm.data_iterators import DataIterator
from brainstorm.handlers import NumpyHandler
from brainstorm.training import steppers as ST
from brainstorm.training.trainer import Trainer

ID = 'C13'
QUICK, THOROUGH = 4000, 60000
RULE = ('Random trainers: several hooks with random time scales, intervals, '
        'return values (numbers, nested dictionaries, nothing) and stop '
        'requests, random data with uneven last batches, scorers, weight '
        'modifiers, repeated train and evaluate calls. The complete trace '
        '(starts, steps with their data, hook calls with counters, logs and '
        'parameters) is compared with a model of the training loop. '
        'Non-trivial: at least two hooks and two updates.')
ASSUMPTIONS = ['stop requests are StopIteration exceptions raised by hooks',
               'a stop request during an epoch ends it after all hooks of '
               'that update and of the shortened epoch were called']


@st.composite
def hook_spec(draw, i):
    return {'name': draw(st.sampled_from(['h%d' % i, 'h%d' % i, 'z%d' % (
        9 - i)])),
        'timescale': draw(st.sampled_from(['epoch', 'update'])),
        'interval': draw(nets.rarely(st.sampled_from([1, 1, 2, 3]),
                                     st.sampled_from([4, 5, 10]))),
        'ret': draw(st.sampled_from(['none', 'num', 'dict', 'nested',
                                     'zero', 'empty'])),
        'stop': draw(st.sampled_from([None] * 8 + [1, 2, 3, 4, 6])),
        'stopval': draw(st.sampled_from([None, 7, 'dict', 0])),
        'omit': draw(st.booleans()),        # options at their default value
        'verbose': draw(st.sampled_from([None, True, False]))}


@st.composite
def strategy_(draw):
    n = draw(nets.rarely(st.sampled_from([2, 3, 4, 1, 0]),
                         st.sampled_from([6, 11, 13])))
    return {
        'hooks': [draw(hook_spec(i)) for i in range(n)],
        'N': draw(nets.rarely(st.sampled_from([5, 3, 4, 7, 2, 1]),
                              st.sampled_from([23, 40]))),
        'bs': draw(st.sampled_from([2, 1, 3, 4])),
        'T': draw(st.integers(1, 2)), 'epochs': draw(
            nets.rarely(st.integers(1, 4), st.sampled_from([7, 12]))),
        'losses': draw(st.integers(1, 2)),
        'scorers': draw(st.lists(st.sampled_from(
            ['mse', 'mse_masked', 'named']), max_size=2, unique=True)),
        'stepper': draw(st.sampled_from(['SgdStepper', 'NesterovStepper',
                                         'MomentumStepper'])),
        'mods': draw(st.lists(objects.mod_spec().filter(
            lambda m: m['m'] == 'ClipValues'), max_size=1)),
        'calls': draw(st.sampled_from([['train'], ['train', 'train'],
                                       ['train', 'evaluate'],
                                       ['evaluate', 'train'], ['train']])),
        'verbose': draw(st.booleans()),
        'seed': draw(st.integers(0, 999))}


def strategy():
    return strategy_()


class RecHook(H.Hook):
    def __init__(self, spec, trace):
        kw = {k: spec[k] for k in ('timescale', 'interval', 'verbose')
              if not (spec['omit'] and spec[k] in ('epoch', 1, None) and
                      spec[k] is not True)}
        super(RecHook, self).__init__(spec['name'], **kw)
        self.spec, self.trace, self.calls = spec, trace, 0

    def start(self, net, stepper, verbose, named_data_iters):
        super(RecHook, self).start(net, stepper, verbose, named_data_iters)
        self.trace.append(('start', self.spec['name'],
                           sorted(named_data_iters)))

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.calls += 1
        self.trace.append(('hook', self.spec['name'], epoch_nr, update_nr,
                           copy.deepcopy(logs), net.get('parameters')))
        v, stop = answer(self.spec, self.calls)
        if stop:
            raise StopIteration(v)
        return v


def answer(spec, calls):
    if spec['stop'] is not None and calls >= spec['stop']:
        v = spec['stopval']
        if v is not None and spec['ret'] != 'none':
            # a hook logs either numbers or dictionaries
            v = 'dict' if spec['ret'] in ('dict', 'nested', 'empty') else v \
                if v != 'dict' else 7
        return ({'s': calls, 't': {'u': 1}} if v == 'dict' else v), True
    return {'none': None, 'num': calls, 'zero': 0, 'empty': {},
            'dict': {'a': calls, 'b': 0.5},
            'nested': {'a': calls, 'b': {'c': -calls, 'd': None}}}[
        spec['ret']], False


class End(H.Hook):
    def __init__(self, n):
        super(End, self).__init__('the_end')
        self.n = n

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if epoch_nr >= self.n:
            raise StopIteration()


class RecIter(DataIterator):
    def __init__(self, data, bs_, trace):
        n = list(data.values())[0].shape[1]
        super(RecIter, self).__init__(
            {k: v.shape for k, v in data.items()}, -(-n // bs_))
        self.data_, self.bs, self.n, self.trace_ = data, bs_, n, trace

    def __call__(self, handler):
        for i in range(0, self.n, self.bs):
            yield {k: handler.create_from_numpy(v[:, i:i + self.bs])
                   for k, v in self.data_.items()}


def make_stepper(name, trace):
    base = getattr(ST, name)

    class RecStepper(base):
        def start(self, net):
            trace.append(('stepper start',))
            base.start(self, net)

        def run(self):
            r = base.run(self)
            net = self.net
            trace.append(('step', net.get_input('default'),
                          net.get('parameters'), net.get_loss_values(),
                          net.get('o.outputs.default'),
                          net.get_input('targets'), net.get_input('m')))
            return r
    RecStepper.__name__ = str('Rec' + name)
    return RecStepper(0.1)


def build(spec):
    inp = L.Input(out_shapes={'default': ('T', 'B', 2),
                              'targets': ('T', 'B', 2),
                              'm': ('T', 'B', 1)})
    o = L.FullyConnected(2, activation='tanh', name='o')
    e = L.SquaredError(name='e')
    k = L.Mask(name='k')
    inp >> o >> 'default' - e
    inp - 'targets' >> 'targets' - e
    e - 'loss' >> k
    inp - 'm' >> 'mask' - k
    k >> L.Loss(name='loss')
    if spec['losses'] == 2:
        o >> L.Loss(importance=0.1, name='aux')
    net = bs.Network.from_layer(inp)
    net.set_handler(NumpyHandler(np.float64))
    net.output_name = 'o.outputs.default'
    net.initialize(bs.initializers.Gaussian(1.5), seed=spec['seed'])
    net.set_weight_modifiers(objects.make_mod(spec['mods']))
    return net


def add_log(logs, name, val):
    if val is None:
        return
    if isinstance(val, dict):
        d = logs.setdefault(name, {})
        for k, v in val.items():
            add_log(d, k, v)
    else:
        logs.setdefault(name, []).append(val)


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12))


def scorer(kind):
    return {'mse': lambda: S.MeanSquaredError(),
            'mse_masked': lambda: S.MeanSquaredError(mask_name='m',
                                                     name='masked'),
            'named': lambda: S.MeanSquaredError(
                out_name='o.outputs.default', name='named')}[kind]()


def score(kind, step):
    """(weight, summed score) of one step."""
    _, x, p, losses, out, targets, mask = step
    err = 0.5 * (out - targets) ** 2
    if kind == 'mse_masked':
        return mask.sum(), (err * mask).sum()
    return out.shape[0] * out.shape[1], err.sum()


class Model(object):
    """The documented loop, replayed over the recorded trace."""

    def __init__(self, spec, trace, data, hooks):
        self.spec, self.trace, self.pos = spec, trace, 0
        self.data, self.hooks = data, hooks
        self.logs, self.results = {}, {}
        self.epoch = self.update = 0
        self.calls = {h['name']: 0 for h in hooks}
        self.updates = 0

    def next(self, kind, what):
        ensure(self.pos < len(self.trace), 'training ended before: %s', what)
        e = self.trace[self.pos]
        ensure(e[0] == kind, 'expected %s, got %s', what, e[:4])
        self.pos += 1
        return e

    def emit(self, timescale, params, logs=None):
        stop = False
        count = self.epoch if timescale == 'epoch' else self.update
        for h in self.hooks + [None]:
            if h is None:                   # End is the last hook
                if timescale == 'epoch' and self.epoch >= self.end:
                    stop = True
                continue
            if h['timescale'] != timescale or count % h['interval']:
                continue
            e = self.next('hook', 'call of hook %s (epoch %d, update %d)' % (
                h['name'], self.epoch, self.update))
            ensure(e[1] == h['name'], 'hook %s is called instead of %s',
                   e[1], h['name'])
            ensure((e[2], e[3]) == (self.epoch, self.update), 'hook %s is '
                   'called with counters %s instead of %s', e[1], e[2:4],
                   (self.epoch, self.update))
            ensure(same(e[4], self.logs), 'hook %s sees logs %s instead of '
                   '%s', e[1], e[4], self.logs)
            ensure(np.allclose(e[5], params, rtol=1e-12, atol=0), 'hook %s '
                   'sees other parameters', e[1])
            self.calls[h['name']] += 1
            v, s = answer(h, self.calls[h['name']])
            stop |= s
            add_log(self.logs if logs is None else logs, h['name'], v)
        return stop

    def starts(self, names):
        for h in self.hooks:
            e = self.next('start', 'start of hook %s' % h['name'])
            ensure(e[1] == h['name'] and e[2] == sorted(names), 'hook %s is '
                   'started with iterators %s', e[1], e[2])

    def train(self, params, end):
        self.end = end
        self.next('stepper start', 'start of the stepper')
        self.starts(['extra', 'training_data_iter'])
        if self.emit('update', params) or self.emit('epoch', params):
            return params
        n, bs_ = self.spec['N'], self.spec['bs']
        stop = False
        while not stop:
            self.epoch += 1
            ensure(self.epoch < 50, 'model does not end')
            steps = []
            for i in range(0, n, bs_):
                self.update += 1
                self.updates += 1
                e = self.next('step', 'step %d' % self.update)
                steps.append(e)
                ensure(np.array_equal(e[1], self.data['default'][
                    :, i:i + bs_]), 'step %d sees other data than batch %d',
                    self.update, i // bs_)
                params = e[2]
                for m in self.spec['mods']:
                    params = objects.ModModel(m)(params)
                if self.emit('update', params):
                    stop = True
                    break
            roll = {}
            for k in steps[0][3]:
                w = sum(s[1].shape[1] for s in steps)
                roll[k] = sum(s[3][k] * s[1].shape[1] for s in steps) / w
            for k in self.spec['scorers']:
                ws = [score(k, s) for s in steps]
                w = sum(x[0] for x in ws)
                roll[scorer(k).__name__] = sum(x[1] for x in ws) / w
            add_log(self.logs, 'rolling_training', roll)
            stop |= self.emit('epoch', params)
        return params

    def evaluate(self, params):
        self.end = self.epoch + 1
        self.starts(['extra'])
        self.emit('epoch', params, self.results)
        self.emit('update', params, self.results)


def check(spec):
    rnd = np.random.RandomState(spec['seed'])
    N, T = spec['N'], spec['T']
    data = {'default': rnd.normal(size=(T, N, 2)),
            'targets': rnd.normal(size=(T, N, 2)),
            'm': rnd.randint(0, 2, size=(T, N, 1)).astype(float)}
    data['m'][0] = 1.
    net = build(spec)
    trace = []
    trainer = Trainer(make_stepper(spec['stepper'], trace),
                      verbose=spec['verbose'])
    trainer.train_scorers = [scorer(k) for k in spec['scorers']]
    hooks = []
    for h in spec['hooks']:
        dup = h['name'] in [x['name'] for x in hooks]
        try:
            trainer.add_hook(RecHook(h, trace))
        except ValueError:
            ensure(dup, 'hook %s is refused', h['name'])
        else:
            ensure(not dup, 'two hooks of the name %s', h['name'])
            hooks.append(h)
    end = End(0)
    trainer.add_hook(end)
    it = RecIter(data, spec['bs'], trace)
    extra = RecIter(data, 3, trace)
    m = Model(spec, trace, data, hooks)
    # names that do not fit the network are refused
    try:
        trainer.train(net, RecIter({'default': data['default']}, 1, trace))
    except AssertionError:
        ensure(not [e for e in trace if e[0] in ('step', 'hook')], 'work '
               'was done before refusing the data')
        del trace[:]
    else:
        ensure(False, 'data without targets is accepted')
    params = net.get('parameters')
    for call in spec['calls']:
        if call == 'train':
            end.n = trainer.current_epoch_nr + spec['epochs']
            trainer.train(net, it, extra=extra)
            params = m.train(params, end.n)
            ensure(np.allclose(net.get('parameters'), params, rtol=1e-12,
                               atol=0), 'parameters after training differ')
        else:
            end.n = trainer.current_epoch_nr + 1
            r = trainer.evaluate(net, extra=extra)
            m.evaluate(params)
            ensure(same(r, m.results), 'evaluate returns %s instead of %s',
                   r, m.results)
            ensure(np.array_equal(net.get('parameters'), params),
                   'evaluate changed the parameters')
        ensure(m.pos == len(trace), 'more happened than documented: %s',
               trace[m.pos:m.pos + 1][0][:4] if m.pos < len(trace) else '')
        ensure(same(trainer.logs, m.logs), 'logs are %s instead of %s',
               trainer.logs, m.logs)
        ensure((trainer.current_epoch_nr, trainer.current_update_nr) ==
               (m.epoch, m.update), 'counters are wrong')
    ensure(list(trainer.logs.get('rolling_training', {})) ==
           list(net.get_loss_values()) + [scorer(k).__name__
                                          for k in spec['scorers']] or
           not trainer.logs.get('rolling_training'), 'order of the rolling '
           'training log')
    return {'hooks': len(hooks), 'updates': min(m.updates, 9),
            'calls': ','.join(spec['calls'])}


def nontrivial(spec, labels):
    return labels['hooks'] >= 2 and labels['updates'] >= 2
