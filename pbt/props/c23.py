"""C23: schedules give the documented value at every point of training."""
import math

import numpy as np
from fractions import Fraction
from hypothesis import strategies as st

import brainstorm as bs
from pbt.core import Violation, ensure
from brainstorm import layers as L
from brainstorm.data_iterators import Minibatches
from brainstorm.describable import create_from_description, get_description
from brainstorm.handlers import NumpyHandler
from brainstorm.hooks import ModifyStepperAttribute, StopAfterEpoch
from brainstorm.training import schedules
from brainstorm.training import steppers as ST
from brainstorm.training.trainer import Trainer

ID = 'C23'
QUICK, THOROUGH = 16000, 200000
RULE = ('(a) Random schedules evaluated at random counts (near every change, '
        'far beyond the last one, in random order, repeatedly, also after a '
        'description round trip) for both time scales and random intervals, '
        'against the documented formula in exact rational arithmetic or with '
        'logarithms. (b) Whole trainings with one or two '
        'ModifyStepperAttribute hooks (documented schedules or plain '
        'functions) on the attributes of a stepper; the value in force at '
        'every single update, the arguments passed to the schedule and, for '
        'plain gradient descent, the change of the parameters are compared '
        'with the documented sequence. Non-trivial: at least one change of '
        'the value, or two updates.')
ASSUMPTIONS = ['the epoch number seen by a schedule called within an epoch '
               'is the number of finished or of started epochs',
               'intervals and numbers of changes are positive, the steps of '
               'MultiStep increase', 'the initial value of Exponential is '
               'not zero and its factor is positive']

NUM = [0.1, 1.0, 0.5, 0.9, 1e-3, 2.0, 10.0, 0.0, -1.0, 3]


@st.composite
def schedule(draw):
    k = draw(st.sampled_from(['Linear', 'Exponential', 'MultiStep',
                              'DecreaseAfterEpoch']))
    s = {'k': k, 'init': draw(st.sampled_from(NUM))}
    if k == 'Linear':
        s['final'] = draw(st.sampled_from(NUM))
        s['n'] = draw(st.sampled_from([1, 2, 3, 4, 7, 10, 33]))
    elif k == 'Exponential':
        s['init'] = s['init'] or 0.3
        s['factor'] = draw(st.sampled_from([0.9, 0.5, 1.0, 1.1, 2, 2.0,
                                            0.99, 1e-3, 7]))
        s['lim'] = [draw(st.sampled_from([None, None, 0.05, -2.0, 0.2])),
                    draw(st.sampled_from([None, None, 5, 0.95, 1.0]))]
    elif k == 'MultiStep':
        n = draw(st.integers(0, 4))
        steps = sorted(set(draw(st.lists(st.integers(1, 12), min_size=n,
                                         max_size=n))))
        s['steps'] = steps
        s['values'] = draw(st.lists(st.sampled_from(NUM),
                                    min_size=len(steps),
                                    max_size=len(steps)))
    else:
        s['n'] = draw(st.sampled_from([1, 2, 3, 5, 25]))
    return s


@st.composite
def value_case(draw):
    return {'sch': draw(schedule()),
            'scale': draw(st.sampled_from(['epoch', 'update'])),
            'interval': draw(st.sampled_from([1, 1, 2, 3, 7, 100])),
            'points': draw(st.lists(st.tuples(
                st.one_of(st.integers(0, 60), st.integers(0, 6000)),
                st.one_of(st.integers(0, 60), st.integers(0, 100000))),
                min_size=1, max_size=8)),
            'around': draw(st.booleans()), 'again': draw(st.booleans()),
            'copy': draw(st.booleans())}


@st.composite
def train_case(draw):
    hooks = []
    for attr in draw(st.sampled_from([['learning_rate'], ['learning_rate'],
                                      ['learning_rate', 'momentum'],
                                      ['momentum']])):
        hooks.append({'attr': attr, 'sch': draw(st.one_of(
            schedule(), schedule(), st.just({'k': 'function'}))),
            'scale': draw(st.sampled_from(['epoch', 'update', None])),
            'interval': draw(st.sampled_from([1, 1, 2, 3]))})
    return {'train': True, 'hooks': hooks, 'N': draw(st.integers(1, 6)),
            'bs': draw(st.integers(1, 3)), 'epochs': draw(st.integers(1, 5)),
            'again': draw(st.integers(0, 2)),
            'stepper': draw(st.sampled_from(['SgdStepper', 'MomentumStepper',
                                             'NesterovStepper'])),
            'seed': draw(st.integers(0, 999))}


def strategy():
    return st.one_of(value_case(), value_case(), train_case())


def make(s):
    k = s['k']
    if k == 'Linear':
        return schedules.Linear(s['init'], s['final'], s['n'])
    if k == 'Exponential':
        kw = {}
        if s['lim'][0] is not None:
            kw['minimum'] = s['lim'][0]
        if s['lim'][1] is not None:
            kw['maximum'] = s['lim'][1]
        return schedules.Exponential(s['init'], s['factor'], **kw)
    if k == 'MultiStep':
        return schedules.MultiStep(s['init'], list(s['steps']),
                                   list(s['values']))
    return schedules.DecreaseAfterEpoch(s['init'], s['n'])


def expected(s, epoch, update, scale, interval):
    """(value, relative error allowed)"""
    k = s['k']
    count = epoch if scale == 'epoch' else update
    n = count // interval
    if k == 'Linear':
        if n >= s['n']:
            return float(s['final'])
        a, b = Fraction(s['init']), Fraction(s['final'])
        return float(a + (b - a) * n / s['n'])
    if k == 'Exponential':
        sign = 1 if s['init'] > 0 else -1
        logv = math.log(abs(s['init'])) + n * math.log(s['factor'])
        if logv > 709:
            v = sign * math.inf
        elif n < 300:
            v = float(Fraction(s['init']) * Fraction(s['factor']) ** n)
        else:
            v = sign * math.exp(logv)
        lo, hi = s['lim']
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return float(v)
    if k == 'MultiStep':
        v = s['init']
        for step, val in zip(s['steps'], s['values']):
            if count >= step:
                v = val
        return float(v)
    # constant for n epochs, then 1 / epoch number
    e = epoch + 1
    return float(s['init'] if e <= s['n'] else
                 Fraction(s['init']) * s['n'] / e)


def same(a, b, s):
    size = max(abs(b), abs(s.get('init', 0)) * (s['k'] == 'Linear'),
               abs(s.get('final', 0)))
    rel = 1e-12
    if s['k'] == 'Exponential':
        if not math.isinf(b) and abs(b) > 1e280 and math.isinf(a):
            return True
        rel = 1e-9
    return a == b or abs(a - b) <= rel * size + 1e-300


def describe(s, scale, interval):
    return '%s (time scale %s, interval %d)' % (s, scale, interval)


def check_values(s):
    sch, scale, interval = s['sch'], s['scale'], s['interval']
    if sch['k'] == 'MultiStep':
        interval = 1
    if sch['k'] == 'Exponential' and sch['lim'][0] is not None and \
            sch['lim'][1] is not None and sch['lim'][0] > sch['lim'][1]:
        sch['lim'] = sch['lim'][::-1]
    f = make(sch)
    if s['copy']:
        f = create_from_description(get_description(f))
    points = [list(p) for p in s['points']]
    if s['around']:
        marks = [sch.get('n', 3) * interval, interval] + sch.get('steps', [])
        for m in marks:
            for d in (-1, 0, 1):
                if m + d >= 0:
                    points.append([m + d, m + d])
                    points.append([0, m + d])
                    points.append([m + d, 0])
    if s['again']:
        points = points + points[::-1]
    seen = set()
    for e, u in points:
        got = f(e, u, scale, interval, None, None, None)
        want = expected(sch, e, u, scale, interval)
        ensure(isinstance(float(got), float) and same(float(got), want, sch),
               '%s at epoch %d, update %d is %r, expected %r', describe(
                   sch, scale, interval), e, u, got, want)
        seen.add(round(want, 12) if math.isfinite(want) else want)
    # starts at the initial value, within the limits
    if sch['k'] != 'Exponential':
        start = f(0, 0, scale, interval, None, None, None)
        ensure(same(float(start), float(sch['init']), sch), '%s starts at %r',
               describe(sch, scale, interval), start)
    return {'what': sch['k'], 'changes': len(seen) > 1}


class Recorder(object):
    """Mix-in for steppers: remember the attributes in force at a step."""

    def run(self):
        net = self.net
        before = np.array(net.buffer.parameters)
        super(Recorder, self).run()
        self.trace.append({a: getattr(self, a) for a in self.attrs})
        if type(self).__name__ == 'Rec_SgdStepper':
            delta = np.array(net.buffer.parameters) - before
            want = -self.learning_rate * np.array(net.buffer.gradients)
            ensure(np.allclose(delta, want, rtol=1e-9, atol=1e-12),
                   'the step does not use the learning rate %r',
                   self.learning_rate)


def recording(kind):
    cls = getattr(ST, kind)
    return type('Rec_' + kind, (Recorder, cls), {})


def check_train(s):
    rs = np.random.RandomState(s['seed'])
    inp = L.Input(out_shapes={'default': ('T', 'B', 2),
                              'targets': ('T', 'B', 1)})
    out = L.SquaredError(name='out')
    inp - 'default' >> L.FullyConnected(1, activation='linear') >> \
        'default' - out
    inp - 'targets' >> 'targets' - out
    out - 'loss' >> L.Loss()
    net = bs.Network.from_layer(inp)
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(bs.initializers.Gaussian(0.1))
    data = dict(default=rs.normal(size=(1, s['N'], 2)) * .1,
                targets=rs.normal(size=(1, s['N'], 1)) * .1)
    it = Minibatches(s['bs'], shuffle=False, **data)
    per_epoch = -(-s['N'] // s['bs'])
    stepper = recording(s['stepper'])(learning_rate=0.0625)
    stepper.attrs = ['learning_rate'] + (
        ['momentum'] if s['stepper'] != 'SgdStepper' else [])
    stepper.trace = []
    hooks = [h for h in s['hooks'] if h['attr'] in stepper.attrs]
    calls = {}
    trainer = Trainer(stepper, verbose=False)
    for n, h in enumerate(hooks):
        if h['sch']['k'] == 'function':
            calls[n] = []

            def fun(epoch_nr, update_nr, timescale, interval, net_, stepper_,
                    logs, log=calls[n]):
                log.append((epoch_nr, update_nr, timescale, interval,
                            net_ is net, stepper_ is stepper))
                return 1e-3 * epoch_nr + 1e-4 * update_nr
            sch = fun
        else:
            sch = make(dict(h['sch'], init=h['sch']['init'] or 0.25))
            if h['sch']['k'] == 'MultiStep':
                h['interval'] = 1
            if h['sch']['k'] == 'Exponential' and None not in \
                    h['sch']['lim'] and h['sch']['lim'][0] > h['sch'][
                        'lim'][1]:
                h['sch']['lim'] = h['sch']['lim'][::-1]
                sch = make(h['sch'])
        kw = {'attr_name': h['attr']} if h['attr'] != 'learning_rate' or \
            s['seed'] % 2 else {}
        if h['scale']:
            kw['timescale'] = h['scale']
        if h['interval'] != 1 or s['seed'] % 3:
            kw['interval'] = h['interval']
        trainer.add_hook(ModifyStepperAttribute(sch, name='m%d' % n, **kw))
    trainer.add_hook(StopAfterEpoch(s['epochs']))
    with np.errstate(all='ignore'):
        trainer.train(net, it)
        total = [s['epochs']]
        for _ in range(s['again']):
            trainer.hooks['StopAfterEpoch'].max_epochs = total[0] + 1
            trainer.train(net, it)
            total[0] += 1
    trace = stepper.trace
    ensure(len(trace) == per_epoch * total[0], 'number of updates %d',
           len(trace))
    changes = set()
    for n, h in enumerate(hooks):
        scale = h['scale'] or 'epoch'
        for u, values in enumerate(trace):
            e = u // per_epoch
            # the last call of the hook before this update
            count = e if scale == 'epoch' else u
            count -= count % h['interval']
            cu = count * per_epoch if scale == 'epoch' else count
            # within an epoch: finished or started epochs
            cands = [count] if scale == 'epoch' else sorted(
                {count // per_epoch, -(-count // per_epoch)})
            if h['sch']['k'] == 'function':
                want = [1e-3 * c + 1e-4 * cu for c in cands]
                ok = any(abs(values[h['attr']] - w) < 1e-12 for w in want)
            else:
                sp = dict(h['sch'], init=h['sch']['init'] or 0.25)
                want = [expected(sp, c, cu, scale, h['interval'])
                        for c in cands]
                ok = any(same(float(values[h['attr']]), w, sp) for w in want)
            ensure(ok, '%s is %r at update %d (of %d per epoch), expected %r '
                   'by %s', h['attr'], values[h['attr']], u, per_epoch, want,
                   describe(h['sch'], scale, h['interval']))
            changes.add(round(float(values[h['attr']]), 12))
        if n in calls:
            ensure(all(c[2] == scale and c[3] == h['interval'] and c[4] and
                       c[5] for c in calls[n]), 'arguments of the schedule: '
                   '%s', calls[n][:3])
    for a in stepper.attrs:
        if a not in [h['attr'] for h in hooks]:
            ensure(all(v[a] == (0.0625 if a == 'learning_rate' else 0.0)
                       for v in trace), '%s was changed without a hook', a)
    return {'what': 'train', 'changes': len(trace) > 1,
            'again': s['again']}


def check(s):
    return check_train(s) if s.get('train') else check_values(s)


def nontrivial(s, labels):
    return labels['changes']
