"""C14: stopping and saving hooks act exactly at their criterion."""
import os
import shutil
import signal
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import layers as L
from brainstorm.handlers import NumpyHandler
from brainstorm.training.steppers import SgdStepper
from brainstorm.training.trainer import Trainer

ID = 'C14'
QUICK, THOROUGH = 8000, 150000
RULE = ('Random histories of log values (ties, plateaus, infinities, NaN '
        'where meaningful, nested log names) fed to every stopping and saving '
        'hook, call by call and through a real trainer; stop points, stored '
        'parameters and files are compared with the criterion computed from '
        'the whole history. Non-trivial: at least three log values, or a '
        'stop.')
ASSUMPTIONS = ['the hook is called on the time scale of the log it reads',
               'early stopping and thresholds are used on logs without NaN',
               'before the first epoch a missing log is tolerated']

val = st.one_of(st.sampled_from([0.0, 1.0, 0.5, -1.0, 0.5, 2.0, 1.0]),
                st.sampled_from([1e-300, -1e300, float('inf'),
                                 float('-inf'), 0.1, 0.3]),
                st.integers(-3, 3))
NAMES = ['val.total_loss', 'val.a.b', 'plain']


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(
        ['EarlyStopper', 'StopAfterThresholdReached', 'StopAfterEpoch',
         'StopOnNan', 'SaveBestNetwork', 'SaveLogs', 'SaveNetwork',
         'EarlyStopper', 'SaveBestNetwork', 'StopOnSigQuit']))
    s = {'kind': kind, 'log': draw(st.sampled_from(NAMES)),
         'hist': draw(nets.rarely(
             st.lists(val, min_size=1, max_size=10),
             st.lists(val, min_size=11, max_size=40))),
         'via': draw(st.sampled_from(['direct', 'direct', 'trainer'])),
         'first': draw(st.booleans()),
         # number of values logged between two calls of the hook
         'gap': draw(nets.rarely(
             st.sampled_from([1, 1, 1, 2, 3]), st.integers(4, 12))),
         'timescale': draw(st.sampled_from(['epoch', 'epoch', 'update'])),
         'interval': draw(st.sampled_from([1, 1, 2, 3])),
         'verbose': draw(st.booleans()),
         'seed': draw(st.integers(0, 999)), 'kw': {}}
    kw = s['kw']
    if kind in ('EarlyStopper', 'StopAfterThresholdReached',
                'SaveBestNetwork'):
        if kind == 'SaveBestNetwork' or draw(st.booleans()):
            kw['criterion'] = draw(st.sampled_from(['min', 'max']))
    if kind == 'EarlyStopper' and draw(st.integers(0, 3)):
        kw['patience'] = draw(nets.rarely(st.integers(1, 5),
                                         st.integers(6, 15)))
    if kind == 'StopAfterThresholdReached':
        kw['threshold'] = draw(val)
    if kind == 'StopAfterEpoch':
        kw['max_epochs'] = draw(st.integers(0, 8))
    if kind == 'SaveBestNetwork':
        s['file'] = draw(st.integers(0, 3)) == 0
        s['nan'] = draw(st.sets(st.integers(0, 9), max_size=2).map(sorted))
    if kind == 'StopOnNan':
        for a in ('check_parameters', 'check_training_loss'):
            if draw(st.booleans()):
                kw[a] = draw(st.booleans())
        s['as'] = draw(st.sampled_from(['list', 'str', 'none', 'two']))
        s['hist'] = [x if np.isfinite(x) else 1.0 for x in s['hist']]
        s['bad_at'] = draw(st.integers(0, 10))
        s['bad'] = draw(st.sampled_from(['nan', 'inf', '-inf']))
        s['bad_in'] = draw(st.sampled_from(
            ['log', 'params', 'roll', 'other', 'second']))
    if kind == 'StopOnSigQuit':
        s['quit_at'] = draw(st.integers(0, 10))
    return s


def strategy():
    return strategy_()


def small_net(seed):
    inp = L.Input(out_shapes={'default': ('T', 'B', 1),
                              'targets': ('T', 'B', 1)})
    o = L.FullyConnected(2, activation='tanh', name='o')
    p = L.FullyConnected(1, activation='linear', name='p')
    e = L.SquaredError(name='e')
    inp >> o >> p >> 'default' - e
    inp - 'targets' >> 'targets' - e
    e - 'loss' >> L.Loss(name='loss')
    net = bs.Network.from_layer(inp)
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(bs.initializers.Gaussian(1.0), seed=seed)
    return net


def put(logs, path, values):
    parts = path.split('.')
    for p in parts[:-1]:
        logs = logs.setdefault(p, {})
    logs[parts[-1]] = list(values)


def history(s):
    h = [float(x) for x in s['hist']]
    for i in s.get('nan', []):
        if i < len(h):
            h[i] = float('nan')
    return h


def should_stop(s, seen):
    """The documented criterion on the values logged so far."""
    k, kw = s['kind'], s['kw']
    crit = kw.get('criterion', 'min')
    if k == 'EarlyStopper':
        if not seen:
            return False
        best = seen[0]
        since = 0
        for x in seen[1:]:
            better = x < best if crit == 'min' else x > best
            if better:
                best, since = x, 0
            else:
                since += 1
        return since >= kw.get('patience', 1)
    if k == 'StopAfterThresholdReached':
        t = kw['threshold']
        return any(x <= t if crit == 'min' else x >= t for x in seen)
    raise KeyError(k)


def calls(hook, net, logs, n, s):
    """Call the hook as after the n-th epoch/update; True: stop."""
    per = 3
    if s['timescale'] == 'epoch':
        e, u = n, n * per
    else:
        u, e = n, -(-n // per)
    try:
        hook(epoch_nr=e, update_nr=u, net=net, stepper=None, logs=logs)
    except StopIteration:
        return True
    return False


def direct(s, tmp):
    rnd = np.random.RandomState(s['seed'])
    net = small_net(s['seed'])
    kind, kw = s['kind'], dict(s['kw'])
    hist = history(s)
    labels = {}
    common = dict(timescale=s['timescale'])
    if kind not in ('SaveLogs', 'SaveNetwork'):
        common['verbose'] = s['verbose']
    stopped = None

    def fresh_params():
        net.buffer.parameters[:] = rnd.normal(
            size=net.buffer.parameters.shape)

    if kind in ('EarlyStopper', 'StopAfterThresholdReached'):
        hook = getattr(H, kind)(s['log'], **dict(kw, **common))
        hook.start(net, None, False, {})
        ensure(not calls(hook, net, {}, 0, s), '%s stops without any log',
               kind)
        for n in range(s['gap'], len(hist) + 1, s['gap']):
            logs = {'other': [1.0]}
            put(logs, s['log'], hist[:n])
            want = should_stop(s, hist[:n])
            got = calls(hook, net, logs, n, s)
            ensure(got == want, '%s%s on history %s: %s', kind, kw, hist[:n],
                   'stops too early' if got else 'does not stop')
            if want:
                stopped = n
                break
        try:
            calls(hook, net, {'other': [1.0]}, 3, s)
        except KeyError:
            pass
        else:
            ensure(False, 'a missing log goes unnoticed')
    elif kind == 'StopAfterEpoch':
        hook = H.StopAfterEpoch(**dict(kw, **common))
        hook.start(net, None, False, {})
        for n in range(0, 12):
            e = n if s['timescale'] == 'epoch' else -(-n // 3)
            got = calls(hook, net, {}, n, s)
            ensure(got == (e >= kw['max_epochs']), 'StopAfterEpoch(%d) %s at '
                   'epoch %d', kw['max_epochs'], 'stops' if got else
                   'does not stop', e)
            if got:
                stopped = n
                break
    elif kind == 'StopOnNan':
        if s['as'] == 'list':
            kw['logs_to_check'] = [s['log']]
        elif s['as'] == 'str':
            kw['logs_to_check'] = s['log']
        elif s['as'] == 'two':
            kw['logs_to_check'] = (s['log'], 'second')
        hook = H.StopOnNan(**dict(kw, **common))
        hook.start(net, None, False, {})
        ensure(not calls(hook, net, {}, 0, s), 'StopOnNan stops at once')
        bad = float(s['bad'])
        for n in range(s['gap'], len(hist) + 1, s['gap']):
            logs = {}
            h = hist[:n]
            hit = n > s['bad_at']
            where = s['bad_in']
            with_bad = h[:s['bad_at']] + [bad] + h[s['bad_at'] + 1:]
            put(logs, s['log'], with_bad if hit and where == 'log' else h)
            put(logs, 'second', with_bad if hit and where == 'second' else h)
            put(logs, 'unrelated', [float('nan')])
            put(logs, 'rolling_training.total_loss',
                with_bad if hit and where == 'roll' else h)
            if hit and where == 'params':
                net.buffer.parameters[s['seed'] % 7] = bad
            want = hit and (
                where == 'log' and s['as'] != 'none' or
                where == 'second' and s['as'] == 'two' or
                where == 'params' and kw.get('check_parameters', True) or
                where == 'roll' and kw.get('check_training_loss', True))
            got = calls(hook, net, logs, n, s)
            ensure(got == bool(want), 'StopOnNan(%s) with %s in %s: %s', kw,
                   s['bad'] if hit else 'nothing', where,
                   'stops' if got else 'does not stop')
            if want:
                stopped = n
                break
    elif kind == 'SaveBestNetwork':
        f = os.path.join(tmp, 'best.h5') if s['file'] else None
        hook = H.SaveBestNetwork(s['log'], filename=f, **dict(kw, **common))
        hook.start(net, None, False, {})
        ensure(not calls(hook, net, {}, 0, s), 'stops')
        best, want, writes = None, None, 0
        for n in range(1, len(hist) + 1):
            fresh_params()
            now = net.get('parameters')
            x = hist[n - 1]
            start = float('inf') if kw['criterion'] == 'min' else \
                float('-inf')
            ref = start if best is None else best
            if (x < ref if kw['criterion'] == 'min' else x > ref):
                best, want = x, now
                writes += 1
            logs = {}
            put(logs, s['log'], hist[:n])
            ensure(not calls(hook, net, logs, n, s), 'SaveBestNetwork stops '
                   'the training')
            ensure(np.array_equal(net.get('parameters'), now),
                   'SaveBestNetwork changed the network')
            net.buffer.parameters[:] = -99.        # must not affect the copy
            if want is None:
                continue
            got = hook.load_best_network()
            if s['file']:
                got = got.get('parameters')
            ensure(np.array_equal(got, want), 'after history %s the saved '
                   'network is not the best one', hist[:n])
        labels['improved'] = min(writes, 3)
    elif kind == 'SaveLogs':
        f = os.path.join(tmp, 'logs.h5')
        hook = H.SaveLogs(f, **common)
        hook.start(net, None, False, {})
        logs = {}
        for n in range(0, len(hist) + 1):
            if n:
                put(logs, s['log'], hist[:n])
                put(logs, 'val.more.deep', [float(i) for i in range(n)])
            ensure(not calls(hook, net, logs, n, s), 'SaveLogs stops')
            with h5py.File(f, 'r') as g:
                same_logs(g, logs)
    elif kind == 'SaveNetwork':
        f = os.path.join(tmp, 'net.h5')
        hook = H.SaveNetwork(f, **common)
        hook.start(net, None, False, {})
        for n in range(0, min(len(hist), 4)):
            fresh_params()
            ensure(not calls(hook, net, {}, n, s), 'SaveNetwork stops')
            ensure(np.array_equal(hook.load_network().get('parameters'),
                                  net.get('parameters')), 'the saved network '
                   'has other parameters')
    elif kind == 'StopOnSigQuit':
        old = signal.getsignal(signal.SIGQUIT)
        try:
            hook = H.StopOnSigQuit(**common)
            hook.start(net, None, False, {})
            for n in range(0, 6):
                if n == s['quit_at']:
                    signal.raise_signal(signal.SIGQUIT)
                got = calls(hook, net, {}, n, s)
                ensure(got == (n >= s['quit_at']), 'StopOnSigQuit %s',
                       'stops without a signal' if got else 'does not stop')
                if got:
                    stopped = n
                    hook.start(net, None, False, {})
                    ensure(not calls(hook, net, {}, n, s), 'StopOnSigQuit '
                           'remembers an old signal')
                    break
        finally:
            signal.signal(signal.SIGQUIT, old)
    labels['stopped'] = stopped is not None
    return labels


def same_logs(group, logs):
    ensure(set(group) == set(logs), 'saved logs are %s instead of %s',
           sorted(group), sorted(logs))
    for k, v in logs.items():
        if isinstance(v, dict):
            ensure(isinstance(group[k], h5py.Group), '%s is not a group', k)
            same_logs(group[k], v)
        else:
            ensure(np.array_equal(group[k][()], np.array(v),
                                  equal_nan=True),
                   'saved log %s is %s instead of %s', k, group[k][()], v)


class Script(H.Hook):
    """Logs the values of the history one after the other."""

    def __init__(self, hist, path, rec, bad, timescale, interval):
        super(Script, self).__init__(path.split('.')[0], timescale, interval)
        self.hist, self.path, self.rec, self.i = hist, path, rec, 0
        self.bad = bad

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if self.i >= len(self.hist):
            raise StopIteration()
        v = self.hist[self.i]
        if self.bad and self.i == self.bad[0]:
            if np.isnan(self.bad[2]):
                net.buffer.parameters[self.bad[1]] = self.bad[2]
            else:       # before the tanh it would leave the loss finite
                net.buffer.p.parameters.W[0, self.bad[1] % 2] = self.bad[2]
        self.i += 1
        self.rec.append((v, net.get('parameters')))
        for p in reversed(self.path.split('.')[1:]):
            v = {p: v}
        return v


PER = 2     # updates per epoch


def through_trainer(s, tmp):
    """Script and hook in one trainer; epochs run until one stops."""
    kind, kw = s['kind'], dict(s['kw'])
    hist = history(s)
    net = small_net(s['seed'])
    rnd = np.random.RandomState(s['seed'])
    rec = []
    ts, iv = s['timescale'], s['interval']
    bad = None
    if kind == 'StopOnNan':
        if s['as'] != 'none':
            kw['logs_to_check'] = s['log'] if s['as'] == 'str' else [s['log']]
        if s['bad_in'] == 'params':
            bad = (s['bad_at'], s['seed'] % 7, float(s['bad']))
        elif s['bad_in'] == 'log' and s['bad_at'] < len(hist):
            hist[s['bad_at']] = float(s['bad'])
    script = Script(hist, s['log'], rec, bad, ts, iv)
    common = {}
    if ts != 'epoch':
        common['timescale'] = ts
    if iv != 1:
        common['interval'] = iv
    f = os.path.join(tmp, 'f.h5')
    if kind in ('EarlyStopper', 'StopAfterThresholdReached'):
        hook = getattr(H, kind)(s['log'], **dict(kw, **common))
    elif kind == 'SaveBestNetwork':
        hook = H.SaveBestNetwork(s['log'], filename=f if s['file'] else None,
                                 **dict(kw, **common))
    elif kind in ('StopAfterEpoch', 'StopOnNan'):
        hook = getattr(H, kind)(**dict(kw, **common))
    elif kind in ('SaveLogs', 'SaveNetwork'):
        hook = getattr(H, kind)(f, **common)
    else:
        return {'stopped': False}
    trainer = Trainer(SgdStepper(0.01), verbose=s['verbose'])
    order = [script, hook] if s['first'] else [hook, script]
    for h in order:
        trainer.add_hook(h)
    it = bs.data_iterators.Minibatches(
        2, shuffle=False, default=rnd.normal(size=(1, 3, 1)),
        targets=rnd.normal(size=(1, 3, 1)))
    trainer.train(net, it)
    # model: call k (k = 0, 1, ...) happens at epoch or update k * interval
    k, stop, ruined = 0, False, None
    seen = []
    best, want = None, None
    while True:
        at = k * iv
        epoch = at if ts == 'epoch' else -(-at // PER)
        for h in order:
            if h is script:
                if k >= len(hist):
                    stop = True
                else:
                    seen.append(hist[k])
                    if bad and bad[0] == k:
                        ruined = at
            elif kind in ('EarlyStopper', 'StopAfterThresholdReached'):
                stop |= bool(seen) and should_stop(s, seen)
            elif kind == 'StopAfterEpoch':
                stop |= epoch >= kw['max_epochs']
            elif kind == 'StopOnNan':
                if 'logs_to_check' in kw:
                    stop |= not np.all(np.isfinite(seen))
                if ruined is None:
                    continue
                if kw.get('check_parameters', True):
                    stop = True
                if kw.get('check_training_loss', True):
                    # epochs whose loss is in the logs by now, and the first
                    # epoch with an update after the parameters were ruined
                    done = at if ts == 'epoch' else max(at - 1, 0) // PER
                    first = ruined + 1 if ts == 'epoch' else ruined // PER + 1
                    stop |= done >= first
            elif kind == 'SaveBestNetwork' and seen:
                x = seen[-1]
                start = float('inf') if kw['criterion'] == 'min' else \
                    float('-inf')
                ref = start if best is None else best
                if (x < ref if kw['criterion'] == 'min' else x > ref):
                    best, want = x, k
        if stop:
            break
        k += 1
    got = trainer.current_epoch_nr if ts == 'epoch' else \
        trainer.current_update_nr
    ensure(got == k * iv, '%s%s with history %s (every %d %ss) stopped '
           'after %s %d instead of %d', kind, kw, hist, iv, ts, ts, got,
           k * iv)
    if kind == 'SaveBestNetwork' and want is not None and s['first']:
        got = hook.load_best_network()
        if s['file']:
            got = got.get('parameters')
        ensure(np.array_equal(got, rec[want][1]), 'the saved network is not '
               'that of %s %d', ts, want * iv)
    if kind == 'SaveNetwork':
        ensure(np.array_equal(hook.load_network().get('parameters'),
                              net.get('parameters')), 'the saved network has '
               'other parameters')
    if kind == 'SaveLogs' and s['first']:
        want = trainer.logs
        if ts == 'update' and 'rolling_training' in want:
            # the epoch that was stopped is logged after the last call
            done = max(k * iv - 1, 0) // PER
            want = dict(want)
            roll = want.pop('rolling_training')
            if done:
                want['rolling_training'] = {a: b[:done] for a, b in
                                            roll.items()}
        with h5py.File(f, 'r') as g:
            same_logs(g, want)
    return {'stopped': k < len(hist)}


def check(s):
    tmp = tempfile.mkdtemp(prefix='verif-c14-')
    try:
        labels = (direct if s['via'] == 'direct' else through_trainer)(s, tmp)
    finally:
        shutil.rmtree(tmp)
    labels.update({'kind': s['kind'], 'via': s['via']})
    return labels


def nontrivial(spec, labels):
    return len(spec['hist']) >= 3 or labels['stopped']
