"""C33: what a training prints is what it logs, and nothing depends on it."""
import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
from pbt.props import c13
import brainstorm as bs
from brainstorm import hooks as H
from brainstorm import layers as L
from brainstorm import scorers as S
from brainstorm.data_iterators import Minibatches
from brainstorm.handlers import NumpyHandler
from brainstorm.training import steppers as ST
from brainstorm.training.trainer import Trainer

ID = 'C33'
QUICK, THOROUGH = 4000, 60000
RULE = ('Random trainers with hooks of drawn verbosity, time scales, '
        'intervals, nested logs, messages and stop requests, the stopping '
        'and saving hooks of the library, sequences of train and evaluate '
        'calls with changing trainer verbosity, and hooks that raise. The '
        'captured output is compared line by line with what the hooks '
        'returned and the trainer logged; the same run made quiet must '
        'print nothing and give the same logs, parameters and counters. '
        'Non-trivial: at least two hooks, one of them logging, and output '
        'as well as something kept quiet.')
ASSUMPTIONS = ['lines are compared by their words, relative indentation and '
               'the values to three digits; rulers and blank lines are free',
               'the wording of messages of library hooks is free, their '
               'number and prefix are not']

LIB = ['EarlyStopper', 'StopAfterThresholdReached', 'SaveBestNetwork',
       'StopOnNan', 'StopAfterEpoch', 'MonitorLoss', 'MonitorScores',
       'ModifyStepperAttribute']


@st.composite
def value(draw, depth=0):
    k = draw(st.sampled_from(['none', 'int', 'float', 'dict', 'dict', 'zero']
                             if depth < 3 else ['int', 'float']))
    if k == 'dict':
        n = draw(st.integers(0 if depth else 1, 3))
        return {x: draw(value(depth + 1)) for x in draw(st.permutations(
            ['a', 'bb', 'a long name', 'loss']))[:n]}
    return {'none': None, 'int': draw(st.integers(-999, 9999)), 'zero': 0,
            'float': draw(st.sampled_from([0.5, -2.25, 1e-7, 3e12, 1.0])),
            }[k]


@st.composite
def hook_spec(draw, i):
    kind = draw(st.sampled_from(['own'] * 6 + LIB))
    s = {'kind': kind, 'name': draw(st.sampled_from(
        ['h%d' % i, 'name %d' % i, None if kind != 'own' else 'x%d' % i])),
        'timescale': draw(st.sampled_from(['epoch', 'update'])),
        'interval': draw(st.sampled_from([1, 1, 1, 2, 3])),
        'verbose': draw(st.sampled_from([None, None, True, False]))}
    if kind == 'own':
        s['ret'] = draw(value())
        s['say'] = draw(st.sampled_from([None, None, 'ahem', '{0} : %s']))
        s['say_start'] = draw(st.sampled_from([None, None, None, 'hello']))
        s['stop'] = draw(nets.rarely(st.none(), st.sampled_from([2, 3, 5])))
        s['fail'] = draw(nets.rarely(st.none(), nets.rarely(
            st.sampled_from([3, 2, 4]), st.sampled_from([0, 1]))))
    return s


@st.composite
def strategy_(draw):
    n = draw(nets.rarely(st.sampled_from([2, 3, 4, 2, 3, 1]),
                         st.sampled_from([0, 6, 9])))
    return {
        'hooks': [draw(hook_spec(i)) for i in range(n)],
        'N': draw(st.sampled_from([4, 3, 5, 1])),
        'bs': draw(st.sampled_from([2, 1, 5])),
        'calls': draw(st.sampled_from([
            ['train'], ['train', 'toggle', 'train'], ['train', 'evaluate'],
            ['toggle', 'train', 'train'], ['evaluate', 'train'],
            ['train', 'toggle', 'evaluate', 'train']])),
        'epochs': draw(st.integers(1, 3)),
        'losses': draw(st.integers(1, 2)),
        'scorer': draw(st.booleans()),
        'verbose': draw(st.booleans()),
        'seed': draw(st.integers(0, 999))}


def strategy():
    return strategy_()


class Oops(Exception):
    pass


class Out(io.StringIO):
    def write(self, s):
        return io.StringIO.write(self, u'%s' % s)


def record(base, spec, ev, out):
    """A subclass that records its calls and what they print themselves."""
    class Rec(base):
        calls = 0

        def start(self, net, stepper, verbose, named):
            base.start(self, net, stepper, verbose, named)
            if spec.get('say_start'):
                self.message(spec['say_start'])
            ev.append(('start', spec, verbose, dict(net=net)))
            if spec.get('fail') == 0:
                raise Oops(spec['kind'])

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            pos = out.tell() if out else 0
            v, stop = None, False
            try:
                try:
                    v = base.__call__(self, epoch_nr, update_nr, net,
                                      stepper, logs)
                except StopIteration as e:
                    stop = True
                    v = e.value
                    raise
            finally:
                text = out.getvalue()[pos:] if out else ''
                ev.append(('call', spec, epoch_nr, update_nr,
                           copy.deepcopy(v), stop, text, self.__name__))
            return v
    Rec.__name__ = str(base.__name__)
    return Rec


def own(spec):
    class Own(H.Hook):
        n = 0

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            self.n += 1
            if spec['say']:
                self.message(spec['say'])
            if spec['fail'] and self.n >= spec['fail']:
                raise Oops(spec['kind'])
            v = count(spec['ret'], self.n)
            if spec['stop'] and self.n >= spec['stop']:
                raise StopIteration(v)
            return v
    return Own


def count(v, n):
    """The drawn log with numbers that change from call to call."""
    if isinstance(v, dict):
        return {k: count(x, n) for k, x in v.items()}
    return v if v is None else v + n


def make_hook(s, ev, out, later):
    kw = {'name': s['name'], 'timescale': s['timescale'],
          'interval': s['interval'], 'verbose': s['verbose']}
    k = s['kind']
    if k == 'own':
        return record(own(s), s, ev, out)(**kw)
    base = record(getattr(H, k), s, ev, out)
    log = 'rolling_training.' + ('loss' if later else 'total_loss')
    if k in LIB[:3]:
        # there is no log before the first epoch has ended
        kw['timescale'] = 'epoch'
    if k == 'EarlyStopper':
        return base(log, patience=2, **kw)
    if k == 'StopAfterThresholdReached':
        return base(log, threshold=0.2, **kw)
    if k == 'SaveBestNetwork':
        return base(log, criterion='min', **kw)
    if k == 'StopAfterEpoch':
        return base(3, **kw)
    if k == 'StopOnNan':
        return base(**kw)
    if k == 'MonitorLoss':
        return base('val', **kw)
    if k == 'MonitorScores':
        return base('val', [S.MeanSquaredError()], **kw)
    if k == 'ModifyStepperAttribute':
        return base(lambda *a: 0.05, 'learning_rate', **kw)
    raise KeyError(k)


class First(H.Hook):
    """Quiet hook that sees each epoch end before all others."""

    def __init__(self, ev):
        super(First, self).__init__('first', verbose=False)
        self.ev = ev

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.ev.append(('epoch end', copy.deepcopy(
            logs.get('rolling_training'))))


class Data(Minibatches):
    ev = None

    def __call__(self, handler):
        if self.ev is not None:
            self.ev.append(('epoch',))
        return super(Data, self).__call__(handler)


def network(spec):
    inp = L.Input(out_shapes={'default': ('T', 'B', 2),
                              'targets': ('T', 'B', 2)})
    o = L.FullyConnected(2, activation='tanh', name='o')
    e = L.SquaredError(name='e')
    inp >> o >> 'default' - e
    inp - 'targets' >> 'targets' - e
    e - 'loss' >> L.Loss(name='loss')
    if spec['losses'] == 2:
        o >> L.Loss(importance=0.1, name='aux')
    net = bs.Network.from_layer(inp)
    net.set_handler(NumpyHandler(np.float64))
    net.output_name = 'o.outputs.default'
    net.initialize(bs.initializers.Gaussian(1.0), seed=spec['seed'])
    return net


def run(spec, quiet):
    rnd = np.random.RandomState(spec['seed'])
    data = {'default': rnd.normal(size=(2, spec['N'], 2)),
            'targets': rnd.normal(size=(2, spec['N'], 2))}
    net = network(spec)
    ev, out, err = [], Out(), Out()
    it = Data(spec['bs'], shuffle=False, **data)
    it.ev = ev
    val = Minibatches(2, shuffle=False, **data)
    verbose = spec['verbose'] and not quiet
    trainer = Trainer(ST.SgdStepper(0.1), verbose=verbose)
    if spec['scorer']:
        trainer.train_scorers = [S.MeanSquaredError()]
    trainer.add_hook(First(ev))
    hooks = {}
    for s in spec['hooks']:
        h = make_hook(dict(s, verbose=False) if quiet else s, ev, out,
                      spec['losses'] == 2)
        # calls of the hooks in a quiet run must be the same
        if h.__name__ not in trainer.hooks:
            trainer.add_hook(h)
            hooks[h.__name__] = s
    if quiet:
        for h in trainer.hooks.values():
            h.verbose = False
    end = c13.End(0)
    trainer.add_hook(end)
    results, failed = [], None
    for call in spec['calls']:
        ev.append(('begin', call, trainer.verbose))
        end.n = trainer.current_epoch_nr + (
            spec['epochs'] if call == 'train' else 1)
        if call == 'toggle':
            trainer.verbose = not trainer.verbose and not quiet
            continue
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if call == 'train':
                    trainer.train(net, it, val=val)
                else:
                    results.append(copy.deepcopy(
                        trainer.evaluate(net, val=val)))
            except Oops as e:
                failed = e
            except KeyError:
                # a log that does not exist yet
                failed = 'log'
        if failed is not None:
            break
    return dict(ev=ev, out=out.getvalue(), err=err.getvalue(), net=net,
                failed=failed, trainer=trainer, results=results, hooks=hooks)


def entries(name, val, depth=0):
    """(depth, words) of a log."""
    if val is None:
        return []
    if isinstance(val, dict):
        return [(depth, name, None)] + [
            x for k, v in val.items() for x in entries(k, v, depth + 1)]
    return [(depth, name, float(val))]


def expected(r):
    """The lines that must be printed: (depth, name, value), ('head', ...),
    ('raw', text) or ('message', prefix)."""
    want, silent = [], 0
    epoch, verbose, kind = 0, None, None
    started = False
    for e in r['ev']:
        if e[0] == 'begin':
            kind, verbose = e[1], e[2]
            if kind == 'train' and verbose:
                want.append(('head', 'Before Training'))
        elif e[0] == 'epoch':
            epoch += 1
            started = True
            if verbose:
                want.append(('head', 'Epoch %d' % epoch))
        elif e[0] == 'start':
            s = e[1]
            loud = verbose if s['verbose'] is None else s['verbose']
            ensure(e[2] == verbose, 'hook is started with verbose=%s', e[2])
            if s.get('say_start'):
                if loud:
                    want.append(('raw', '%s >> %s' % (
                        s['name'], s['say_start'])))
                else:
                    silent += 1
        elif e[0] == 'epoch end':
            if not started or kind != 'train':
                continue
            started = False
            if verbose:
                want.extend(entries('rolling_training', {
                    k: v[-1] for k, v in e[1].items()}))
            else:
                silent += 1
        elif e[0] == 'call':
            s, v, stop, text, name = e[1], e[4], e[5], e[6], e[7]
            loud = verbose if s['verbose'] is None else s['verbose']
            lines = [x for x in text.split('\n') if x.strip()]
            if not loud:
                ensure(not lines, 'quiet hook %s prints %r', name, text)
            if s['kind'] == 'own':
                if s['say'] and loud:
                    want.append(('raw', '%s >> %s' % (name, s['say'])))
                silent += bool(s['say'] and not loud)
            else:
                for x in lines:
                    ensure(x.startswith('%s >> ' % name), 'hook %s prints '
                           '%r', name, x)
                    want.append(('raw', x))
                if loud:
                    if s['kind'] == 'SaveBestNetwork' and e[2] > 0:
                        ensure(len(lines) == 1, 'saving hook says %r', text)
                    elif s['kind'] in LIB[:5] and s['kind'] != LIB[2]:
                        ensure(len(lines) == int(stop), '%s %s but says %r',
                               name, 'stops' if stop else 'does not stop',
                               text)
                    else:
                        ensure(not lines or s['kind'] == LIB[2], '%s says %r',
                               name, text)
            if loud:
                want.extend(entries(name, v))
            else:
                silent += v is not None
    return want, silent


def compare(want, text, partial):
    lines = [x for x in text.split('\n') if x.strip()]
    indents = {}
    for i, w in enumerate(want):
        ensure(i < len(lines), 'nothing is printed for %s', w)
        line = lines[i]
        if w[0] == 'head':
            words = [x for x in line.split() if x.strip('-')]
            ensure(words == w[1].split(), 'line %d is %r instead of %s',
                   i, line, w[1])
        elif w[0] == 'raw':
            ensure(line == w[1], 'line %d is %r instead of %r', i, line,
                   w[1])
        else:
            depth, name, val = w
            ind = len(line) - len(line.lstrip())
            if val is None:
                ensure(line.strip() == name, 'line %d is %r instead of %r',
                       i, line, name)
            else:
                a, _, b = line.rpartition(':')
                ensure(a.strip() == name, 'line %d is %r instead of the log '
                       '%r', i, line, name)
                try:
                    got = float(b)
                except ValueError:
                    ensure(False, 'line %d is %r', i, line)
                ensure(np.isclose(got, val, rtol=1e-3, atol=0) or
                       got == val or (got != got and val != val),
                       'line %d shows %s, the log is %s', i, line, val)
            if depth in indents:
                ensure(indents[depth] == ind, 'line %d %r is indented by %d, '
                       'others of its level by %d', i, line, ind,
                       indents[depth])
            indents[depth] = ind
    ds = sorted(indents)
    ensure(all(indents[a] < indents[b] for a, b in zip(ds, ds[1:])),
           'levels of the log are indented by %s', indents)
    if not partial:
        ensure(len(lines) == len(want), 'printed although nothing was '
               'logged: %s', lines[len(want):])


def check(spec):
    loud = run(spec, False)
    failed = loud['failed']
    want, silent = ([], 0) if failed == 'log' else expected(loud)
    if failed is None:
        compare(want, loud['out'], False)
        ensure(not loud['err'], 'training prints the error %r', loud['err'])
    elif failed != 'log':
        last = loud['ev'][-1]
        compare(want, loud['out'], True)
        ensure(isinstance(failed, Oops) and failed.args == ('own',),
               'exception of the hook became %r', failed)
        name = last[1]['name']
        ensure(name in loud['err'], 'the error message %r does not name the '
               'hook %s', loud['err'], name)
    quiet = run(spec, True)
    if failed is None:
        ensure(not quiet['out'] and not quiet['err'], 'quiet run prints %r',
               quiet['out'] + quiet['err'])
    ensure((failed is None) == (quiet['failed'] is None), 'quiet run ends '
           'with %s, the other with %s', quiet['failed'], failed)
    a, b = loud['trainer'], quiet['trainer']
    ensure(c13.same(a.logs, b.logs), 'logs depend on the verbosity: %s, '
           'quiet %s', a.logs, b.logs)
    ensure(c13.same(loud['results'], quiet['results']), 'results depend on '
           'the verbosity: %s, quiet %s', loud['results'], quiet['results'])
    ensure((a.current_epoch_nr, a.current_update_nr) ==
           (b.current_epoch_nr, b.current_update_nr), 'length of the '
           'training depends on the verbosity')
    ensure(np.array_equal(loud['net'].get('parameters'),
                          quiet['net'].get('parameters')),
           'parameters depend on the verbosity')
    return {'hooks': min(len(loud['hooks']), 4), 'printed': len(want) > 3,
            'kept quiet': silent > 0, 'failed': failed is not None,
            'logging': any(e[0] == 'call' and e[4] is not None
                           for e in loud['ev'])}


def nontrivial(spec, labels):
    return labels['hooks'] >= 2 and labels['logging'] and \
        labels['printed'] and labels['kept quiet']
