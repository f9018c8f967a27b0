"""C27: monitors report the true statistics and disturb nothing."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from pbt import nets
from pbt.core import ensure
from pbt.props.c17 import definition
from pbt.ref import RefNet
from brainstorm import hooks as H
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.scorers import Accuracy, Hamming, MeanSquaredError
from brainstorm.training.steppers import (MomentumStepper, NesterovStepper,
                                          SgdStepper)

ID = 'C27'
QUICK, THOROUGH = 3000, 50000
RULE = ('Training runs of random networks with one to four random monitors '
        '(layer parameters, gradients, deltas, inputs and outputs, loss, '
        'scores; any layer, time scale, interval, data set), the progress '
        'bar (its printed text is compared with the length of the epoch) '
        'and a recorded info dictionary. Probes around '
        'every monitor copy what it could see: logged statistics must equal '
        'those of the copies, logged losses and scores those of the '
        'reference network with the parameters of that moment on the whole '
        'data set, and the network must be the same after the call. The same '
        'run without monitors must give the same parameters. Also the '
        'progress bar over several trainings that follow each other, with '
        'epochs of different lengths or stopped in the middle. Non-trivial: '
        'at least one update and two calls of a monitor, or several '
        'trainings or a stop within an epoch.')
ASSUMPTIONS = [
    'the no-disturbance comparison skips runs where a monitor shares the '
    'random order of the shuffled training iterator',
    'buffers that are still empty before the first update are not logged']

LAYER_MON = {'params': H.MonitorLayerParameters,
             'grads': H.MonitorLayerGradients,
             'deltas': H.MonitorLayerDeltas, 'inouts': H.MonitorLayerInOuts}
SCORER = {'SoftmaxCE': Accuracy, 'SigmoidCE': Hamming,
          'SquaredError': MeanSquaredError}
SECTIONS = ('inputs', 'outputs', 'parameters', 'internals', 'gradients',
            'input_deltas', 'output_deltas')


@st.composite
def batching(draw, N):
    return {'bs': draw(st.integers(1, N)), 'shuffle': draw(st.booleans()),
            'whole': draw(st.integers(0, 4)) == 0}


@st.composite
def _case(draw):
    spec = draw(nets.net_specs(max_layers=4, T=nets.rarely(
        st.sampled_from([1, 2, 3]), st.just(9)), B=nets.rarely(
            st.sampled_from([1, 2, 3, 5]), st.sampled_from([11, 24]))))
    N = spec['B']
    names = [l['n'] for l in spec['layers']]
    spec['train'] = draw(batching(N))
    spec['NV'] = draw(nets.rarely(st.integers(1, 6), st.just(21)))
    spec['valid'] = draw(batching(spec['NV']))
    spec['epochs'] = draw(nets.rarely(st.integers(1, 3), st.just(6)))
    spec['step'] = draw(st.sampled_from(['sgd', 'momentum', 'nesterov']))
    spec['f32'] = draw(st.integers(0, 4)) == 0
    spec['verbose'] = draw(st.integers(0, 7)) == 0
    spec['evaluate'] = draw(st.integers(0, 5)) == 0
    spec['rolling'] = draw(st.booleans())
    spec['bar'] = draw(st.integers(0, 3)) == 0
    spec['reuse'] = draw(st.sampled_from(['no', 'no', 'net', 'new net']))
    spec['info'] = draw(st.one_of(st.none(), st.none(), st.tuples(
        st.sampled_from(['epoch', 'update']), st.integers(1, 3))))
    mons = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(sorted(LAYER_MON) + ['loss', 'scores']))
        m = {'k': k, 'ts': draw(st.sampled_from(['epoch', 'update'])),
             'every': draw(st.sampled_from([1, 1, 2, 3])),
             'name': draw(st.booleans())}
        if k in LAYER_MON:
            m['layer'] = draw(st.sampled_from(
                names + [l['n'] for l in spec['layers'] if l['t'] in
                         nets.PARAM_NAMES] * 2 + ['Input']))
        else:
            m['it'] = draw(st.sampled_from(['valid', 'valid',
                                            'training_data_iter']))
            m['thr'] = draw(st.sampled_from([0.5, 0.25]))
        mons.append(m)
    spec['mons'] = mons
    return spec


@st.composite
def _bar_case(draw):
    """Trainings one after another under the same progress bar."""
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        runs.append({'n': draw(nets.rarely(st.integers(1, 12), st.integers(
            13, 120))), 'bs': draw(st.sampled_from([1, 1, 2, 3])),
                     'epochs': draw(st.integers(1, 3)),
                     'halt': draw(st.one_of(st.none(), st.integers(1, 20))),
                     'trainer': draw(st.sampled_from(['same', 'same',
                                                      'new']))})
    return {'runs': runs}


def strategy():
    return st.integers(0, 9).flatmap(
        lambda i: _bar_case() if i == 9 else _case())


def snapshot(net):
    res = {}
    for n in net.layers:
        for sec in SECTIONS:
            for k, a in net.buffer[n][sec].items():
                res[(n, sec, k)] = np.array(a)
    return res


class Probe(H.Hook):
    def __init__(self, name, m, store):
        super(Probe, self).__init__(name, m['ts'], m['every'])
        self.store = store

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.store.append(snapshot(net))


class Tick(H.Hook):
    """Marks the end of every update in the output."""

    def __init__(self):
        super(Tick, self).__init__('tick', 'update', 1)

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        print(chr(0), end='')


class Run(object):
    def __init__(self):
        self.info = {}


class InfoCheck(H.Hook):
    """Called right after the InfoUpdater."""

    def __init__(self, run, when):
        super(InfoCheck, self).__init__('infocheck', *when)
        self.run, self.calls = run, 0

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        self.calls += 1
        got = self.run.info
        want = {'epoch_nr': epoch_nr, 'update_nr': update_nr, 'logs': logs,
                'nr_parameters': int(sum(np.size(v) for d in nets.load_params(
                    net).values() for v in d.values()))}
        for k, v in sorted(want.items()):
            ensure(k in got and repr(got[k]) == repr(v), 'InfoUpdater '
                   'reports %s = %r, current is %r', k, got.get(k), v)


class Halt(H.Hook):
    def __init__(self):
        super(Halt, self).__init__('halt', 'update', 1)
        self.at = None

    def __call__(self, epoch_nr, update_nr, net, stepper, logs):
        if self.at is not None and update_nr >= self.at:
            raise StopIteration()


def check_bars(spec):
    inp = bs.layers.Input({'default': ('T', 'B', 1)})
    net = bs.Network.from_layer(inp >> bs.layers.Loss())
    bar, tr = H.ProgressBar(), None
    partial = 0
    for run in spec['runs']:
        if tr is None or run['trainer'] == 'new':
            tr = bs.Trainer(SgdStepper(0.1), verbose=False)
            halt, stop = Halt(), H.StopAfterEpoch(0)
            for h in (bar, Tick(), halt, stop):
                tr.add_hook(h)
        per = -(-run['n'] // run['bs'])
        updates = per * run['epochs']
        stop.max_epochs = tr.current_epoch_nr + run['epochs']
        halt.at = None
        if run['halt']:
            halt.at = tr.current_update_nr + run['halt']
            # the epoch after the stop request counts as one
            updates = min(updates, run['halt'])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            tr.train(net, Minibatches(run['bs'], False, default=np.zeros(
                (1, run['n'], 1))))
        check_bar(out.getvalue(), per, updates // per, updates % per)
        partial += updates % per > 0
    return {'kind': 'bars', 'trainings': len(spec['runs']),
            'partial': min(partial, 2)}


def check_bar(out, per, epochs, partial=0):
    """The bar is filled proportionally, once in every epoch."""
    ticks = out.split(chr(0))
    # the hooks are called once before training
    ensure(ticks[0] == '' and len(ticks) == per * epochs + partial + 2,
           'progress bar prints %r before training', ticks[0])
    ensure(not ticks[-1].strip(), 'progress bar prints %r after training',
           ticks[-1])
    if per == 1:
        return      # nothing to show
    total = None
    for e in range(epochs + (partial > 0)):
        part = ticks[1 + e * per:1 + (e + 1) * per]
        if e == epochs:
            part = part[:partial]
        text = ''.join(part)
        m = re.match(r'^\[([^\]]+)\] Took: [0-9:.]+\s*$' if e < epochs else
                     r'^\[([^\]]*)$', text)
        ensure(m, 'progress bar prints %r in epoch %d', text, e + 1)
        if e < epochs:
            total = len(m.group(1))
        elif not epochs:
            continue
        for k in range(2, len(part) + (e == epochs)):
            shown = len(''.join(part[:k])) - 1
            ensure(abs(shown - total * k / float(per)) <= 1, 'progress bar '
                   'shows %d of %d cells after %d of %d updates', shown,
                   total, k, per)


def make_monitor(m, i, spec):
    kw = {'timescale': m['ts'], 'interval': m['every']}
    if not m['name']:       # the defaults
        if m['ts'] == 'epoch':
            del kw['timescale']
        if m['every'] == 1:
            del kw['interval']
    if m['k'] in LAYER_MON:
        # two monitors of one kind on one layer need names
        same = [x for x in spec['mons'] if x['k'] == m['k'] and
                x.get('layer') == m['layer']]
        if m['name'] or len(same) > 1:
            kw['name'] = 'mon%d' % i
        return LAYER_MON[m['k']](m['layer'], **kw)
    if m['name'] or len([x for x in spec['mons'] if x['k'] == m['k']]) > 1:
        kw['name'] = 'mon%d' % i
    if m['k'] == 'loss':
        return H.MonitorLoss(m['it'], **kw)
    return H.MonitorScores(m['it'], make_scorers(spec, m['thr']), **kw)


def scored(spec):
    return [l for l in spec['layers'] if l['t'] in SCORER and
            l['in']['targets'][0][0] == 'Input' and
            l['in']['targets'][0][1].startswith('tgt')]


def make_scorers(spec, thr):
    res = []
    for l in scored(spec):
        kw = {'threshold': thr} if l['t'] == 'SigmoidCE' else {}
        res.append(SCORER[l['t']](
            out_name=l['n'] + '.outputs.predictions',
            targets_name=l['in']['targets'][0][1], name='score_' + l['n'],
            **kw))
    return res


def stats(a, norm=False):
    res = {'min': a.min(), 'avg': a.mean(dtype=np.float64), 'max': a.max()}
    if norm and a.ndim > 1:
        v = np.sqrt((a.astype(np.float64).reshape(len(a), -1) ** 2).sum(1))
        res.update(min_L2_norm=v.min(), avg_L2_norm=v.mean(),
                   max_L2_norm=v.max())
    return res


def layer_log(m, snap):
    """Expected {path: value} of one call of a layer monitor."""
    res = {}

    def put(sec, prefix, norm=False):
        for (n, s, k), a in snap.items():
            if n == m['layer'] and s == sec and a.size:
                for f, v in stats(a, norm).items():
                    res[prefix + (k, f)] = float(v)

    if m['k'] == 'params':
        put('parameters', (), True)
    elif m['k'] == 'grads':
        put('gradients', ())
    elif m['k'] == 'deltas':
        put('internals', ())
        put('output_deltas', ('output_deltas',))
        put('input_deltas', ('input_deltas',))
    else:
        put('inputs', ('inputs',))
        put('outputs', ('outputs',))
    return res


def flatten(log, prefix=()):
    if isinstance(log, dict):
        res = {}
        for k, v in log.items():
            res.update(flatten(v, prefix + (k,)))
        return res
    return {prefix: [float(x) for x in log]}


def iterator(b, data, seed):
    if b['whole']:
        return Undivided(**data)
    it = Minibatches(b['bs'], b['shuffle'], cut_according_to=None, **data)
    it.rnd.set_seed(seed % 1000)
    return it


class Recorder(object):
    """Records batch size and losses of every update."""

    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def start(self, net):
        self.net = net
        self.inner.start(net)

    def run(self):
        self.inner.run()
        self.seen.append((self.net.get_input(sorted(
            self.net.layers['Input'].out_shapes)[0]).shape[1],
            {k: float(v) for k, v in self.net.get_loss_values().items()}))


def train(spec, params, data, valid, hooks, net=None):
    net = net or nets.build(spec, handler=NumpyHandler(
        np.float32 if spec['f32'] else np.float64))
    net.handler.rnd.set_seed(spec['seed'] % 1000)
    nets.set_params(net, params)
    step = {'sgd': lambda: SgdStepper(0.003),
            'momentum': lambda: MomentumStepper(0.003, 0.5),
            'nesterov': lambda: NesterovStepper(0.003, 0.5)}[spec['step']]()
    rec = Recorder(step)
    tr = bs.Trainer(rec, verbose=spec['verbose'])
    for h in hooks:
        tr.add_hook(h)
    tr.add_hook(H.StopAfterEpoch(spec['epochs'], name='stop'))
    if spec['rolling']:
        tr.train_scorers = make_scorers(spec, 0.5)
    it = iterator(spec['train'], data, spec['seed'])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        tr.train(net, it, valid=iterator(spec['valid'], valid,
                                         spec['seed'] + 1))
    return net, tr, rec.seen, out.getvalue()


def check(spec):
    with np.errstate(all='ignore'):
        return check_bars(spec) if 'runs' in spec else _check(spec)


def _check(spec):
    probe_net, orders, params, data, rnd = nets.prepare(spec)
    dt = np.float32 if spec['f32'] else np.float64
    valid = nets.draw_inputs(spec, rnd, B=spec['NV'])
    mons = spec['mons']
    before = [[] for _ in mons]
    after = [[] for _ in mons]
    hooks, names = [], []
    for i, m in enumerate(mons):
        mon = make_monitor(m, i, spec)
        names.append(mon.__name__)
        hooks += [Probe('before%d' % i, m, before[i]), mon,
                  Probe('after%d' % i, m, after[i])]
    run = Run()
    if spec['bar']:
        hooks += [H.ProgressBar(), Tick()]
    if spec['info']:
        hooks += [H.InfoUpdater(run, timescale=spec['info'][0],
                                interval=spec['info'][1]),
                  InfoCheck(run, spec['info'])]
    used = None
    if spec['reuse'] != 'no':
        # an earlier training with the same hooks leaves no traces
        used = train(spec, {n: {p: 0.5 * v if p not in ('timing', 'sigma')
                                else v for p, v in d.items()}
                            for n, d in params.items()},
                     nets.draw_inputs(spec, np.random.RandomState(
                         spec['seed'] % 1000 + 7)),
                     nets.draw_inputs(spec, np.random.RandomState(
                         spec['seed'] % 1000 + 8), B=spec['NV']),
                     hooks)[0]
        if spec['reuse'] == 'new net':
            used = None
        for x in before + after:
            del x[:]
        if spec['info']:
            hooks[-1].calls = 0
    net, tr, seen, out = train(spec, params, data, valid, hooks, used)
    final = nets.load_params(net)
    top = max([0.0] + [float(np.abs(v).max()) if np.all(np.isfinite(v))
                       else np.inf for d in final.values()
                       for v in d.values()])
    if not top < 1e3:
        return {'kind': 'diverged'}
    ref = RefNet(spec, orders)
    rtol = 2e-3 if spec['f32'] else 1e-7
    for i, m in enumerate(mons):
        ensure(len(before[i]) == len(after[i]), 'probes disagree')
        log = flatten(tr.logs.get(names[i], {}))
        if m['k'] in LAYER_MON:
            for a, b in zip(before[i], after[i]):
                for k in a:
                    ensure(k in b and np.array_equal(a[k], b[k],
                                                     equal_nan=True),
                           'monitor %s changed %s.%s.%s', names[i], *k)
            want = {}
            for s in before[i]:
                for p, v in layer_log(m, s).items():
                    want.setdefault(p, []).append(v)
            ensure(set(want) == set(log), '%s on %s logs %s, expected %s',
                   type(hooks[3 * i + 1]).__name__, m['layer'],
                   sorted('.'.join(p) for p in set(log) - set(want)),
                   sorted('.'.join(p) for p in set(want) - set(log)))
            tol = 1e-5 if spec['f32'] else 1e-11
            for p in sorted(want):
                a, b = np.array(want[p]), np.array(log[p])
                scale = 1.0
                ensure(len(a) == len(b), '%s logs %d values of %s in %d '
                       'calls', names[i], len(b), '.'.join(p), len(a))
                if p[-1] == 'avg':
                    # rounding of sums of values of both signs
                    lo = np.abs(np.array(want[p[:-1] + ('min',)]))
                    hi = np.abs(np.array(want[p[:-1] + ('max',)]))
                    scale = np.maximum(1.0, np.maximum(lo, hi))
                bad = np.abs(a - b) > tol * (scale + np.abs(a))
                bad &= ~((a == b) | np.isnan(a) & np.isnan(b))
                ensure(not bad.any(), '%s on %s (%s): %s is logged as %s, '
                       'true values %s', type(hooks[3 * i + 1]).__name__,
                       m['layer'], [l['t'] for l in spec['layers']
                                    if l['n'] == m['layer']], '.'.join(p),
                       b.tolist(), a.tolist())
            continue
        dset = valid if m['it'] == 'valid' else data
        dset = {k: v.astype(dt).astype(np.float64) for k, v in dset.items()}
        rows = []
        for a, b in zip(before[i], after[i]):
            for k in a:
                if k[1] == 'parameters':
                    ensure(np.array_equal(a[k], b[k]), '%s changed parameter '
                           '%s.%s', names[i], k[0], k[2])
            rows.append(expected(spec, ref, a, dset, m))
        keys = sorted(rows[0]) if rows else []
        ensure(sorted('.'.join(p) for p in log) == keys, '%s logs %s, '
               'expected %s', names[i], sorted('.'.join(p) for p in log),
               keys)
        for k in keys:
            got = log[(k,)]
            ensure(len(got) == len(rows), '%s logs %d values of %s in %d '
                   'calls', names[i], len(got), k, len(rows))
            for c, (g, r) in enumerate(zip(got, rows)):
                w, doubt, size = r[k]
                if spec['f32'] and (size > 1e4 or k.startswith('score_')):
                    continue
                ensure(abs(g - w) <= doubt + rtol * size, 'call %d of %s on '
                       '%s: %s is logged as %r, expected %r', c, names[i],
                       m['it'], k, g, w)
    # rolling averages over the updates of each epoch
    rolling = flatten(tr.logs.get('rolling_training', {}))
    per = 1 if spec['train']['whole'] else -(-spec['B'] // spec['train'][
        'bs'])
    ensure(len(seen) == per * spec['epochs'], '%d updates in %d epochs of %d '
           'batches', len(seen), spec['epochs'], per)
    if spec['bar'] and not spec['verbose']:
        check_bar(out, per, spec['epochs'])
    if spec['info']:
        kind, every = spec['info']
        want = 1 + (spec['epochs'] if kind == 'epoch' else len(seen)) // every
        ensure(hooks[-1].calls == want, 'hook called %d times instead of %d',
               hooks[-1].calls, want)
    for k in seen[0][1]:
        got = rolling.get((k,), [])
        ensure(len(got) == spec['epochs'], 'rolling_training.%s has %d '
               'entries after %d epochs', k, len(got), spec['epochs'])
        for e, g in enumerate(got):
            part = seen[e * per:(e + 1) * per]
            w = sum(n * l[k] for n, l in part) / float(sum(
                n for n, _ in part))
            size = 1.0 + sum(abs(l[k]) for _, l in part)
            ensure(abs(g - w) <= 1e-6 * size or not np.isfinite(w),
                   'rolling_training.%s of epoch %d is %r, expected %r', k,
                   e + 1, g, w)
    # the same without monitors
    lab = {'kind': 'run', 'updates': min(len(seen), 4), 'calls': max(
        len(b) for b in before), 'f32': spec['f32']}
    for m in mons:
        lab['mon:' + m['k']] = 1
    lab['bar'] = spec['bar'] and not spec['verbose'] and per > 1
    lab['info'] = bool(spec['info'])
    lab['reuse'] = spec['reuse']
    shares = spec['train']['shuffle'] and not spec['train']['whole'] and any(
        m.get('it') == 'training_data_iter' for m in mons)
    if not shares:
        bare, _, seen2, _ = train(spec, params, data, valid, [])
        got = nets.load_params(bare)
        lab['bare'] = True
        for n in got:
            for p in got[n]:
                tol = (1e-4 if spec['f32'] else 1e-9) * max(1.0, top)
                ensure(nets.close(final[n][p], got[n][p], tol, tol),
                       'training with monitors %s gives other parameters '
                       '%s.%s than without: %s',
                       [m['k'] for m in mons], n, p,
                       nets.describe_diff(final[n][p], got[n][p]))
    if spec['evaluate']:
        check_evaluate(spec, net, ref, valid, dt, rtol)
    for k in nets.spec_kinds(spec):
        lab['layer:' + k] = 1
    return lab


def check_evaluate(spec, net, ref, valid, dt, rtol):
    """Trainer.evaluate fills .results and leaves .logs alone."""
    tr = bs.Trainer(SgdStepper(0.1), verbose=False)
    tr.add_hook(H.MonitorLoss('valid', name='v'))
    tr.add_hook(H.MonitorScores('valid', make_scorers(spec, 0.5), name='s',
                                timescale='update'))
    snap = snapshot(net)
    it = iterator(spec['valid'], valid, spec['seed'])
    res = tr.evaluate(net, valid=it)
    ensure(res is tr.results and not tr.logs, 'Trainer.evaluate logs %s',
           tr.logs)
    d = {k: v.astype(dt).astype(np.float64) for k, v in valid.items()}
    for name, m in (('v', {'k': 'loss', 'thr': .5}),
                    ('s', {'k': 'scores', 'thr': .5})):
        want = expected(spec, ref, snap, d, m)
        ensure(set(res[name]) == set(want), 'Trainer.evaluate gives %s for '
               '%s', sorted(res[name]), name)
        for k, (w, doubt, size) in want.items():
            if spec['f32'] and (size > 1e4 or k.startswith('score_')):
                continue
            g = res[name][k]
            ensure(len(g) == 1 and abs(float(g[0]) - w) <= doubt +
                   rtol * size, 'Trainer.evaluate gives %s.%s = %s, expected '
                   '%r', name, k, g, w)


def expected(spec, ref, snap, dset, m):
    """{name: (value, possible error, magnitude)}"""
    params = {}
    for (n, sec, k), a in snap.items():
        if sec == 'parameters':
            params.setdefault(n, {})[k] = a.astype(np.float64)
    r = ref.run(params, dset, False, {})
    res = {}
    big = max([1.0] + [float(np.abs(v).sum()) for d in r['outputs'].values()
                       for k, v in d.items() if np.size(v)])
    losses = dict(r['losses']) if len(r['losses']) > 1 else {}
    losses['total_loss'] = r['total']
    for k, v in losses.items():
        res[k] = (float(v), 0.0, big)
    if m['k'] == 'scores':
        for l in scored(spec):
            kind = SCORER[l['t']].__name__
            p = r['outputs'][l['n']]['predictions']
            t = dset[l['in']['targets'][0][1]]
            v, doubt = definition(kind, p, t, None, m['thr'])
            res['score_' + l['n']] = (float(v), float(doubt), big)
    return res


def nontrivial(spec, labels):
    if labels.get('kind') == 'bars':
        return labels['trainings'] > 1 or labels['partial'] > 0
    return labels.get('kind') == 'run' and labels['calls'] >= 2
