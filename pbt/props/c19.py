"""C19: seeding makes runs reproducible and random states independent."""
import copy
import fnmatch
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from pbt import nets
from pbt.boot import HarnessError, VERIF
from pbt.core import Violation, ensure
from brainstorm import hooks as H
from brainstorm import initializers as I
from brainstorm import value_modifiers as V
from brainstorm.data_iterators import (AddGaussianNoise, AddSaltNPepper, Flip,
                                       Minibatches, Pad, RandomCrop)
from brainstorm.handlers import NumpyHandler
from brainstorm.randomness import RandomState, Seedable, global_rnd
from brainstorm.training import (MomentumStepper, NesterovStepper, SgdStepper,
                                 Trainer)

ValueModifier = V.ValueModifier

ID = 'C19'
QUICK, THOROUGH = 4000, 50000
RULE = ('(a) Random pipelines (network with dropout and other layers, random '
        'initialisers, shuffled and noisy iterators, modifiers that may '
        'overlap or draw random numbers, several epochs of '
        'training with monitors) run after setting the global seed: twice in '
        'this process with unrelated random activity in between, and in a '
        'second process with another hash seed; parameters, logs, contexts '
        'and drawn batches are compared bit by bit. (b) Random sequences of '
        'operations on a pool of random states against numpy streams. '
        'Non-trivial: a pipeline with at least one update whose result '
        'depends on the seed, or at least three operations.')
ASSUMPTIONS = ['the generator behind a seed is that of '
               'numpy.random.RandomState']

DRAWS = ['rand', 'randn', 'randint', 'shuffle', 'uniform', 'choice']


class Jitter(ValueModifier):
    """A modifier that needs random numbers."""

    def __init__(self, scale=0.01):
        super(Jitter, self).__init__()
        self.scale = scale

    def __call__(self, handler, view):
        handler.add_tt(view, handler.create_from_numpy(
            (self.scale * self.rnd.randn(*view.shape)).astype(
                handler.dtype)), out=view)


MODS = {'weight': ['jitter', 'jitter2', 'clip', 'clip2', 'norm'],
        'grad': ['jitter', 'jitter2', 'clip', 'l1', 'l2']}


def modifier(name):
    return {'jitter': Jitter, 'jitter2': lambda: Jitter(0.5),
            'clip': lambda: V.ClipValues(-0.1, 0.2),
            'clip2': lambda: V.ClipValues(0.1, 0.15),
            'norm': lambda: V.ConstrainL2Norm(0.3),
            'l1': lambda: V.L1Decay(0.1),
            'l2': lambda: V.L2Decay(0.5)}[name]()


def modifiers(s, section):
    return {p: [modifier(m) for m in ms] if len(ms) > 1 else modifier(ms[0])
            for sec, p, ms in s.get('mods', []) if sec == section}


@st.composite
def pipeline(draw):
    s = draw(nets.net_specs(max_layers=3, max_heads=2, T=st.integers(1, 3),
                            B=nets.rarely(st.integers(2, 7), st.sampled_from(
                                [12, 31]))))
    s['global'] = draw(st.integers(0, 2 ** 32 - 1))
    s['handler'] = draw(st.sampled_from(['default', 'own', 'own', 'seeded']))
    s['init'] = draw(st.sampled_from(['Gaussian', 'Uniform', 'DenseSqrtFanIn',
                                      'DenseSqrtFanInOut']))
    s['W'] = draw(st.sampled_from([None, None, 'SparseInputs',
                                   'SparseOutputs', 'Orthogonal']))
    s['R'] = draw(st.sampled_from([None, 'EchoState', 'RandomWalk',
                                   'Identity', 'Orthogonal']))
    s['init_seed'] = draw(st.sampled_from([None, None, 17, 99]))
    s['described'] = draw(st.booleans())
    s['wrap'] = draw(st.lists(st.sampled_from(['noise', 'salt', 'flip',
                                               'crop']), max_size=2,
                              unique=True))
    s['wrap_rev'] = draw(st.booleans())
    s['pics'] = {'names': draw(st.lists(st.sampled_from(
        ['default', 'targets', 'left', 'right', 'a', 'b10', 'Img']),
        min_size=1, max_size=4, unique=True)),
        'wrap': draw(st.lists(st.sampled_from(
            ['noise', 'salt', 'flip', 'crop', 'pad']), max_size=4))}
    s['bs'] = draw(st.integers(1, 4))
    s['stepper'] = draw(st.sampled_from(['SgdStepper', 'MomentumStepper',
                                         'NesterovStepper']))
    s['epochs'] = draw(st.integers(1, 3))
    s['monitor'] = draw(st.booleans())
    s['late'] = draw(st.booleans())
    owners = [l['n'] for l in s['layers'] if l['t'] in nets.PARAM_NAMES]
    s['mods'] = []
    if owners and draw(st.booleans()):
        # patterns may select a parameter several times
        pats = [p for n in owners for p in (n, n[0] + '*', '*' + n[-1], '*')]
        for sec in draw(st.sampled_from([['weight'], ['grad'],
                                         ['grad', 'weight']])):
            for p in draw(st.lists(st.sampled_from(pats), min_size=1,
                                   max_size=3, unique=True)):
                s['mods'].append([sec, p, draw(st.lists(
                    st.sampled_from(MODS[sec]), min_size=1, max_size=2))])
    return s


@st.composite
def states(draw):
    n = draw(st.integers(1, 16))
    ops = []
    seeds = st.one_of(st.none(), st.integers(0, 2 ** 32 - 1),
                      st.integers(0, 3))
    some = st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 3))
    for _ in range(n):
        op = draw(st.sampled_from(
            ['new', 'child', 'child', 'set_seed', 'seed', 'reset', 'reset',
             'gen', 'gen', 'draw', 'draw', 'draw', 'pickle', 'copy',
             'deepcopy', 'seedable', 'global']))
        i = draw(st.integers(0, 9))
        if op in ('new', 'child', 'seedable'):
            ops.append([op, i, draw(seeds)])
        elif op in ('set_seed', 'seed', 'global'):
            ops.append([op, i, draw(some)])
        elif op == 'draw':
            ops.append([op, i, draw(st.sampled_from(DRAWS))])
        elif op == 'pickle':
            ops.append([op, i, draw(st.integers(0, pickle.HIGHEST_PROTOCOL))])
        else:
            ops.append([op, i, 0])
    return {'ops': ops, 'global': draw(st.integers(0, 9999))}


def strategy():
    return st.one_of(pipeline(), states())


# --------------------------------------------------------------------------
# random states

def do_draw(r, kind):
    if kind == 'rand':
        return r.rand(3).tolist()
    if kind == 'randn':
        return r.randn(3).tolist()
    if kind == 'randint':
        return r.randint(0, 1000, 4).tolist()
    if kind == 'shuffle':
        a = np.arange(9)
        r.shuffle(a)
        return a.tolist()
    if kind == 'uniform':
        return r.uniform(size=(2, 2)).tolist()
    return np.asarray(r.choice(7, 3)).tolist()


def key(r):
    s = r.get_state()
    return hashlib.sha1(repr((s[0], s[1].tobytes(), s[2:])).encode()
                        ).hexdigest()


def same_stream(real, model, what):
    ensure(key(real) == key(model), '%s: the random state is not the expected '
           'one', what)


def run_ops(s):
    global_rnd.set_seed(s['global'])
    pool = [(global_rnd, np.random.RandomState(s['global']), s['global'])]
    pool = [list(p) for p in pool]
    gens = {}
    trace = []

    def derived(parent, child, what):
        """A state whose seed was generated by parent (a pool entry)."""
        seed = child.get_seed()
        ensure(0 <= seed <= 10 ** 9, '%s: generated seed %r', what, seed)
        before = key(parent[1])
        ensure(key(parent[0]) != before, '%s: generating a seed does not '
               'advance the parent', what)
        ensure(gens.setdefault(before, seed) == seed, '%s: the same state '
               'generated the seeds %s and %s', what, gens[before], seed)
        parent[1].set_state(parent[0].get_state())
        return seed

    for op, i, arg in s['ops']:
        e = pool[i % len(pool)]
        r, m, seed = e
        what = '%s(%s)' % (op, arg)
        if op in ('new', 'seedable'):
            g = pool[0]
            c = RandomState(arg) if op == 'new' else Seedable(arg).rnd
            ensure(isinstance(c, RandomState), '%s: no RandomState', what)
            sd = arg if arg is not None else derived(g, c, what)
            pool.append([c, np.random.RandomState(sd), sd])
        elif op == 'child':
            c = r.create_random_state() if arg is None else \
                r.create_random_state(arg)
            sd = arg if arg is not None else derived(e, c, what)
            pool.append([c, np.random.RandomState(sd), sd])
        elif op in ('set_seed', 'seed'):
            getattr(r, op)(arg)
            m.seed(arg)
            e[2] = arg
        elif op == 'global':
            global_rnd.set_seed(arg)
            pool[0][1].seed(arg)
            pool[0][2] = arg
        elif op == 'reset':
            r.reset()
            m.seed(seed)
        elif op == 'gen':
            before = key(m)
            v = r.generate_seed()
            ensure(0 <= v < 10 ** 9 and int(v) == v, 'generated seed %r', v)
            ensure(key(r) != before, 'generating a seed does not advance the '
                   'random state')
            ensure(gens.setdefault(before, v) == v, 'the same state generated '
                   'the seeds %s and %s', gens[before], v)
            m.set_state(r.get_state())
            trace.append(int(v))
        elif op == 'draw':
            a, b = do_draw(r, arg), do_draw(m, arg)
            ensure(a == b, '%s: draws %s instead of %s', what, a, b)
            trace.append(a)
        else:
            c = pickle.loads(pickle.dumps(r, arg)) if op == 'pickle' else \
                copy.copy(r) if op == 'copy' else copy.deepcopy(r)
            ensure(type(c) is RandomState, '%s gives a %s', what, type(c))
            m2 = np.random.RandomState(0)
            m2.set_state(m.get_state())
            pool.append([c, m2, seed])
        for j, (r2, m2, sd) in enumerate(pool):
            same_stream(r2, m2, 'state %d after %s of state %d' % (
                j, what, i % len(pool)))
            ensure(r2.get_seed() == sd, 'state %d reports the seed %s instead '
                   'of %s', j, r2.get_seed(), sd)
    trace.append([key(p[0]) for p in pool])
    return trace


# --------------------------------------------------------------------------
# pipelines

def flatten(x):
    if isinstance(x, dict):
        return {str(k): flatten(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [flatten(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f' and np.isnan(x).any():
            # the sign of a NaN is not defined
            x = np.where(np.isnan(x), x.dtype.type('nan'), x)
        return hashlib.sha1(repr((x.shape, str(x.dtype))).encode() +
                            np.ascontiguousarray(x).tobytes()).hexdigest()
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, (int, np.integer)):
        return int(x)
    return repr(x)


def initializers(s):
    d = {'default': getattr(I, s['init'])(), 'fallback': I.Gaussian(0.1)}
    pat = {}
    if s['W']:
        pat['W*'] = {'SparseInputs': lambda: I.SparseInputs(I.Gaussian(), 1),
                     'SparseOutputs': lambda: I.SparseOutputs(I.Uniform(), 1),
                     'Orthogonal': I.Orthogonal}[s['W']]()
    if s['R']:
        pat['R*'] = {'EchoState': I.EchoState, 'RandomWalk': I.RandomWalk,
                     'Orthogonal': I.Orthogonal,
                     'Identity': lambda: I.Identity(0.5, std=0.1)}[s['R']]()
    if s['described']:
        def re(x):
            return bs.create_from_description(bs.get_description(x))
        d = {k: re(v) for k, v in d.items()}
        pat = {k: re(v) for k, v in pat.items()}
    pat['timing'] = 1
    pat['sigma'] = 1.0
    for l in s['layers']:
        names = nets.PARAM_NAMES.get(l['t'])
        if names:
            d[l['n']] = {k: v for k, v in pat.items()
                         if fnmatch.filter(names, k)}
            d[l['n']].update(default=d['default'], fallback=I.Gaussian(0.2))
    return d


def run_pipeline(s, noise=0, seed_shift=0):
    """Return what is observable of one run, as plain data."""
    import warnings
    warnings.simplefilter('ignore')
    old = [RandomState(noise + 7), Minibatches(
        1, True, default=np.zeros((1, 3, 1)))]
    rn = np.random.RandomState(s['seed'])
    data = nets.draw_inputs(s, rn)
    global_rnd.set_seed((s['global'] + seed_shift) % 2 ** 32)

    def disturb():
        if noise:
            np.random.seed(noise)
            np.random.rand(noise)
            random.seed(noise)
            old[0].rand(noise)
            list(old[1]())

    disturb()
    out = {}
    nodes = nets.construct(s)
    net = bs.Network.from_layer(nodes['Input'])
    if s['handler'] == 'own':
        net.set_handler(NumpyHandler(np.float64))
    elif s['handler'] == 'seeded':
        net.set_handler(NumpyHandler(np.float32, seed=5))
    disturb()
    net.initialize(initializers(s), seed=s['init_seed'])
    waste = [[object() for _ in range(noise % 7)] for _ in range(noise % 5)]
    net.set_weight_modifiers(modifiers(s, 'weight'))
    net.set_gradient_modifiers(modifiers(s, 'grad'))
    del waste
    out['init'] = {n: {p: flatten(v) for p, v in d.items()}
                   for n, d in nets.load_params(net).items()}
    it = Minibatches(s['bs'], True, **data)
    valid = Minibatches(2, True, **data)
    names = sorted(n for n in s['inputs'] if not n.startswith('tgt')
                   and n.lower().strip('_') in ('default', 'aux', 'default2'))
    if s['wrap_rev']:
        names.reverse()
    pics = [n for n in names if len(s['inputs'][n]) == 3]
    for w in s['wrap']:
        if w == 'noise':
            it = AddGaussianNoise(it, {n: 0.1 for n in names})
        elif w == 'salt':
            it = AddSaltNPepper(it, {n: 0.3 for n in names})
        elif pics and w == 'flip':
            it = Flip(it, {n: 0.5 for n in pics})
        elif pics and w == 'crop':
            big = {n: np.random.RandomState(1).rand(
                *(d.shape[:2] + (d.shape[2] + 2, d.shape[3] + 3, d.shape[4])))
                if n in pics else d for n, d in data.items()}
            it = Minibatches(s['bs'], True, **big)
            it = RandomCrop(it, {n: tuple(s['inputs'][n][:2]) for n in pics})
    batches = []
    log = _Recorder(it, batches)
    tr = Trainer({'SgdStepper': SgdStepper, 'MomentumStepper':
                  lambda r: MomentumStepper(r, 0.5), 'NesterovStepper':
                  lambda r: NesterovStepper(r, 0.5)}[s['stepper']](0.01),
                 verbose=False)
    kw = {}
    if s['monitor']:
        tr.add_hook(H.MonitorLoss('valid', interval=1))
        kw['valid'] = valid
    tr.add_hook(H.StopAfterEpoch(s['epochs']))
    disturb()
    if noise and s['late'] and s['handler'] != 'default':
        global_rnd.rand(noise)
    old_err = np.seterr(all='ignore')
    try:
        tr.train(net, log, **kw)
    finally:
        np.seterr(**old_err)
    out['batches'] = batches
    global_rnd.set_seed((s['global'] + seed_shift + 1) % 2 ** 32)
    out['images'] = images(s)
    out['params'] = flatten(net.get('parameters'))
    out['logs'] = flatten(tr.logs)
    out['context'] = flatten(net.get_context())
    out['seeds'] = [int(net.rnd.get_seed()), int(it.rnd.get_seed())]
    # what comes next is determined too
    nxt = next(iter(it()))
    out['next'] = flatten({k: nxt[k] for k in sorted(nxt)})
    return json.loads(json.dumps(out))


def images(s):
    """Batches of several image sequences, augmented together."""
    names = s['pics']['names']
    rn = np.random.RandomState(s['seed'])
    it = Minibatches(s['bs'], True, **{
        n: rn.rand(2, 3, 4, 4, 1) for n in names})
    size = 4
    for w in s['pics']['wrap']:
        if w == 'noise':
            it = AddGaussianNoise(it, {n: 0.1 for n in names})
        elif w == 'salt':
            it = AddSaltNPepper(it, {n: 0.3 for n in names})
        elif w == 'flip':
            it = Flip(it, {n: 0.5 for n in names})
        elif w == 'pad':
            it = Pad(it, {n: 1 for n in names}, {n: 0.5 for n in names})
            size += 2
        elif size > 1:
            size -= 1
            it = RandomCrop(it, {n: (size, size) for n in names})
    return [flatten({k: d[k] for k in sorted(d)}) for d in it()]


class _Recorder(bs.data_iterators.DataIterator):
    def __init__(self, it, log):
        super(_Recorder, self).__init__(it.data_shapes, it.length)
        self.it = it
        self.log = log

    def __call__(self, handler=None):
        for d in self.it(handler):
            self.log.append(flatten({k: d[k] for k in sorted(d)}))
            yield d


def serve():
    """Helper process: one pipeline per line."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    for line in sys.stdin:
        try:
            res = run_pipeline(json.loads(line))
        except Exception as e:
            res = {'error': '%s: %s' % (type(e).__name__, e)}
        out.write(json.dumps(res) + '\n')
        out.flush()


_helper = []


def in_other_process(s):
    if not _helper or _helper[0].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(os.getpid() % 1000 + 1))
        code = ('import sys; sys.path.insert(0, %r); from pbt.boot import '
                'boot; boot(); from pbt.props import c19; c19.serve()' % VERIF)
        _helper[:] = [subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c', code], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True)]
    p = _helper[0]
    try:
        p.stdin.write(json.dumps(s) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
        return json.loads(line)
    except (OSError, ValueError) as e:
        raise HarnessError('the helper process failed: %s' % e)


def compare(a, b, what):
    for k in a:
        ensure(k in b, '%s: %s is missing', what, k)
        ensure(a[k] == b[k], '%s: %s differs', what, k)


def check(s):
    if 'ops' in s:
        a = run_ops(s)
        b = run_ops(s)
        ensure(a == b, 'the same operations give other results')
        return {'mode': 'states', 'ops': len(s['ops']), 'random': True}
    first = run_pipeline(s)
    compare(first, run_pipeline(s, noise=3), 'second run with the same '
            'global seed')
    other = in_other_process(s)
    ensure('error' not in other, 'in another process: %s',
           other.get('error'))
    compare(first, other, 'run in another process with the same global seed')
    shifted = run_pipeline(s, seed_shift=1)
    depends = shifted['params'] != first['params']
    drawn = {(n, p) for n, d in first['init'].items() for p in d} - \
        {(n, p) for n, d in first['init'].items() for p in d
         if p in ('timing', 'sigma', 'mu', 'gamma', 'beta', 'bias') or
         p.startswith(('b', 'p', 'R'))}
    if s['init_seed'] is not None:
        ensure(shifted['init'] == first['init'], 'with a given seed the '
               'initial parameters depend on the global seed')
    elif drawn:
        ensure(shifted['init'] != first['init'], 'the initial parameters do '
               'not depend on the global seed')
    ensure(len(set(first['seeds'])) == 2, 'two objects share the seed %s',
           first['seeds'])
    return {'mode': 'pipeline', 'random': depends, 'handler': s['handler'],
            'dropout': any(l['t'] == 'Dropout' for l in s['layers']),
            'ops': 0}


def nontrivial(spec, labels):
    return labels['ops'] > 2 or (labels['mode'] == 'pipeline' and
                                 labels['random'])
