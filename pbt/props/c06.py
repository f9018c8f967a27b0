"""C06: an architecture means the same however written; bad ones refused."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.boot import VERIF
from pbt.core import ensure
import brainstorm as bs
import brainstorm.layers as L
from brainstorm.handlers import NumpyHandler
from brainstorm.structure.architecture import generate_architecture

ID = 'C06'
QUICK, THOROUGH = 3000, 60000
RULE = ('(same) a random layer graph built with several random wiring, '
        'creation and dictionary orders, from every entry layer, from the '
        'exported architecture and its JSON copy; (hash) batches of graphs '
        'built in processes with different hash seeds; (names) random '
        'colliding layer names; (bad) a random valid architecture with one '
        'random defect, which must be refused; (layer) one layer with random '
        'input structures and options, which must be accepted with the '
        'output shapes of its definition or refused. Non-trivial: at least '
        'two layers, or a defect, or at least two equal names.')
ASSUMPTIONS = ['any exception counts as refusal',
               'listing the same connection twice is the same as listing it '
               'once']

DEFECTS = ['cycle', 'self', 'end', 'input', 'output', 'type', 'notype',
           'missing', 'kwarg', 'name', 'noinput', 'toinput', 'parameter',
           'outgoing', 'shape', 'shape']


@st.composite
def _same(draw):
    spec = draw(nets.net_specs(max_layers=6))
    spec['kind'] = 'same'
    spec['perm'] = draw(st.integers(0, 10 ** 6))
    return spec


@st.composite
def _bad(draw):
    spec = draw(nets.net_specs(max_layers=4))
    spec['kind'] = 'bad'
    spec['defect'] = draw(st.sampled_from(DEFECTS))
    spec['pick'] = draw(st.integers(0, 1000))
    return spec


@st.composite
def _names(draw):
    base = st.sampled_from(['a', 'a_1', 'a_2', 'a_1_1', 'b', 'NoOp', 'NoOp_1',
                            None, 'a_3', 'a_10', 'a_1_2'])
    n = draw(nets.rarely(st.integers(1, 9), st.integers(10, 40)))
    if n > 9:
        base = st.sampled_from(draw(st.lists(base, min_size=1, max_size=3)))
    return {'kind': 'names', 'names': [draw(base) for _ in range(n)],
            'tree': [draw(st.integers(0, max(8, n))) for _ in range(n)],
            # layers that are connected several times
            'extra': draw(st.lists(st.tuples(
                st.integers(0, n - 1), st.integers(0, n - 1)).map(list),
                max_size=3)),
            'perm': draw(st.integers(0, 10 ** 6))}


@st.composite
def _hash(draw):
    return {'kind': 'hash', 'hashseed': draw(st.integers(1, 10 ** 6)),
            'names': [draw(_names()) for _ in range(2)] + [
                {'kind': 'names', 'perm': draw(st.integers(0, 10 ** 6)),
                 'names': ['a'] * draw(st.integers(11, 120)),
                 'tree': [0] * 120}],
            'nets': draw(st.lists(nets.net_specs(max_layers=7), min_size=4,
                                  max_size=10))}


@st.composite
def _layer(draw):
    """One layer with random input structures and options."""
    t = draw(st.sampled_from(sorted(LAYER_INPUTS)))
    dim = st.sampled_from([1, 2, 3, 4])
    base = draw(st.lists(dim, min_size=1, max_size=4))
    if t in ('Convolution2D', 'Pooling2D') and draw(st.integers(0, 4)):
        base = (base + [2, 3, 1])[:3]
    names = LAYER_INPUTS[t] or draw(st.lists(st.sampled_from(
        ['default', 'mask', 'nonsense']), min_size=1, max_size=2,
        unique=True))
    ins = {}
    for i, n in enumerate(names):
        srcs = []
        for j in range(draw(st.sampled_from([1, 1, 1, 1, 2, 3]))):
            f = list(base)
            if n in ('targets', 'mask') and draw(st.integers(0, 2)):
                f = draw(st.sampled_from([f[:-1] + [1], [1], f]))
            for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
                k = draw(st.integers(0, len(f) - 1))
                how = draw(st.sampled_from(['size', 'last', 'cut', 'more',
                                            'swap', 'flat', 'ones']))
                if how == 'size':
                    f[k] = draw(dim)
                elif how == 'last':
                    f[-1] = draw(dim)
                elif how == 'cut' and len(f) > 1:
                    del f[k]
                elif how == 'more':
                    f.insert(k, draw(dim))
                elif how == 'swap':
                    f = f[::-1]
                elif how == 'flat':
                    f = [nets.prod(f)]
                elif how == 'ones':
                    f[k:] = [1] * len(f[k:])
            kind = draw(st.sampled_from(['TB'] * 14 + ['B', '']))
            srcs.append([kind, f])
        ins[n] = srcs
    kw = {}
    size = st.sampled_from([1, 2, 5, [2, 3], [4], (1, 2), 2.5, '3', [2, 1.5],
                            None])
    good = st.integers(1, 4)
    pair = st.one_of(st.tuples(good, good), st.tuples(good, good),
                     st.lists(good, min_size=1, max_size=3))
    if t in nets.RECURRENT or t == 'FullyConnected':
        if draw(st.integers(0, 3)):
            kw['size'] = draw(st.one_of(good, good, size))
    if t in ('Convolution2D', 'Pooling2D'):
        for k, v in (('kernel_size', pair), ('stride', st.one_of(
                pair, pair, pair, st.sampled_from([(0, 1), (1, 0), (-1, 1),
                                                   2]))),
                     ('padding', st.sampled_from([0, 0, 1, 2, 3, -1, 1.0])),
                     ('num_filters', good),
                     ('type', st.sampled_from(['max', 'avg', 'max', 'avg',
                                               'sum', 'MAX', None]))):
            if k == 'num_filters' and t == 'Pooling2D' or \
                    k == 'type' and t == 'Convolution2D':
                continue
            if draw(st.integers(0, 9 if k in ('kernel_size', 'num_filters',
                                              'type') else 1)):
                kw[k] = draw(v)
    if t == 'BatchNorm':
        if draw(st.booleans()):
            kw['decay'] = draw(st.sampled_from([0.0, 1.0, 0.5, -0.01, 1.01,
                                                2, 0, 1]))
    if t == 'DeltasScaling' and draw(st.integers(0, 3)):
        kw['factor'] = draw(st.sampled_from([0.0, -1, 2.5]))
    if t == 'Loss' and draw(st.booleans()):
        kw['importance'] = draw(st.sampled_from([0.0, -1, 2.5]))
    if draw(st.integers(0, 7)) == 0:
        # an option of another layer
        k = draw(st.sampled_from(sorted(ALL_OPTIONS)))
        kw.setdefault(k, {'activation': 'tanh', 'type': 'max'}.get(k, 1))
    name = draw(st.sampled_from(['lay', 'lay', 'lay', 'total_loss']))
    return {'kind': 'layer', 't': t, 'in': ins, 'kw': kw, 'name': name,
            'sink': draw(st.booleans())}


def strategy():
    return st.integers(0, 199).flatmap(
        lambda i: _hash() if i == 77 else _layer() if i % 5 == 1 else
        _names() if i % 8 == 3 else _bad() if i % 2 else _same())


def fingerprint(net, spec):
    """Everything observable about the layout and behaviour."""
    order = list(net.layers)
    net.provide_external_data(nets.draw_inputs(
        spec, np.random.RandomState(3)))
    flat = net.buffer.parameters
    flat[...] = np.arange(flat.size) % 13 * 0.05 - 0.3 + 1e-3 * np.arange(
        flat.size) / max(1, flat.size)
    lay = {'%s.%s' % (n, p): net.get('%s.parameters.%s' % (n, p))
           for n, d in nets.param_shapes(net).items() for p in d}
    orders = {'%s.%s' % k: [list(s) for s in v]
              for k, v in nets.source_orders(net, spec).items()}
    data = nets.draw_inputs(spec, np.random.RandomState(5))
    net.provide_external_data(data)
    net.handler.rnd.set_seed(9)
    net.forward_pass(training_pass=True)
    outs = {'%s.%s' % (n, o): nets.get_output(net, n, o, spec['T'])
            for n in order if n != 'Input' for o in net.layers[n].out_shapes}
    net.backward_pass()
    grads = net.get('gradients')
    return {'order': order, 'layout': lay, 'orders': orders, 'outs': outs,
            'grads': grads, 'losses': list(net.get_loss_values().items())}


def to_bytes(x):
    # the sign of a NaN is not defined
    return np.ascontiguousarray(np.where(np.isnan(x), np.nan, x)).tobytes()


def digest(fp):
    h = hashlib.sha256()
    h.update(repr(fp['order']).encode())
    h.update(repr(sorted(fp['orders'].items())).encode())
    for part in ('layout', 'outs'):
        for k in sorted(fp[part]):
            h.update(k.encode())
            h.update(to_bytes(fp[part][k]))
    h.update(to_bytes(fp['grads']))
    return h.hexdigest()


def compare(a, b, what):
    ensure(a['order'] == b['order'], '%s: layer order %s instead of %s', what,
           b['order'], a['order'])
    ensure(sorted(a['layout']) == sorted(b['layout']), '%s: parameters '
           'differ', what)
    for k in a['layout']:
        ensure(np.array_equal(a['layout'][k], b['layout'][k]),
               '%s: parameter %s lies elsewhere in the flat vector', what, k)
    ensure(a['orders'] == b['orders'], '%s: inputs are concatenated in a '
           'different order', what)
    for k in a['outs']:
        ensure(np.array_equal(a['outs'][k], b['outs'][k], equal_nan=True),
               '%s: output %s differs', what, k)
    ensure(np.array_equal(a['grads'], b['grads'], equal_nan=True),
           '%s: gradients differ', what)
    ensure([k for k, _ in a['losses']] == [k for k, _ in b['losses']],
           '%s: losses differ', what)


def from_layer(layer):
    net = bs.Network.from_layer(layer)
    net.set_handler(NumpyHandler(np.float64))
    return net


def from_arch(arch):
    net = bs.Network.from_architecture(arch)
    net.set_handler(NumpyHandler(np.float64))
    return net


def canon(arch):
    res = {}
    for n, d in arch.items():
        e = {k: (list(v) if isinstance(v, tuple) else v)
             for k, v in d.items() if k != '@outgoing_connections'}
        out = d.get('@outgoing_connections', {})
        if not isinstance(out, dict):
            out = {'default': list(out)}
        e['out'] = {k: sorted(set(c if '.' in c else c + '.default'
                                  for c in v))
                    for k, v in out.items() if v}
        res[n] = e
    return json.loads(json.dumps(res))


def reorder(arch, rnd, tricks=True):
    items = list(arch.items())
    rnd.shuffle(items)
    res = {}
    for n, d in items:
        keys = list(d.items())
        rnd.shuffle(keys)
        nd = {}
        for k, v in keys:
            if k == '@outgoing_connections':
                outs = list(v.items())
                rnd.shuffle(outs)
                nv = {}
                for o, cons in outs:
                    cons = list(cons)
                    rnd.shuffle(cons)
                    if tricks and cons and rnd.random() < 0.2:
                        cons.append(cons[0])        # listed twice
                    if tricks:
                        cons = [c[:-len('.default')] if
                                c.endswith('.default') and
                                rnd.random() < 0.5 else c for c in cons]
                    nv[o] = cons
                v = nv
                if tricks and set(nv) <= {'default'} and rnd.random() < 0.5:
                    v = nv.get('default', [])
            nd[k] = v
        res[n] = nd
    return res


def check_same(spec):
    rnd = random.Random(spec['perm'])
    nodes = nets.construct(spec)
    net = from_layer(nodes['Input'])
    base = fingerprint(net, spec)
    pos = {n: i for i, n in enumerate(base['order'])}
    ensure(base['order'][0] == 'Input' and sorted(pos) == sorted(
        ['Input'] + nets.layer_names(spec)), 'layers are %s', base['order'])
    for a, o, b, i in nets.wire_list(spec):
        ensure(pos[a] < pos[b], 'layer %s is evaluated before its source %s',
               b, a)
    for _ in range(2):
        wires = nets.wire_list(spec)
        rnd.shuffle(wires)
        order = list(range(len(spec['layers'])))
        rnd.shuffle(order)
        n2 = nets.construct(spec, wires, order)
        other = from_layer(n2[rnd.choice(sorted(n2))])
        compare(base, fingerprint(other, spec), 'wired in another order')
        ensure(canon(other.architecture) == canon(net.architecture),
               'wired in another order: different architecture')
    arch = net.architecture
    before = copy.deepcopy(arch)
    compare(base, fingerprint(from_arch(arch), spec), 'from architecture')
    ensure(canon(arch) == canon(before), 'building changed the architecture '
           'passed in')
    dumped = json.loads(json.dumps(arch))
    n3 = from_arch(reorder(dumped, rnd))
    compare(base, fingerprint(n3, spec), 'from re-ordered JSON architecture')
    ensure(canon(n3.architecture) == canon(arch), 'architecture of a network '
           'built from an architecture differs')
    gen = generate_architecture(nodes[rnd.choice(sorted(nodes))])
    ensure(canon(gen) == canon(arch), 'generate_architecture differs')
    return {'kind': 'same', 'layers': len(spec['layers'])}


def check_names(spec):
    rnd = random.Random(spec['perm'])
    inp = L.Input(out_shapes={'default': ('T', 'B', 2)})
    nodes = [inp]
    made = []
    names = spec['names']
    for k, nm in enumerate(names):
        made.append(L.NoOp(name=nm) if nm else L.NoOp())
    wires = [((inp if spec['tree'][k] % (k + 1) == 0 else
               made[spec['tree'][k] % (k + 1) - 1]), made[k])
             for k in range(len(names))]
    for a, b in spec.get('extra', []):
        m = L.Merge(name='both')
        wires += [(made[a], 'inputs_1' - m), (made[b], 'inputs_2' - m)]
    rnd.shuffle(wires)
    for a, b in wires:
        a >> b
    net = bs.Network.from_layer(rnd.choice(made + [inp]))
    got = [n for n, l in net.layers.items() if n.split('_')[0] not in (
        'Input', 'both')]
    ensure(len(got) == len(names), '%d layers named %s gave %s', len(names),
           names, got)
    ensure(len(set(w.layer.name for w in made)) == len(names),
           'layers named %s got the names %s', names,
           [w.layer.name for w in made])
    for nm, w in zip(names, made):
        base = nm or 'NoOp'
        n = w.layer.name
        # a name nobody else wants is kept
        if [x or 'NoOp' for x in names].count(base) == 1:
            ensure(n == base, 'layer %s was renamed to %s', base, n)
        else:
            ensure(n.startswith(base + '_') and n[len(base) + 1:].isdigit(),
                   'layer %s was renamed to %s', base, n)
    # names follow creation order, names that others have are left out
    count = {}
    for x in names:
        count[x or 'NoOp'] = count.get(x or 'NoOp', 0) + 1
    for base in count:
        idx = [w.layer.name for x, w in zip(names, made)
               if (x or 'NoOp') == base]
        free = ['%s_%d' % (base, i) for i in range(1, 3 * len(names) + 3)
                if count.get('%s_%d' % (base, i)) != 1]
        want = [base] if len(idx) == 1 else free[:len(idx)]
        ensure(idx == want, 'the layers %s of %s got the names %s instead of '
               '%s', base, names, idx, want)
    return {'kind': 'names', 'equal': len(set(names)) < len(names)}


def _conns(arch):
    return [(n, o, c) for n in sorted(arch)
            for o, cs in sorted(arch[n].get('@outgoing_connections',
                                            {}).items()) for c in cs]


BAD_SHAPES = [
    ('SquaredDifference', {'inputs_1': [3], 'inputs_2': [4]}, {}),
    ('SquaredDifference', {'inputs_1': [2, 3], 'inputs_2': [3, 2]}, {}),
    ('SquaredDifference', {'inputs_1': [3], 'inputs_2': [1]}, {}),
    ('SquaredError', {'default': [3], 'targets': [4]}, {}),
    ('SquaredError', {'default': [2, 3], 'targets': [6]}, {}),
    ('SoftmaxCE', {'default': [3], 'targets': [3]}, {}),
    ('SoftmaxCE', {'default': [2, 3], 'targets': [1]}, {}),
    ('SoftmaxCE', {'default': [2, 3], 'targets': [3, 1]}, {}),
    ('SigmoidCE', {'default': [3], 'targets': [1]}, {}),
    ('SigmoidCE', {'default': [2, 3], 'targets': [3, 2]}, {}),
    ('BinomialCrossEntropy', {'default': [3], 'targets': [1]}, {}),
    ('BinomialCrossEntropy', {'default': [2, 3], 'targets': [3, 2]}, {}),
    ('Mask', {'default': [3], 'mask': [2]}, {}),
    ('Mask', {'default': [3, 2], 'mask': [2]}, {}),
    ('Mask', {'default': [3, 2], 'mask': [2, 1]}, {}),
    ('Merge', {'inputs_1': [3, 2], 'inputs_2': [2, 2]}, {}),
    ('Merge', {'inputs_1': [3, 2], 'inputs_2': [2]}, {}),
    ('Highway', {'H': [3], 'T': [2], 'x': [3]}, {}),
    ('Highway', {'H': [3], 'T': [3], 'x': [2]}, {}),
    ('Highway', {'H': [2], 'T': [3], 'x': [3]}, {}),
    ('Convolution2D', {'default': [3]}, {'num_filters': 1,
                                         'kernel_size': [1, 1]}),
    ('Convolution2D', {'default': [3, 3]}, {'num_filters': 1,
                                            'kernel_size': [1, 1]}),
    ('Convolution2D', {'default': [3, 3, 1]}, {'num_filters': 1,
                                               'kernel_size': [4, 1]}),
    ('Convolution2D', {'default': [3, 3, 1]}, {'num_filters': 1,
                                               'kernel_size': [1, 1, 1]}),
    ('Convolution2D', {'default': [3, 3, 1]}, {
        'num_filters': 1, 'kernel_size': [1, 1], 'padding': -1}),
    ('Pooling2D', {'default': [3]}, {'kernel_size': [1, 1]}),
    ('Pooling2D', {'default': [3, 3, 1]}, {'kernel_size': [1, 4]}),
    ('Pooling2D', {'default': [3, 3, 1]}, {'kernel_size': [1, 1],
                                           'type': 'median'}),
    ('Pooling2D', {'default': [3, 3, 1, 1]}, {'kernel_size': [1, 1]}),
    ('Recurrent', {'default': [3]}, {'size': [2, 2]}),
    ('Lstm', {'default': [3]}, {'size': [2, 2]}),
]


def corrupt(arch, spec):
    """Return (defective architecture, description)."""
    pick = spec['pick']
    names = sorted(n for n in arch if n != 'Input')
    v = names[pick % len(names)]
    conns = _conns(arch)
    kind = spec['defect']
    if kind in ('cycle', 'self'):
        reach = {n: {n} for n in arch}
        grew = True
        while grew:
            grew = False
            for a, _, c in conns:
                b = c.split('.')[0]
                new = reach[b] - reach[a]
                if new:
                    reach[a] |= new
                    grew = True
        if kind == 'self':
            w = v
        else:
            cands = sorted(reach[v] - {v}) or [v]
            w = cands[pick % len(cands)]
        inputs = sorted(set(c for _, _, c in conns
                            if c.split('.')[0] == v))
        outs = {'Loss': 'loss', 'SquaredError': 'loss', 'SoftmaxCE': 'loss',
                'SigmoidCE': 'loss', 'L1Decay': 'loss', 'L2Decay': 'loss'}
        o = outs.get(arch[w]['@type'], 'default')
        arch[w].setdefault('@outgoing_connections', {}).setdefault(
            o, []).append(inputs[pick % len(inputs)])
        return arch, 'cycle %s -> %s' % (w, inputs)
    a, o, c = conns[pick % len(conns)]
    cs = arch[a]['@outgoing_connections'][o]
    k = cs.index(c)
    b, _, i = c.partition('.')
    if kind == 'end':
        cs[k] = 'nowhere.' + i
        return arch, 'connection to missing layer'
    if kind == 'input':
        cs.append(b + '.nonsense')
        return arch, 'connection to missing input'
    if kind == 'output':
        arch[a]['@outgoing_connections']['nonsense'] = [c]
        return arch, 'connection from missing output of ' + a
    if kind == 'parameter':
        arch[a]['@outgoing_connections']['..parameters.nonsense'] = [c]
        return arch, 'connection from missing parameter of ' + a
    if kind == 'type':
        arch[v]['@type'] = ['Nonsense', 'fullyConnected', 'NoOpLayerImpl',
                            ''][pick % 4]
        return arch, 'unknown type'
    if kind == 'notype':
        del arch[v]['@type']
        return arch, 'no type'
    if kind == 'missing':
        for n in arch:
            out = arch[n].get('@outgoing_connections', {})
            for oo in out:
                out[oo] = [x for x in out[oo] if x != c]
        return arch, 'input %s not connected' % c
    if kind == 'kwarg':
        arch[v][['nonsense', 'sizes', 'Activation'][pick % 3]] = 1
        return arch, 'unknown option for ' + v
    if kind == 'name':
        bad = ['', '1a', 'a b', 'a.b', 'a-b', '@a'][pick % 6]
        d = arch.pop(v)
        arch[bad] = d
        for n in arch:
            out = arch[n].get('@outgoing_connections', {})
            for oo in out:
                out[oo] = [bad + x[len(v):] if x.split('.')[0] == v else x
                           for x in out[oo]]
        return arch, 'layer named %r' % bad
    if kind == 'noinput':
        if pick % 2:
            del arch['Input']
        else:
            arch['Input']['@type'] = 'NoOp'
        return arch, 'no Input layer'
    if kind == 'toinput':
        arch[v].setdefault('@outgoing_connections', {}).setdefault(
            'default', []).append('Input.default')
        return arch, 'connection to Input'
    if kind == 'outgoing':
        arch[v]['@outgoing_connections'] = ['x.default', 5, 'default',
                                            None][pick % 4] \
            if pick % 4 else 'x.default'
        return arch, 'malformed connections'
    t, shapes, kw = BAD_SHAPES[pick % len(BAD_SHAPES)]
    for nm, s in shapes.items():
        arch['Input']['out_shapes']['bad_' + nm] = ['T', 'B'] + list(s)
        arch['Input']['@outgoing_connections']['bad_' + nm] = ['bad.' + nm]
    arch['bad'] = dict(kw, **{'@type': t, '@outgoing_connections': {}})
    return arch, '%s with shapes %s %s' % (t, shapes, kw)


def check_bad(spec):
    net = nets.build(spec)
    arch = json.loads(json.dumps(net.architecture))
    from_arch(copy.deepcopy(arch))      # fine as it is
    bad, what = corrupt(arch, spec)
    try:
        bs.Network.from_architecture(bad)
    except Exception:
        return {'kind': 'bad', 'defect': spec['defect']}
    ensure(False, 'accepted an architecture with a defect: %s (%s)', what,
           json.dumps(bad))


LAYER_INPUTS = {t: ['default'] for t in (
    'FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm',
    'Convolution2D', 'Pooling2D', 'BatchNorm', 'Dropout', 'Elementwise',
    'NoOp', 'DeltasScaling', 'L1Decay', 'L2Decay', 'Loss')}
LAYER_INPUTS.update({t: ['default', 'targets'] for t in (
    'SquaredError', 'SoftmaxCE', 'SigmoidCE', 'BinomialCrossEntropy')})
LAYER_INPUTS.update({
    'Mask': ['default', 'mask'], 'Highway': ['H', 'T', 'x'],
    'Merge': ['inputs_1', 'inputs_2'],
    'SquaredDifference': ['inputs_1', 'inputs_2']})
OPTIONS = {'BatchNorm': {'decay', 'epsilon'}, 'Dropout': {'drop_prob'},
           'Elementwise': {'activation'}, 'DeltasScaling': {'factor'},
           'Loss': {'importance'}, 'Convolution2D': {
               'num_filters', 'kernel_size', 'stride', 'padding',
               'activation'},
           'Pooling2D': {'type', 'kernel_size', 'stride', 'padding'}}
for _t in nets.RECURRENT + type(nets.RECURRENT)(['FullyConnected']):
    OPTIONS[_t] = {'size', 'activation'}
ALL_OPTIONS = set().union(*OPTIONS.values())


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def definition(t, srcs, kw, name):
    """(reason to refuse, {output: shape})"""
    if set(kw) - OPTIONS.get(t, set()):
        return 'unknown option', None
    sh = {}
    for n, parts in srcs.items():
        kinds = set(k for k, _ in parts)
        if len(kinds) > 1 or len(set(len(f) for _, f in parts)) > 1 or len(
                set(tuple(f[:-1]) for _, f in parts)) > 1:
            return 'sources of %s do not fit together' % n, None
        sh[n] = (kinds.pop(), tuple(parts[0][1][:-1]) + (
            sum(f[-1] for _, f in parts),))
    if t not in ('Loss', 'Merge') and any(k != 'TB' for k, _ in sh.values()):
        return 'an input does not scale with time', None
    x = sh[LAYER_INPUTS[t][0]][1]
    same = {'default': x}
    if t in nets.RECURRENT or t == 'FullyConnected':
        size = kw.get('size', x if t == 'FullyConnected' else nets.prod(x))
        if is_int(size):
            return None, {'default': (size,)}
        if t == 'FullyConnected' and isinstance(size, (tuple, list)) and all(
                is_int(v) for v in size):
            return None, {'default': tuple(size)}
        return 'size', None
    if t in ('Convolution2D', 'Pooling2D'):
        if 'kernel_size' not in kw or 'type' not in kw and t == 'Pooling2D' \
                or 'num_filters' not in kw and t == 'Convolution2D':
            return 'missing option', None
        k, s = kw['kernel_size'], kw.get('stride', (1, 1))
        p = kw.get('padding', 0)
        if not is_int(p) or p < 0:
            return 'padding', None
        for v in (k, s):
            if not isinstance(v, (tuple, list)) or len(v) != 2 or min(v) < 1:
                return 'kernel or stride', None
        if t == 'Pooling2D' and kw['type'] not in ('max', 'avg'):
            return 'type', None
        if len(x) != 3:
            return 'not an image', None
        o = tuple((a + 2 * p - b) // c + 1 for a, b, c in zip(x, k, s))
        if any(a + 2 * p < b for a, b in zip(x, k)):
            return 'window larger than the image', None
        return None, {'default': o + (kw.get('num_filters', x[2]),)}
    if t == 'BatchNorm' and not 0 <= kw.get('decay', 0.9) <= 1:
        return 'decay', None
    if t == 'DeltasScaling' and 'factor' not in kw:
        return 'missing factor', None
    if t in ('BatchNorm', 'DeltasScaling', 'Dropout', 'Elementwise', 'NoOp'):
        return None, same
    if t in ('L1Decay', 'L2Decay'):
        return None, {'loss': (1,)}
    if t == 'Loss':
        return ('reserved name', None) if name == 'total_loss' else (
            None, {'loss': (1,)})
    if t == 'Mask':
        m = sh['mask'][1]
        ok = m in ((1,), x[:-1] + (1,), x)
        return (None if ok else 'mask', same)
    if t == 'Merge':
        (k1, a), (k2, b) = sh['inputs_1'], sh['inputs_2']
        ok = k1 == k2 and len(a) == len(b) and a[:-1] == b[:-1]
        return (None if ok else 'shapes', {
            'default': a[:-1] + (a[-1] + b[-1],)})
    if t == 'SoftmaxCE':
        g = sh['targets'][1]
        return (None if g == x[:-1] + (1,) else 'targets', {
            'predictions': x, 'loss': g})
    if len(set(v for _, v in sh.values())) > 1:
        return 'shapes', None
    if t in ('SquaredError', 'SigmoidCE'):
        return None, {'predictions': x, 'loss': x}
    if t == 'BinomialCrossEntropy':
        return None, {'default': (1,)}
    return None, same               # Highway, SquaredDifference


def check_layer(spec):
    t, name = spec['t'], spec['name']
    outs, conns = {}, {}
    order = []
    for n in sorted(spec['in']):
        for j, (kind, f) in enumerate(spec['in'][n]):
            o = 'o_%s_%d' % (n, j)
            outs[o] = list(kind) + list(f)
            conns[o] = ['%s.%s' % (name, n)]
            order.append((o, f))
    if nets.prod([len(v) for v in outs.values()]) and not any(
            v[0] == 'T' for v in outs.values()):
        outs['timed'] = ['T', 'B', 1]
    arch = {'Input': {'@type': 'Input', 'out_shapes': outs,
                      '@outgoing_connections': conns},
            name: dict(spec['kw'], **{'@type': t,
                                      '@outgoing_connections': {}})}
    reason, want = definition(t, spec['in'], spec['kw'], name)
    if want and spec['sink']:
        for o in sorted(want):
            arch[name]['@outgoing_connections'][o] = ['sink_%s.default' % o]
            arch['sink_' + o] = {'@type': 'Loss' if o == 'loss' else
                                 'L2Decay', '@outgoing_connections': {}}
        if t in ('Merge', 'Loss') and spec['in'][LAYER_INPUTS[t][0]][0][
                0] != 'TB' or t == 'Loss':
            for o in want:
                arch['sink_' + o]['@type'] = 'Loss'
    lab = {'kind': 'layer', 'layer:' + t: 1, 'refused': reason is not None}
    try:
        net = bs.Network.from_architecture(arch)
    except Exception as e:
        ensure(reason is not None, '%s with inputs %s and options %s is '
               'refused: %s', t, spec['in'], spec['kw'], str(e)[:300])
        return lab
    ensure(reason is None, '%s with inputs %s and options %s is accepted (%s)',
           t, spec['in'], spec['kw'], reason)
    got = {o: tuple(x.feature_shape) for o, x in
           net.layers[name].out_shapes.items()}
    ensure(got == want, '%s with inputs %s and options %s announces outputs '
           '%s instead of %s', t, spec['in'], spec['kw'], got, want)
    return lab


def check_hash(spec):
    mine = [digest(fingerprint(nets.build(s), s)) for s in spec['nets']]
    env = dict(os.environ, PYTHONHASHSEED=str(spec['hashseed']),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    code = ('import sys, json; sys.path.insert(0, %r)\n'
            'from pbt.boot import boot; boot()\n'
            'from pbt import nets\n'
            'from pbt.props.c06 import digest, fingerprint, check_names\n'
            'specs, names = json.load(sys.stdin)\n'
            'for n in names[::-1]: check_names(n)\n'
            'print(json.dumps([digest(fingerprint(nets.build(s), s)) '
            'for s in specs]))\n' % VERIF)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                       input=json.dumps([spec['nets'], spec['names']]),
                       env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, timeout=100)
    ensure(r.returncode == 0, 'building in a process with another hash seed '
           'fails: %s', r.stderr[-800:])
    theirs = json.loads(r.stdout.strip().splitlines()[-1])
    for i, (a, b) in enumerate(zip(mine, theirs)):
        ensure(a == b, 'network %d differs in a process with hash seed %d', i,
               spec['hashseed'])
    return {'kind': 'hash'}


def check(spec):
    return {'same': check_same, 'bad': check_bad, 'names': check_names,
            'hash': check_hash, 'layer': check_layer}[spec['kind']](spec)


def nontrivial(spec, labels):
    return labels['kind'] in ('bad', 'hash', 'layer') or labels.get('layers', 0) > 1 \
        or labels.get('equal', False)
