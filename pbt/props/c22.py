"""C22: networks built from a short specification equal hand-built ones."""
import json

import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from pbt import nets
from pbt.core import Violation, ensure
from brainstorm import layers as L
from brainstorm import tools
from brainstorm.handlers import NumpyHandler

ID = 'C22'
QUICK, THOROUGH = 4000, 60000
RULE = ('Random layer sequences, rendered as specification strings with '
        'random white space, option order and number formats, random task '
        'types, input and output shapes, names and masks. The network is '
        'compared with one built by hand with the wiring API: layers, '
        'options and connections of the architecture, and, under the same '
        'parameters, outputs, losses and gradients on random data. The '
        'initialisation must lie within the range of the documented '
        'initialiser, and its spread must match for larger arrays. Strings '
        'with one documented rule broken (unknown layer, activation, option '
        'or text, missing, wrong or superfluous arguments, unknown task) must '
        'be refused. Non-trivial: at least two layers, or a malformed '
        'string.')
ASSUMPTIONS = ['out_shape of one dimension, of three dimensions after an '
               'image, or any number with use_conv=False',
               'drop probabilities are written with a decimal point']

ACTS = {'': None, 'l': 'linear', 'r': 'rel', 's': 'sigmoid', 't': 'tanh'}
TASKS = {'classification': 'SoftmaxCE', 'multi-label': 'SigmoidCE',
         'regression': 'SquaredError'}


@st.composite
def layer(draw, shape):
    """One layer that fits the shape."""
    kinds = ['F', 'F', 'R', 'L', 'B', 'D']
    if len(shape) == 3:
        kinds += ['C'] * 4 + ['P'] * 3
    k = draw(st.sampled_from(kinds))
    l = {'k': k, 'act': draw(st.sampled_from(sorted(ACTS))), 'args': []}
    if k in 'FRL':
        l['size'] = draw(st.sampled_from([1, 2, 3, 4, 7, 10, 12]))
        return l, (l['size'],)
    if k == 'B':
        return l, shape
    if k == 'D':
        l['p'] = draw(st.sampled_from([None, '.2', '0.5', '0.25', '.125',
                                       '0.0', '.75']))
        return l, shape
    l['k2'] = draw(st.integers(1, 4))
    pad = draw(st.sampled_from([None, None, 0, 1, 2]))
    stride = draw(st.sampled_from([None, None, 1, 2, 3]))
    l['opts'] = [x for x in draw(st.permutations(
        [['p', pad], ['s', stride]])) if x[1] is not None]
    p, s = pad or 0, stride or 1
    out = [(d + 2 * p - l['k2']) // s + 1 for d in shape[:2]]
    if k == 'C':
        l['filters'] = draw(st.integers(1, 12))
        c = l['filters']
    else:
        l['pool'] = draw(st.sampled_from(['', 'm', 'a']))
        c = shape[2]
    if min(d + 2 * p - l['k2'] for d in shape[:2]) < 0:
        l['k2'] = 1
        out = [(d + 2 * p - 1) // s + 1 for d in shape[:2]]
    return l, (out[0], out[1], c)


@st.composite
def case(draw):
    image = draw(st.booleans())
    shape = [draw(st.integers(3, 7)), draw(st.integers(3, 7)),
             draw(st.integers(1, 3))] if image else draw(
        st.lists(st.integers(1, 5), min_size=1, max_size=2))
    cur, ls = tuple(shape), []
    for _ in range(draw(st.integers(0, 5))):
        l, cur = draw(layer(cur))
        ls.append(l)
    use_conv = None
    if len(cur) == 3 and draw(st.booleans()):
        out = [cur[0], cur[1], draw(st.integers(1, 3))]
        use_conv = draw(st.sampled_from([None, True, False]))
    elif draw(st.integers(0, 4)) == 0:
        out = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
        use_conv = False
    else:
        out = [draw(st.integers(1, 6))]
        use_conv = draw(st.sampled_from([None, False]))
    return {'shape': shape, 'layers': ls, 'out': out, 'use_conv': use_conv,
            'int_in': draw(st.booleans()), 'int_out': draw(st.booleans()),
            'task': draw(st.sampled_from(sorted(TASKS))),
            'mask': draw(st.sampled_from([None, 'mask', 'm2'])),
            'names': draw(st.sampled_from([None, ['x', 'y']])),
            'space': draw(st.lists(st.sampled_from(['', '', ' ', '  ', '\t',
                                                    '\n']), min_size=1,
                                   max_size=7)),
            'inner': draw(st.integers(0, 3)) == 0,
            'helper': draw(st.sampled_from([None, None, None, ['Out', None],
                                            [None, 'FC'], ['Out', 'FC']])),
            'wide': draw(st.integers(0, 9)) == 0,
            'broken': draw(st.sampled_from([None] * 7 + [1, 2])),
            'how': draw(st.integers(0, 99)), 'where': draw(st.integers(0, 9)),
            'T': draw(st.integers(1, 3)), 'B': draw(st.integers(1, 3)),
            'seed': draw(st.integers(0, 99999))}


def strategy():
    return case()


def render(l):
    """Tokens of one layer."""
    k = l['k']
    if k in 'FRL':
        return [k, l['act'], str(l['size'])]
    if k == 'B':
        return [k]
    if k == 'D':
        return [k, l['p'] or '']
    t = [k, l['act'], str(l['filters']), ':', str(l['k2'])] if k == 'C' \
        else [k, l['pool'], str(l['k2'])]
    for n, v in l['opts']:
        t += [n, str(v)]
    return t


def join(tokens, s):
    out, i = '', 0
    for t in tokens:
        for ch in (t if s['inner'] else [t]):
            if ch:
                out += s['space'][i % len(s['space'])] + ch
                i += 1
    return out


def breakages(ls, i):
    """Lists of tokens that break the specification after layer i."""
    F, D, C, P = ['F', '5'], ['D'], ['C', '3', ':', '1'], ['P', '1']
    bad = [['X', '5'], ['Q'], ['E'], ['f', '5'], ['F', 'F', '5'], ['F'],
           ['F', 'r'], ['R'], ['L', 's'], ['F', 'x', '5'], ['L', 'z', '3'],
           ['R', 'q', '3'], ['F', '5', 'r'], ['F', '5.5'], ['R', '.5'],
           ['F', '0'], ['L', '0'], ['F', '5', ':', '3'], ['F', '5', 'p', '1'],
           ['R', '5', 's', '2'], ['B', '3'], ['B', 'r'], ['D', '1.5'],
           ['D', '.2', ':', '.3'], ['D', 'r'], ['D', 's', '.2'],
           ['F', '5', '?'], ['F', '5', ',', 'D'], ['F', '5', '-'],
           ['F', '5', ';'], ['(', 'F', '5', ')'], ['F', '-', '5'],
           ['F', '5', '+', 'D'], ['#'], ['F', '=', '5'], ['\u00e4']]
    if i == 0:      # arguments without a layer
        bad += [['5'], ['r'], ['.5'], ['5', 'F', '5'], ['r', 'F', '5'],
                [':'], ['x'], ['5', ':', '3'], ['-', '1'], ['1', '2', 'D']]
    shape = ls[i]
    if len(shape) == 3:
        bad += [['C', '3'], ['C'], ['C', ':', '3'], ['C', 'r', '3'],
                ['C', 'x', '3', ':', '1'], ['C', '3', ':', '1', 'q', '2'],
                ['C', '3', ':', '1', 'p'], ['C', '3', ':', '1', 's'],
                ['C', '3', ':', '1', 's', '0'], ['C', '3', ':', '.5'],
                ['C', '0', ':', '1'], ['C', '3', ':', '0'],
                ['C', '3', ':', '1', ':', '2'], ['C', '3', ':', '99'],
                ['P'], ['P', 'x', '1'], ['P', 'm'], ['P', '1', 'm'],
                ['P', '1', 'q', '2'], ['P', '1', 'p'], ['P', '0'],
                ['P', '1', 's', '0'], ['P', '.5'], ['P', '1', ':', '2'],
                ['P', '99'], ['P', 'r', '1'], ['C', '3', ':', '1', 'p', '.5'],
                ['C', 'm', '3', ':', '1']]
    else:
        bad += [['C', '3', ':', '1'], ['P', '1']]
    return bad


def shapes_of(s):
    cur, res = tuple(s['shape']), []
    res.append(cur)
    for l in s['layers']:
        if l['k'] in 'FRL':
            cur = (l['size'],)
        elif l['k'] in 'CP':
            o = dict(map(tuple, l['opts']))
            out = [(d + 2 * o.get('p', 0) - l['k2']) // o.get('s', 1) + 1
                   for d in cur[:2]]
            cur = (out[0], out[1], l['filters'] if l['k'] == 'C' else cur[2])
        res.append(cur)
    return res


def by_hand(s, names, outname, projname):
    """The same network with the wiring API."""
    data, targets = names
    out = tuple(s['out'])
    t = out[:-1] + (1,) if s['task'] == 'classification' else out
    shapes = {data: ('T', 'B') + tuple(s['shape']),
              targets: ('T', 'B') + t}
    if s['mask']:
        shapes[s['mask']] = ('T', 'B', 1)
    inp = L.Input(out_shapes=shapes)
    cur, chain = inp - data, []
    for n, l in enumerate(s['layers']):
        act = ACTS[l['act']]
        name = 'layer%d' % n
        if l['k'] == 'F':
            x = L.FullyConnected(l['size'], activation=act or 'rel',
                                 name=name)
        elif l['k'] == 'R':
            x = L.Recurrent(l['size'], activation=act or 'tanh', name=name)
        elif l['k'] == 'L':
            x = L.Lstm(l['size'], activation=act or 'tanh', name=name)
        elif l['k'] == 'B':
            x = L.BatchNorm(name=name)
        elif l['k'] == 'D':
            x = L.Dropout(0.5 if l['p'] is None else float(l['p']), name=name)
        else:
            o = dict(map(tuple, l['opts']))
            kw = {'stride': (o.get('s', 1),) * 2, 'padding': o.get('p', 0),
                  'name': name}
            if l['k'] == 'C':
                x = L.Convolution2D(l['filters'], (l['k2'], l['k2']),
                                    activation=act or 'rel', **kw)
            else:
                x = L.Pooling2D((l['k2'], l['k2']), type={
                    '': 'max', 'm': 'max', 'a': 'avg'}[l['pool']], **kw)
        chain.append(name)
        cur = cur >> x
    if len(out) == 1 or s['use_conv'] is False:
        proj = L.FullyConnected(out, activation='linear', name=projname)
    else:
        proj = L.Convolution2D(out[-1], (1, 1), activation='linear',
                               name=projname)
    head = getattr(L, TASKS[s['task']])(name=outname)
    cur >> proj >> 'default' - head
    inp - targets >> 'targets' - head
    loss = L.Loss(name='theloss')
    chain += [projname, outname]
    if s['mask']:
        m = L.Mask(name='themask')
        head - 'loss' >> m >> loss
        inp - s['mask'] >> 'mask' - m
        chain.append('themask')
    else:
        head - 'loss' >> loss
    return bs.Network.from_layer(inp), chain + ['theloss']


def follow(net, start):
    """Names along the chain of layers that starts at an input."""
    arch = net.architecture
    names, todo = [], list(
        arch['Input']['@outgoing_connections'][start])
    while todo:
        ensure(len(todo) == 1, 'unexpected connections %s', todo)
        name = todo[0].split('.')[0]
        ensure(name not in names, 'cycle at %s', name)
        names.append(name)
        conns = arch[name]['@outgoing_connections']
        todo = [t for v in conns.values() for t in v] if isinstance(
            conns, dict) else list(conns)
    return names


def canonical(arch, names):
    """Architecture with layers renamed; JSON compatible."""
    new = {n: 'n%d' % i for i, n in enumerate(names)}
    new['Input'] = 'Input'
    res = {}
    for n, d in arch.items():
        d = dict(d)
        conns = {k: sorted(new[t.split('.')[0]] + '.' +
                           '.'.join(t.split('.')[1:]) for t in v)
                 for k, v in d.pop('@outgoing_connections').items()}
        d['connections'] = conns
        d['@type'] = str(d['@type'])
        res[new[n]] = d
    return json.loads(json.dumps(res, sort_keys=True))


def init_range(net, name, what):
    """Documented initialisation of one array: (kind, value)."""
    layer = net.architecture[name]
    shape = net.buffer[name].parameters[what].shape
    act = layer.get('activation')
    if act is None or len(shape) < 2:
        return 'gaussian', 0.1
    scale = {'rel': 12 ** .5, 'tanh': 6 ** .5, 'sigmoid': 4 * 6 ** .5,
             'linear': 1.0}[act]
    return 'uniform', scale / (shape[0] + np.prod(shape[1:])) ** .5


def check_init(net):
    for name in net.architecture:
        if name not in net.buffer or 'parameters' not in net.buffer[name]:
            continue
        for what in net.buffer[name].parameters.keys():
            v = np.array(net.buffer[name].parameters[what], np.float64)
            kind, x = init_range(net, name, what)
            if kind == 'uniform':
                ensure(np.abs(v).max() <= x * (1 + 1e-5), '%s of %s: '
                       'initial value %s outside of +-%s', what, name,
                       np.abs(v).max(), x)
                std = x / 3 ** .5
                rel = 7 * (0.8 / v.size) ** .5 / 2
            else:
                std, rel = x, 7 / (2 * v.size) ** .5
                ensure(np.abs(v).max() <= 7.5 * std, '%s of %s: initial '
                       'value %s for a Gaussian of %s', what, name,
                       np.abs(v).max(), std)
            if v.size >= 200:
                ensure(abs(v.std() / std - 1) < rel and
                       abs(v.mean()) < 7 * std / v.size ** .5,
                       '%s of %s: initial values with mean %s and deviation '
                       '%s instead of %s', what, name, v.mean(), v.std(), std)
            if v.size > 1:
                ensure(len(np.unique(v)) > 1, '%s of %s is constant', what,
                       name)


def check(s):
    s = json.loads(json.dumps(s))
    names = s['names'] or ['default', 'targets']
    kw = {}
    if s['names']:
        kw.update(data_name=names[0], targets_name=names[1])
    if s['mask']:
        kw['mask_name'] = s['mask']
    if s['use_conv'] is not None:
        kw['use_conv'] = s['use_conv']
    if s['wide'] and s['layers'] and s['broken'] is None:
        # larger layers, to see the spread of initial values
        for l in s['layers']:
            if l['k'] in 'FRL':
                l['size'] *= 12
            if l['k'] == 'C':
                l['filters'] *= 12
    tokens = [render(l) for l in s['layers']]
    shape = s['shape'][0] if len(s['shape']) == 1 and s['int_in'] else \
        tuple(s['shape'])
    out = s['out'][0] if len(s['out']) == 1 and s['int_out'] else \
        tuple(s['out'])
    labels = {'layers': len(tokens), 'task': s['task'],
              'mask': s['mask'] is not None, 'broken': False,
              'out_dims': len(s['out'])}
    if s['broken']:
        labels['broken'] = True
        return check_broken(s, tokens, shape, out, kw, labels)
    text = join([t for l in tokens for t in l], s)
    what = '%r (%s, in %s, out %s)' % (text, s['task'], shape, out)
    outname, projname = 'Output', 'Output_projection'
    if s['helper'] and not s['layers']:
        labels['helper'] = True
        o, p = s['helper']
        a = dict(kw)
        if o:
            a['outlayer_name'] = outname = o
            projname = o + '_projection'
        if p:
            a['projection_name'] = projname = p
        inp, outp = tools.get_in_out_layers(s['task'], shape, out, **a)
        inp - names[0] >> outp
        net = bs.Network.from_layer(inp)
    else:
        net = build_from(s['task'], shape, out, text, names[0], kw)
        ensure(net.output_name == 'Output.outputs.predictions',
               'output_name is %r', net.output_name)
        check_init(net)
    hand, chain = by_hand(s, names, outname, projname)
    mine = follow(net, names[0])
    ensure(len(mine) == len(chain), '%s: layers %s', what, mine)
    ensure(outname in mine and projname in mine, '%s: names %s', what, mine)
    a, b = canonical(net.architecture, mine), canonical(hand.architecture,
                                                        chain)
    ensure(a == b, '%s gives\n%s\ninstead of\n%s', what,
           {k: v for k, v in a.items() if b.get(k) != v},
           {k: v for k, v in b.items() if a.get(k) != v})
    behave(s, net, hand, dict(zip(mine, chain)), names, what)
    return labels


def build_from(task, shape, out, text, data_name, kw):
    return tools.create_net_from_spec(task, shape, out, text, **kw)


def behave(s, net, hand, rename, names, what):
    """Same results under the same parameters."""
    rs = np.random.RandomState(s['seed'])
    for n in (net, hand):
        n.set_handler(NumpyHandler(np.float64))
    vals = {}
    for mine, other in rename.items():
        if 'parameters' not in hand.buffer[other]:
            continue
        for p in sorted(hand.buffer[other].parameters.keys()):
            v = rs.normal(size=hand.buffer[other].parameters[p].shape) * .4
            if p == 'sigma':
                v = np.abs(v) + 0.5
            hand.buffer[other].parameters[p][...] = v
            net.buffer[mine].parameters[p][...] = v
    T, B = s['T'], s['B']
    out = tuple(s['out'])
    if s['task'] == 'classification':
        t = rs.randint(0, out[-1], size=(T, B) + out[:-1] + (1,)) * 1.0
    elif s['task'] == 'multi-label':
        t = rs.randint(0, 2, size=(T, B) + out) * 1.0
    else:
        t = rs.normal(size=(T, B) + out)
    data = {names[0]: rs.normal(size=(T, B) + tuple(s['shape'])),
            names[1]: t}
    if s['mask']:
        data[s['mask']] = (rs.rand(T, B, 1) < 0.6) * 1.0
    res = []
    outname = [a for a, b in rename.items() if a == b][-1]
    for n in (net, hand):
        n.provide_external_data({k: v.copy() for k, v in data.items()})
        n.forward_pass()
        pred = n.get(outname + '.outputs.predictions').copy()
        losses = list(n.get_loss_values().values())[-1]
        drop = any(l['k'] == 'D' and l['p'] != '0.0' for l in s['layers'])
        if not drop:
            n.forward_pass(training_pass=True)
            n.backward_pass()
            names_ = rename if n is net else {v: v for v in rename.values()}
            g = np.concatenate([np.asarray(n.buffer[m].gradients[p]).ravel()
                                for m in names_
                                if 'gradients' in n.buffer[m]
                                for p in sorted(
                                    n.buffer[m].gradients.keys())])
            res.append((pred, losses, g))
        else:
            res.append((pred, losses, None))
    ensure(nets.close(res[0][0], res[1][0], 1e-9, 1e-12),
           '%s: predictions differ from the hand-built network', what)
    ensure(nets.close(res[0][1], res[1][1], 1e-9, 1e-12),
           '%s: loss %s, of the hand-built network %s', what, res[0][1],
           res[1][1])
    if res[0][2] is not None:
        ensure(nets.close(res[0][2], res[1][2], 1e-9, 1e-12),
               '%s: gradients differ from the hand-built network', what)


def check_broken(s, tokens, shape, out, kw, labels):
    i = s['where'] % (len(tokens) + 1)
    text = None
    task = s['task']
    if s['how'] % 25 == 0:
        task = ['clasification', 'regresion', '', 'multilabel',
                'Classification'][s['where'] % 5]
        text = join([t for l in tokens for t in l], s)
    else:
        shapes = shapes_of(s)
        bad = breakages(shapes, i)
        b = bad[s['how'] * 7 % len(bad)]
        text = join([t for l in tokens[:i] + [b] for t in l], s)
        if len(s['out']) == 3 and s['use_conv'] is not False:
            out = (1,)
    try:
        tools.create_net_from_spec(task, shape, out, text, **kw)
    except Exception:
        return labels
    raise Violation('the malformed specification %r (task %r) was accepted' %
                    (text, task))


def nontrivial(s, labels):
    return labels['layers'] > 1 or labels['broken']
