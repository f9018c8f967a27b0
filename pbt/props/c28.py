"""C28: user-defined layers get what they declare."""
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation, ensure
import brainstorm as bs
from brainstorm import layers as L
from brainstorm.handlers import NumpyHandler
from brainstorm.layers.base_layer import Layer
from brainstorm.structure.buffer_structure import (BufferStructure,
                                                   StructureTemplate)
from brainstorm.structure.construction import ConstructionWrapper
from brainstorm.utils import ValidationError

ID = 'C28'
QUICK, THOROUGH = 5000, 80000
RULE = ('Layer classes defined by the check, whose outputs, parameters and '
        'internal buffers are drawn at random (constant, per item, per time '
        'step, several dimensions, context rows, backward-only), wired into '
        'random graphs, also through parameters and internals of other '
        'layers. The buffers handed to the layers are compared with the '
        'declaration for several time and batch sizes, marked and read back, '
        'the calls of a forward and a backward pass are recorded, and wrong '
        'declarations and wirings must be refused. Non-trivial: at least two '
        'kinds of buffer and two custom layers, or a refusal.')
ASSUMPTIONS = ['sources wired to one input have the same kind of buffer and '
               'one feature dimension', 'buffers that feed one input have the '
               'same number of context rows (other cases: known finding)']

CALLS = []


class _Base(Layer):
    expected_kwargs = {'outs', 'params', 'interns', 'extra'}

    def setup(self, kwargs, in_shapes):
        def struct(ds):
            res = OrderedDict()
            for d in ds:
                kw = {}
                if d.get('ctx'):
                    kw['context_size'] = d['ctx']
                if d.get('back'):
                    kw['is_backward_only'] = True
                res[d['name']] = BufferStructure(*d['shape'], **kw)
            return res
        return (struct(kwargs.get('outs', [])), struct(kwargs.get(
            'params', [])), struct(kwargs.get('interns', [])))

    def forward_pass(self, buffers, training_pass=True):
        CALLS.append(('forward', self.name, buffers, training_pass, {}))

    def backward_pass(self, buffers):
        CALLS.append(('backward', self.name, buffers, None, {
            (c, k): np.array(v) for c in
            ('output_deltas', 'input_deltas', 'gradients', 'internals')
            for k, v in buffers[c].items()}))


class PbtOneLayerImpl(_Base):
    expected_inputs = {'default': StructureTemplate('T', 'B', '...')}


class PbtTwoLayerImpl(_Base):
    expected_inputs = {'zeta': StructureTemplate('T', 'B', '...'),
                       'alpha': StructureTemplate('B', 'F')}


class PbtItemLayerImpl(_Base):
    expected_inputs = {'default': StructureTemplate('B', '...')}


class PbtConstLayerImpl(_Base):
    expected_inputs = {'default': StructureTemplate('...')}


class PbtExactLayerImpl(_Base):
    expected_inputs = {'default': StructureTemplate('T', 'B', 3),
                       'more': StructureTemplate('T', 'B', 'F', 'F')}


class PbtNothingLayerImpl(_Base):
    expected_inputs = {}


class PbtExtraLayerImpl(PbtOneLayerImpl):
    """Inherits from another layer."""
    expected_kwargs = {'outs', 'params', 'interns', 'option'}


CLASSES = {'PbtOne': PbtOneLayerImpl, 'PbtTwo': PbtTwoLayerImpl,
           'PbtItem': PbtItemLayerImpl, 'PbtConst': PbtConstLayerImpl,
           'PbtExact': PbtExactLayerImpl, 'PbtNothing': PbtNothingLayerImpl,
           'PbtExtra': PbtExtraLayerImpl}
TEMPLATES = {k: {i: t.shape for i, t in c.expected_inputs.items()}
             for k, c in CLASSES.items()}
KINDS = {'T': ['T', 'B'], 'B': ['B'], 'C': []}


def kind_of(shape):
    return 'T' if 'T' in shape else 'B' if 'B' in shape else 'C'


def matches(template, shape):
    """Own reading of the templates."""
    t, s = list(template), list(shape)
    if '...' in t:
        head = t[:t.index('...')]
        return len(s) > len(head) and s[:len(head)] == head and all(
            isinstance(x, int) for x in s[len(head):])
    return len(t) == len(s) and all(
        a == b or (a == 'F' and isinstance(b, int)) for a, b in zip(t, s))


FEATURES = st.lists(st.integers(1, 4), min_size=1, max_size=3)


@st.composite
def buffers(draw, names, kinds, ctx=False, back=False, max_size=3):
    res = []
    for n in draw(st.lists(st.sampled_from(names), max_size=max_size,
                           unique=True)):
        k = draw(st.sampled_from(kinds))
        d = {'name': n, 'shape': KINDS[k] + draw(FEATURES)}
        if draw(st.booleans()):
            d['shape'] = d['shape'][:len(KINDS[k]) + 1]
        if ctx and k == 'T' and draw(st.booleans()):
            d['ctx'] = draw(st.integers(1, 3))
        if back and draw(st.integers(0, 2)) == 0:
            d['back'] = True
        res.append(d)
    return res


@st.composite
def structures(draw):
    """A template and a shape, mostly well-formed and related."""
    k = draw(st.sampled_from('TTBC'))
    feats = draw(FEATURES)
    templ = KINDS[k] + draw(st.sampled_from([
        ['...'], feats, ['F'] * len(feats), ['F']]))
    shape = KINDS[draw(st.sampled_from([k, k, k, 'T', 'B', 'C']))] + list(
        feats)
    if draw(st.integers(0, 7)) == 0:
        # as many dimensions of another kind
        n = len(shape) - len(KINDS[k])
        if n > 0:
            templ = KINDS[k] + draw(st.sampled_from([['F'], [2], [1]])) * n
    for x in (templ, shape):
        how = draw(st.integers(0, 9))
        i = draw(st.integers(0, len(x) - 1))
        if how == 0:
            x.pop(i)
        elif how == 1:
            x.insert(i, draw(st.sampled_from(['T', 'B', 1, 2, 2.5, 'F',
                                              '...', 'X'])))
        elif how == 2:
            x[i] = draw(st.sampled_from(['T', 'B', 1, 2, 'F', '...']))
    return {'template': templ, 'shape': shape, 'layers': [], 'bad': None,
            'ctx': draw(st.sampled_from([0, 0, 0, 1, 2, -1, 1.5])),
            'T': draw(st.integers(1, 3)), 'B': draw(st.integers(1, 3))}


def well_formed(x, features):
    """Own reading of which shapes are allowed."""
    head = ['T', 'B'] if 'T' in x else ['B'] if 'B' in x else []
    return len(x) > len(head) and list(x[:len(head)]) == head and \
        features(x[len(head):])


def all_int(f):
    return all(isinstance(v, int) for v in f)


def check_structures(s):
    templ, shape, ctx = s['template'], s['shape'], s['ctx']
    timed = 'T' in shape
    ok_ctx = isinstance(ctx, int) and ctx >= 0 and (timed or not ctx)
    ok_s = well_formed(shape, all_int) and ok_ctx
    ok_t = well_formed(templ, lambda f: f == ['...'] or all_int(f) or
                       all(v == 'F' for v in f))
    made = []
    for cls, x, ok, kw in ((BufferStructure, shape, ok_s,
                            {'context_size': ctx}),
                           (StructureTemplate, templ, ok_t, {})):
        if not x or x == KINDS[kind_of(x)]:     # no features: not prescribed
            if cls is StructureTemplate:
                return {'bad': None, 'layers': 0, 'kinds': 0, 'grey': True}
        try:
            made.append(cls(*x, **kw))
            ensure(ok, '%s%s is accepted (%s)', cls.__name__, tuple(x), kw)
        except ValidationError:
            ensure(not ok, '%s%s is refused (%s)', cls.__name__, tuple(x), kw)
    if not (ok_s and ok_t):
        return {'bad': 'structure', 'layers': 0, 'kinds': 0}
    b, t = made
    if templ != ['...']:
        ensure(t.matches(b) == matches(templ, shape), 'template %s %s %s',
               templ, 'matches' if t.matches(b) else 'does not match', shape)
    head = KINDS[kind_of(shape)]
    ensure(tuple(b.get_shape(s['T'], s['B'])) == full_shape(
        {'shape': shape, 'ctx': ctx}, s['T'], s['B']), 'get_shape of %s',
        shape)
    f = tuple(shape[len(head):])
    ensure((b.scales_with_time, b.scales_with_batch_size, b.buffer_type,
            tuple(b.scaling_shape), tuple(b.feature_shape), b.feature_size) ==
           ('T' in head, 'B' in head, len(head), tuple(head), f,
            int(np.prod(f))), 'attributes of the structure %s', shape)
    again = BufferStructure.from_layout(b.to_json(3))
    ensure(again == b and again.context_size == b.context_size and
           again.is_backward_only == b.is_backward_only, 'structure %s '
           'changes on its way through a layout', shape)
    return {'bad': None, 'layers': 2, 'kinds': 2, 'structures': True}


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 7)) == 7:
        return draw(structures())
    inputs = [{'name': 'default', 'shape': ['T', 'B'] + draw(FEATURES)}]
    for n in draw(st.lists(st.sampled_from(['a', 'b']), unique=True)):
        inputs.append({'name': n, 'shape': ['T', 'B', draw(
            st.sampled_from([3, 2, 1]))] + draw(st.sampled_from([[], [2]]))})
    # available sources: (layer, source name, shape)
    avail = [('Input', d['name'], d['shape']) for d in inputs]
    layers = []
    groups = []
    for k in range(draw(st.integers(1, 5))):
        t = draw(st.sampled_from(sorted(CLASSES)))
        ins, ok = {}, True
        for i, templ in sorted(TEMPLATES[t].items()):
            fit = [a for a in avail if matches(templ, a[2])]
            if not fit:
                ok = False
                break
            a = fit[draw(st.integers(0, len(fit) - 1))]
            srcs = [a[:2]]
            if len(a[2]) == len(KINDS[kind_of(a[2])]) + 1 and \
                    draw(st.integers(0, 3)) == 0:
                others = [b for b in avail if len(b[2]) == len(a[2]) and
                          kind_of(b[2]) == kind_of(a[2]) and b != a and
                          not b[1].startswith('..')]
                if others and not a[1].startswith('..') and \
                        '...' in templ:
                    b = others[draw(st.integers(0, len(others) - 1))]
                    used = set(s for g in groups for s in g)
                    if not ({a[:2], b[:2]} & used):
                        srcs.append(b[:2])
                        groups.append(srcs)
            ins[i] = [list(s) for s in srcs]
        if not ok:
            t, ins = 'PbtNothing', {}
        n = '%s%d' % (draw(st.sampled_from('zam')), k)
        outs = draw(buffers(['default', 'p', 'q'], 'TTTBC', ctx=True))
        params = draw(buffers(['W', 'bias', 'A', 'z'], 'C'))
        interns = draw(buffers(['Ha', 'g', 'dim', 'u', 'v'], 'TTBC', ctx=True,
                               back=True, max_size=4))
        for d in list(interns):
            if not d.get('back') and draw(st.booleans()):
                interns.append({'name': 'd' + d['name'], 'shape': d['shape'],
                                'back': True})
                if d.get('ctx'):
                    interns[-1]['ctx'] = d['ctx']
        layers.append({'n': n, 't': t, 'in': ins, 'outs': outs,
                       'params': params, 'interns': interns})
        avail += [(n, d['name'], d['shape']) for d in outs]
        if draw(st.booleans()):
            avail += [(n, '..parameters.' + d['name'], d['shape'])
                      for d in params]
            names = [d['name'] for d in interns]
            avail += [(n, '..internals.' + d['name'], d['shape'])
                      for d in interns if 'd' + d['name'] in names and
                      not d.get('back')]
    bad = None
    if draw(st.integers(0, 5)) == 0:
        bad = draw(st.sampled_from(BAD))
    return {'inputs': inputs, 'layers': layers, 'bad': bad,
            'which': draw(st.integers(0, 9)),
            'sizes': draw(st.lists(st.tuples(
                st.integers(1, 4), st.integers(1, 3)), min_size=1,
                max_size=3)),
            'training': draw(st.booleans())}


BAD = ['kwarg', 'inherited-kwarg', 'no-such-output', 'no-such-param',
       'no-such-internal', 'no-such-input', 'missing-input', 'input-category',
       'template', 'no-delta-buffer', 'shape-TB', 'shape-B', 'no-feature',
       'empty', 'float-feature', 'neg-context', 'const-context']


def strategy():
    return strategy_()


def kwargs_of(l):
    kw = {}
    for key in ('outs', 'params', 'interns'):
        if l[key]:
            kw[key] = l[key]
    return kw


def build(spec):
    """Wire by operators, in the order of the list."""
    made = {'Input': L.Input(out_shapes=OrderedDict(
        (d['name'], tuple(d['shape'])) for d in spec['inputs']))}
    last = made['Input']
    for l in spec['layers']:
        w = ConstructionWrapper.create(CLASSES[l['t']], name=l['n'],
                                       **kwargs_of(l))
        made[l['n']] = w
        for i, srcs in sorted(l['in'].items()):
            for s, o in srcs:
                (made[s] - o) >> (i - w)
    loose = [n for n in made if n != 'Input' and not connected(spec, n)]
    return made, last, loose


def connected(spec, name):
    """Is the layer linked to Input by any chain of connections?"""
    reach = {'Input'}
    grew = True
    while grew:
        grew = False
        for l in spec['layers']:
            ends = {l['n']} | {s[0] for ss in l['in'].values() for s in ss}
            if ends & reach and not ends <= reach:
                reach |= ends
                grew = True
    return name in reach


def architecture(spec):
    arch = {'Input': {'@type': 'Input', 'out_shapes': {
        d['name']: tuple(d['shape']) for d in spec['inputs']},
        '@outgoing_connections': {}}}
    for l in spec['layers']:
        arch[l['n']] = dict(kwargs_of(l), **{'@type': l['t'],
                                             '@outgoing_connections': {}})
    for l in spec['layers']:
        for i, srcs in sorted(l['in'].items()):
            for s, o in srcs:
                arch[s]['@outgoing_connections'].setdefault(o, []).append(
                    '%s.%s' % (l['n'], i))
    return arch


def spoil(spec, arch):
    """Make the architecture wrong; False if that is not possible here."""
    ls = spec['layers']
    l = ls[spec['which'] % len(ls)]
    a, bad = arch[l['n']], spec['bad']
    if bad == 'kwarg':
        a['unknown'] = 1
    elif bad == 'inherited-kwarg':
        if l['t'] != 'PbtExtra':
            return False
        a['extra'] = 1      # only known to the parent class
    elif bad in ('no-such-output', 'no-such-param', 'no-such-internal',
                 'input-category', 'no-such-input', 'template',
                 'no-delta-buffer'):
        sink = 'sink0'
        arch[sink] = {'@type': 'PbtConst', '@outgoing_connections': {}}
        src = {'no-such-output': 'nope', 'no-such-param': '..parameters.nope',
               'no-such-internal': '..internals.nope',
               'input-category': '..inputs.default'}.get(bad)
        to = sink + '.default'
        if bad == 'input-category' and l['t'] not in ('PbtOne', 'PbtExtra',
                                                      'PbtItem', 'PbtConst'):
            return False
        if bad == 'no-such-input':
            if not l['outs']:
                return False
            src, to = l['outs'][0]['name'], sink + '.nope'
        if bad == 'template':
            wrong = [d for d in l['outs'] if kind_of(d['shape']) == 'T']
            if not wrong:
                return False
            src = wrong[0]['name']
            arch[sink]['@type'] = 'PbtItem'
        if bad == 'no-delta-buffer':
            names = [d['name'] for d in l['interns']]
            free = [d for d in l['interns'] if 'd' + d['name'] not in names
                    and kind_of(d['shape']) == 'C' and not d.get('back')]
            if not free:
                return False
            src = '..internals.' + free[0]['name']
        a['@outgoing_connections'].setdefault(src, []).append(to)
    elif bad == 'missing-input':
        if not l['in']:
            return False
        i = sorted(l['in'])[0]
        for v in arch.values():
            c = v['@outgoing_connections']
            for o in list(c):
                c[o] = [e for e in c[o] if e != '%s.%s' % (l['n'], i)]
                if not c[o]:
                    del c[o]
    else:
        d = {'shape-TB': {'shape': ['T', 2, 3]},
             'shape-B': {'shape': [2, 'B', 3]},
             'no-feature': {'shape': ['T', 'B']},
             'empty': {'shape': []},
             'float-feature': {'shape': ['T', 'B', 2.5]},
             'neg-context': {'shape': ['T', 'B', 2], 'ctx': -1},
             'const-context': {'shape': ['B', 2], 'ctx': 1}}[bad]
        key = ['outs', 'interns'][spec['which'] % 2]
        a[key] = list(a.get(key, [])) + [dict(d, name='wrong')]
    return True


def full_shape(d, T, B):
    dims = {'T': T + d.get('ctx', 0), 'B': B}
    return tuple(dims.get(x, x) for x in d['shape'])


def decls(l):
    """All arrays of the layer that are no inputs: (category, name) -> d."""
    res = {}
    for d in l['outs']:
        res['outputs', d['name']] = d
        res['output_deltas', d['name']] = d
    for d in l['params']:
        res['parameters', d['name']] = d
        res['gradients', d['name']] = d
    for d in l['interns']:
        res['internals', d['name']] = d
    return res


def source_array(net, src, delta):
    n, o = src
    if o.startswith('..'):
        _, _, rest = o.partition('..')
        cat, _, name = rest.partition('.')
        if delta:
            if cat == 'parameters':
                cat = 'gradients'
            else:
                name = 'd' + name
        return net.buffer[n][cat][name]
    return net.buffer[n]['output_deltas' if delta else 'outputs'][o]


def check_buffers(net, spec, T, B):
    counter = 1.0
    marks = {}
    all_layers = [{'n': 'Input', 't': 'Input', 'in': {}, 'params': [],
                   'interns': [], 'outs': spec['inputs']}] + spec['layers']
    for l in all_layers:
        v = net.buffer[l['n']]
        ds = decls(l)
        for cat in ('outputs', 'output_deltas', 'parameters', 'gradients',
                    'internals'):
            names = [k for c, k in ds if c == cat]
            ensure(sorted(v[cat].keys()) == sorted(names), '%s.%s has %s, '
                   'declared: %s', l['n'], cat, sorted(v[cat].keys()), names)
            ensure(len(v[cat]) == len(names), 'length of %s.%s', l['n'], cat)
            for j, k in enumerate(names):
                ensure(v[cat][j] is v[cat][k], '%s.%s: number %d is not the '
                       'declared number %d', l['n'], cat, j, j)
        for (cat, k), d in ds.items():
            arr = v[cat][k]
            ensure(tuple(arr.shape) == full_shape(d, T, B), '%s.%s.%s has '
                   'shape %s, declared %s with T=%d, B=%d', l['n'], cat, k,
                   arr.shape, d, T, B)
            m = counter + np.arange(arr.size, dtype=float).reshape(arr.shape)
            counter += arr.size
            arr[...] = m
            marks[l['n'], cat, k] = m
        ensure(set(v.inputs.keys()) == set(l['in']) ==
               set(v.input_deltas.keys()), 'inputs of %s', l['n'])
    for (n, cat, k), m in marks.items():
        ensure(np.array_equal(net.buffer[n][cat][k], m),
               'writing another array changes %s.%s.%s', n, cat, k)
    for l in spec['layers']:
        for i, srcs in l['in'].items():
            for delta in (False, True):
                got = net.buffer[l['n']]['input_deltas' if delta else
                                         'inputs'][i]
                parts = [np.asarray(source_array(net, s, delta))
                         for s in srcs]
                got = np.asarray(got)
                if srcs[0][0] == 'Input' or \
                        'T' in declared(spec, srcs[0])['shape']:
                    parts, got = [p[:T] for p in parts], got[:T]
                if len(parts) == 1:
                    ok = np.array_equal(got, parts[0])
                else:
                    ok = any(np.array_equal(got, np.concatenate(c, -1))
                             for c in (parts, parts[::-1]))
                ensure(ok, '%s input %s of %s (deltas: %s) is not %s',
                       l['t'], i, l['n'], delta, srcs)
    for cat in ('parameters', 'gradients'):
        own = [m.ravel() for key, m in marks.items() if key[1] == cat]
        own = np.concatenate(own) if own else np.zeros(0)
        flat = np.asarray(net.buffer[cat])
        ensure(np.array_equal(np.sort(flat), np.sort(own)), 'the vector of '
               'all %s is not made of exactly the declared arrays', cat)


def check(spec):
    if 'template' in spec:
        return check_structures(spec)
    labels = {'bad': spec['bad'], 'layers': len(spec['layers'])}
    arch = architecture(spec)
    if spec['bad']:
        if not spoil(spec, arch):
            return dict(labels, bad=None, kinds=0)
        try:
            bs.Network.from_architecture(arch)
        except (ValidationError, KeyError, ValueError, TypeError,
                AssertionError) as e:
            return dict(labels, kinds=0, error=type(e).__name__)
        ensure(False, '%s is accepted', spec['bad'])
    made, last, loose = build(spec)
    if loose:
        net = bs.Network.from_architecture(arch)
    else:
        net = bs.Network.from_layer(last)
    net.set_handler(NumpyHandler(np.float64))
    kinds = set()
    ensure(set(net.layers) == {'Input'} | {l['n'] for l in spec['layers']},
           'layers are %s', list(net.layers))
    for l in spec['layers']:
        lay = net.layers[l['n']]
        ensure(type(lay) is CLASSES[l['t']], 'layer %s is a %s', l['n'],
               type(lay).__name__)
        ensure(lay.name == l['n'] and lay.handler is net.handler,
               'name or handler of %s', l['n'])
        kinds |= {(c, kind_of(d['shape']), bool(d.get('back')),
                   bool(d.get('ctx'))) for (c, k), d in decls(l).items()}
    rnd = np.random.RandomState(1)
    ptotal = sum(int(np.prod(d['shape'])) for l in spec['layers']
                 for d in l['params'])
    pvals = None
    for T, B in spec['sizes']:
        data = {d['name']: rnd.uniform(1, 2, full_shape(d, T, B))
                for d in spec['inputs']}
        net.provide_external_data(data)
        if pvals is not None:
            ensure(np.array_equal(net.get('parameters'), pvals),
                   'resizing changes the parameters')
        for n, v in data.items():
            ensure(np.array_equal(net.get_input(n), v), 'input %s', n)
        check_buffers(net, spec, T, B)
        pvals = rnd.uniform(1, 2, ptotal)
        net.buffer.parameters[...] = pvals
        check_passes(net, spec, T, B, rnd)
    ensure(np.array_equal(net.get('parameters'), pvals), 'passes change the '
           'parameters')
    check_context(net, spec, rnd)
    return dict(labels, kinds=len(kinds), loose=bool(loose),
                multi=any(len(s) > 1 for l in spec['layers']
                          for s in l['in'].values()),
                inner=any(s[1].startswith('..') for l in spec['layers']
                          for ss in l['in'].values() for s in ss))


def check_passes(net, spec, T, B, rnd):
    for l in spec['layers']:        # leftovers
        for (cat, k), d in decls(l).items():
            if cat != 'parameters':
                net.buffer[l['n']][cat][k][...] = 5.0
    del CALLS[:]
    net.forward_pass(training_pass=spec['training'])
    fwd = list(CALLS)
    del CALLS[:]
    net.backward_pass()
    bwd = list(CALLS)
    del CALLS[:]
    names = [l['n'] for l in spec['layers']]
    ensure(sorted(c[1] for c in fwd) == sorted(names) and
           all(c[0] == 'forward' for c in fwd), 'calls of a forward pass: %s',
           [c[:2] for c in fwd])
    ensure([c[1] for c in bwd] == [c[1] for c in fwd][::-1] and
           all(c[0] == 'backward' for c in bwd), 'calls of a backward pass: '
           '%s', [c[:2] for c in bwd])
    pos = {c[1]: i for i, c in enumerate(fwd)}
    for l in spec['layers']:
        for ss in l['in'].values():
            for s in ss:
                ensure(s[0] == 'Input' or pos[s[0]] < pos[l['n']],
                       '%s runs before its source %s', l['n'], s[0])
    for c in fwd + bwd:
        ensure(c[2] is net.buffer[c[1]], '%s is called with other buffers',
               c[1])
        ensure(c[0] == 'backward' or c[3] is spec['training'], 'training '
               'flag of %s is %s', c[1], c[3])
    by_name = {l['n']: l for l in spec['layers']}
    for _, n, _, _, snap in bwd:
        back = {('internals', d['name']) for d in by_name[n]['interns']
                if d.get('back')}
        for key, v in snap.items():
            if key[0] == 'internals' and key not in back:
                continue
            ensure(not v.any(), 'when %s.backward_pass is called its %s are '
                   'not zero', n, '.'.join(key))


def declared(spec, src):
    if src[0] == 'Input':
        return {}
    l = [l for l in spec['layers'] if l['n'] == src[0]][0]
    cat = 'parameters' if '.parameters.' in src[1] else \
        'internals' if '.internals.' in src[1] else 'outputs'
    return decls(l)[cat, src[1].split('.')[-1]]


def shared_context(spec, n, cat, d):
    """Largest number of context rows among the buffers it shares an input
    with, directly or through others."""
    me = (n, ('..internals.' if cat == 'internals' else '') + d['name'])
    comp, grew = {me}, True
    while grew:
        grew = False
        for l in spec['layers']:
            for ss in l['in'].values():
                ss = {tuple(s) for s in ss}
                if ss & comp and not ss <= comp:
                    comp |= ss
                    grew = True
    return max(declared(spec, s).get('ctx', 0) for s in comp)


def check_context(net, spec, rnd, mixed=False):
    """Context rows hold the last steps of the pass they were taken from."""
    held = [(l['n'], cat, d) for l in spec['layers']
            for cat, ds in (('outputs', l['outs']), ('internals',
                                                     l['interns']))
            for d in ds if d.get('ctx')]
    if not mixed:
        held = [(n, cat, d) for n, cat, d in held
                if d['ctx'] == shared_context(spec, n, cat, d)]
    T, T2, B = 1 + rnd.randint(5), 1 + rnd.randint(4), 2

    def provide(t):
        net.provide_external_data({
            d['name']: rnd.uniform(1, 2, full_shape(d, t, B))
            for d in spec['inputs']})

    provide(T)
    net.forward_pass(training_pass=False)
    want = {}
    for n, cat, d in held:
        arr = net.buffer[n][cat][d['name']]
        arr[...] = rnd.uniform(1, 2, arr.shape)
    for n, cat, d in held:
        # steps ..., -2, -1, 0, ..., T - 1 of which the last are taken
        arr = np.array(net.buffer[n][cat][d['name']])
        steps = np.concatenate([arr[T:], arr[:T]])
        want[n, cat, d['name']] = steps[-d['ctx']:]
    ctx = net.get_context()
    provide(T2)
    for n, cat, d in held:
        net.buffer[n][cat][d['name']][...] = 9.0
    net.forward_pass(training_pass=False, context=ctx)
    for n, cat, d in held:
        arr = np.asarray(net.buffer[n][cat][d['name']])
        hub_rows = arr[T2:]
        ensure(np.array_equal(hub_rows[-d['ctx']:], want[n, cat, d['name']]),
               'context rows of %s.%s.%s (context size %d) are %s instead of '
               '%s', n, cat, d['name'], d['ctx'], hub_rows.tolist(),
               want[n, cat, d['name']].tolist())
        ensure(np.all(arr[:T2] == 9.0), 'applying a context changes time '
               'steps of %s.%s.%s', n, cat, d['name'])
    net.forward_pass(training_pass=False)
    for n, cat, d in held:
        arr = np.asarray(net.buffer[n][cat][d['name']])
        ensure(not arr[T2:].any() and np.all(arr[:T2] == 9.0), 'a pass '
               'without a context leaves %s in %s.%s.%s',
               arr.tolist(), n, cat, d['name'])


def nontrivial(spec, labels):
    return bool(labels['bad']) or (labels['kinds'] >= 2 and
                                   labels['layers'] >= 2)


def known(findings):
    for f in findings['findings']:
        if f['property'] == ID:
            net = bs.Network.from_architecture(architecture(f['spec']))
            net.set_handler(NumpyHandler(np.float64))
            try:
                check_context(net, f['spec'], np.random.RandomState(1), True)
            except Violation:
                yield f['what'], True
            else:
                yield f['what'], False
