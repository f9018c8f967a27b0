"""Generation of network specs and their realisation with brainstorm."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation, ensure

import brainstorm as bs
import brainstorm.layers as L
from brainstorm.handlers import NumpyHandler

ACTS = ['rel', 'tanh', 'sigmoid', 'linear', 'el']
RECURRENT = ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm')
LETTERS = 'zamkXbQ'
# valid names that are easily confused with something else
SPECIAL_NAMES = ['items', 'keys', 'values', 'adjust', 'index', 'outputs', 'W',
                 'inputs', 'loss', '_keys', 'z', 'z_', 'z_1', 'Loss', 'Input_']
PREFIX = '..parameters.'
TIMES = st.sampled_from([1, 2, 3, 2, 3, 4, 1, 5, 4, 9])
IMAGE = st.sampled_from([1, 2, 3, 4, 3, 5, 8])
BATCHES = st.sampled_from([1, 2, 3, 2, 1, 3, 7])


def rarely(small, large, odds=24):
    """Mostly `small`, once in a while `large`."""
    return st.integers(0, odds).flatmap(
        lambda i: large if i == odds else small)


# --------------------------------------------------------------------------
# specs

def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def _layout_ok(groups):
    """Is there an order of the sources in which every group is contiguous?"""
    groups = [g for g in groups if len(g) > 1]
    remaining = list(groups)
    while remaining:
        comp = [remaining.pop()]
        srcs = set(comp[0])
        grew = True
        while grew:
            grew = False
            for g in list(remaining):
                if srcs & set(g):
                    comp.append(g)
                    srcs |= set(g)
                    remaining.remove(g)
                    grew = True
        if len(comp) == 1:
            continue
        if len(srcs) > 6:
            return False
        for perm in itertools.permutations(sorted(srcs)):
            pos = {s: i for i, s in enumerate(perm)}
            if all(max(pos[s] for s in g) - min(pos[s] for s in g) + 1 ==
                   len(g) for g in comp):
                break
        else:
            return False
    return True


DEFAULTS = {
    'FullyConnected': {'activation': 'rel'},
    'Elementwise': {'activation': 'rel'},
    'Recurrent': {'activation': 'tanh'}, 'Clockwork': {'activation': 'tanh'},
    'Lstm': {'activation': 'tanh'}, 'ClockworkLstm': {'activation': 'tanh'},
    'Convolution2D': {'activation': 'rel', 'stride': [1, 1], 'padding': 0},
    'Pooling2D': {'type': 'max', 'stride': [1, 1], 'padding': 0},
    'BatchNorm': {'decay': 0.9, 'epsilon': 1e-5},
    'Dropout': {'drop_prob': 0.5}, 'Loss': {'importance': 1.0},
}


class _Grower(object):
    def __init__(self, draw, allow, max_in=4, max_size=4, features=None):
        self.draw = draw
        self.allow = allow
        self.inputs = {}
        self.layers = []
        self.avail = []          # (layer, out, shape)
        self.groups = []
        self.max_size = max_size
        self.count = 0
        self.shapes = {}

    def name(self):
        c = self.draw(st.sampled_from(LETTERS + '*~'))
        self.count += 1
        if c == '~' and self.layers:
            # differs from another name in case only
            n = self.draw(st.sampled_from(self.layers))['n'].swapcase()
            if n not in [l['n'] for l in self.layers]:
                return n
        if c == '~':
            c = 'z'
        if c == '*':
            n = self.draw(st.sampled_from(SPECIAL_NAMES))
            if n not in [l['n'] for l in self.layers]:
                return n
            c = 'z'
        return '%s%d' % (c, self.count)

    def add_input(self, name, shape):
        self.inputs[name] = list(shape)
        self.shapes[('Input', name)] = tuple(shape)

    def add(self, t, ins, outs, kw=None):
        """ins: {name: [src, ...]}, outs: {name: shape}"""
        n = self.name()
        self.layers.append({'n': n, 't': t, 'kw': kw or {},
                            'in': {k: [list(s) for s in v]
                                   for k, v in ins.items()}})
        for v in ins.values():
            if len(v) > 1:
                self.groups.append(tuple(tuple(s) for s in v))
        for o, s in outs.items():
            self.shapes[(n, o)] = tuple(s)
        return n

    def pick(self, pred=None):
        """One source, recent ones preferred."""
        cands = [a for a in self.avail if pred is None or pred(a[2])]
        if not cands:
            return None
        i = self.draw(st.integers(0, len(cands) - 1))
        if self.draw(st.booleans()):
            i = len(cands) - 1
        return cands[i]

    def pick_multi(self, pred=None):
        """A list of sources whose concatenation is one input."""
        first = self.pick(pred)
        if first is None:
            return None
        srcs = [first]
        if len(first[2]) == 1 and self.allow.get('multi', True):
            others = [a for a in self.avail if len(a[2]) == 1 and a != first]
            k = self.draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
            for _ in range(k):
                if not others:
                    break
                o = others.pop(self.draw(st.integers(0, len(others) - 1)))
                g = tuple((s[0], s[1]) for s in srcs + [o])
                if _layout_ok(self.groups + [g]):
                    srcs.append(o)
        if len(srcs) == 1:
            shape = first[2]
        else:
            shape = (sum(s[2][0] for s in srcs),)
        return [(s[0], s[1]) for s in srcs], shape


def conv_geometry(draw, shape, big=False):
    h, w = shape[0], shape[1]
    pad = draw(st.integers(0, 4 if big else 2))
    kmax = 6 if big else 3
    kh = draw(st.integers(1, min(kmax, h + 2 * pad)))
    kw = draw(st.integers(1, min(kmax, w + 2 * pad)))
    sh, sw = draw(st.integers(1, kmax)), draw(st.integers(1, kmax))
    oh = (h + 2 * pad - kh) // sh + 1
    ow = (w + 2 * pad - kw) // sw + 1
    return (kh, kw), (sh, sw), pad, (oh, ow)


@st.composite
def net_specs(draw, max_layers=5, kinds=None, heads=True, allow=None,
              images=None, size=None, min_heads=1, max_heads=3, T=None,
              B=None, first=None):
    """A network spec.  `kinds`: allowed body layer types."""
    allow = dict(allow or {})
    g = _Grower(draw, allow)
    big = None
    if allow.get('big', True):
        big = draw(st.sampled_from([None] * 24 + [
            'size', 'T', 'B', 'layers', 'conv']))
    if big == 'size' and size is None:
        size = st.sampled_from([1, 3, 9, 17, 20, 33])
    if big == 'T' and T is None:
        T = st.sampled_from([11, 17, 26, 40])
    if big == 'B' and B is None:
        B = st.sampled_from([11, 16, 33, 67])
    if big == 'layers':
        max_layers = 2 * max_layers + 3
    if big == 'conv' and images is None and kinds is None:
        images = True
    g.big_conv = big == 'conv'
    size = size or st.integers(1, 4)
    if images is None:
        images = draw(st.sampled_from([False, False, True]))
    if images:
        image = st.sampled_from([4, 7, 9, 12]) if big == 'conv' else IMAGE
        shape = (draw(image), draw(image), draw(st.integers(1, 3)))
    else:
        shape = (draw(size),)
        if allow.get('2d', True) and draw(st.integers(0, 7)) == 0:
            shape = shape + (draw(st.integers(1, 3)),)
    g.add_input('default', shape)
    g.avail.append(('Input', 'default', tuple(shape)))
    if allow.get('aux', True) and draw(st.integers(0, 3)) == 0:
        s = (draw(size),)
        aux = draw(st.sampled_from(['aux', 'aux', '_aux', 'Aux_', 'default2']))
        g.add_input(aux, s)
        g.avail.append(('Input', aux, s))

    all_kinds = ['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
                 'ClockworkLstm', 'Convolution2D', 'Pooling2D', 'BatchNorm',
                 'Dropout', 'Elementwise', 'NoOp', 'DeltasScaling',
                 'Highway', 'Merge', 'Mask', 'SquaredDifference']
    kinds = list(kinds or all_kinds)
    if images:
        kinds += [k for k in kinds if k in ('Convolution2D', 'Pooling2D')] * 2
    n = draw(st.integers(max_layers - 4 if big == 'layers' else 1,
                         max_layers))
    for k in range(n):
        t = draw(st.sampled_from(first if first and k == 0 else kinds))
        act = draw(st.sampled_from(ACTS))
        if t in ('Highway', 'SquaredDifference') and sum(
                l['t'] in ('Highway', 'SquaredDifference')
                for l in g.layers) >= 3 and 'Elementwise' in kinds:
            t = 'Elementwise'       # long chains of products overflow
        if t in ('Convolution2D', 'Pooling2D'):
            a = g.pick(lambda s: len(s) == 3)
            if a is None:
                t = 'FullyConnected'
            else:
                k, s, p, (oh, ow) = conv_geometry(draw, a[2], g.big_conv)
                if t == 'Convolution2D':
                    f = draw(st.sampled_from([1, 2, 5, 9]) if g.big_conv
                             else st.integers(1, 2))
                    nm = g.add(t, {'default': [a[:2]]},
                               {'default': (oh, ow, f)},
                               {'num_filters': f, 'kernel_size': list(k),
                                'stride': list(s), 'padding': p,
                                'activation': act})
                    g.avail.append((nm, 'default', (oh, ow, f)))
                else:
                    tp = draw(st.sampled_from(['max', 'avg']))
                    nm = g.add(t, {'default': [a[:2]]},
                               {'default': (oh, ow, a[2][2])},
                               {'kernel_size': list(k), 'stride': list(s),
                                'padding': p, 'type': tp})
                    g.avail.append((nm, 'default', (oh, ow, a[2][2])))
                continue
        if t in RECURRENT or t == 'FullyConnected':
            srcs, shp = g.pick_multi()
            sz = draw(size)
            kw = {'size': sz, 'activation': act}
            osh = (sz,)
            if t == 'FullyConnected':
                c = draw(st.integers(0, 9))
                if c == 0 and prod(shp) <= 12:
                    del kw['size']
                    osh = tuple(shp)
                elif c == 1:
                    kw['size'] = [sz, 2]
                    osh = (sz, 2)
                elif c == 2 and images:
                    kw['size'] = [2, sz, 1]
                    osh = (2, sz, 1)
            nm = g.add(t, {'default': srcs}, {'default': osh}, kw)
            g.avail.append((nm, 'default', osh))
        elif t in ('BatchNorm', 'Dropout', 'Elementwise', 'NoOp',
                   'DeltasScaling'):
            srcs, shp = g.pick_multi()
            kw = {}
            if t == 'BatchNorm':
                kw = {'decay': draw(st.sampled_from([0.9, 0.0, 0.5, 1.0])),
                      'epsilon': draw(st.sampled_from([1e-5, 0.1]))}
            elif t == 'Dropout':
                kw = {'drop_prob': draw(st.sampled_from([0.5, 0.25, 0.9,
                                                         0.0]))}
            elif t == 'Elementwise':
                kw = {'activation': act}
            elif t == 'DeltasScaling':
                kw = {'factor': draw(st.sampled_from([-1.0, 0.5, 2.0]))}
            nm = g.add(t, {'default': srcs}, {'default': shp}, kw)
            g.avail.append((nm, 'default', tuple(shp)))
        elif t == 'Highway':
            a = g.pick()
            same = [b for b in g.avail if b[2] == a[2]]
            ins = {}
            for i in ('H', 'T', 'x'):
                ins[i] = [same[draw(st.integers(0, len(same) - 1))][:2]]
            nm = g.add(t, ins, {'default': a[2]})
            g.avail.append((nm, 'default', a[2]))
        elif t == 'Merge':
            a = g.pick()
            same = [b for b in g.avail if b[2][:-1] == a[2][:-1]]
            b = same[draw(st.integers(0, len(same) - 1))]
            osh = a[2][:-1] + (a[2][-1] + b[2][-1],)
            nm = g.add(t, {'inputs_1': [a[:2]], 'inputs_2': [b[:2]]},
                       {'default': osh})
            g.avail.append((nm, 'default', osh))
        elif t == 'SquaredDifference':
            a = g.pick()
            same = [b for b in g.avail if b[2] == a[2]]
            b = same[draw(st.integers(0, len(same) - 1))]
            nm = g.add(t, {'inputs_1': [a[:2]], 'inputs_2': [b[:2]]},
                       {'default': a[2]})
            g.avail.append((nm, 'default', a[2]))
        elif t == 'Mask':
            a = g.pick()
            msh = draw(st.sampled_from([(1,), a[2][:-1] + (1,), a[2]]))
            mname = 'mask%d' % g.count
            g.add_input(mname, msh)
            nm = g.add(t, {'default': [a[:2]],
                           'mask': [('Input', mname)]}, {'default': a[2]})
            g.avail.append((nm, 'default', a[2]))

    if heads:
        nh = draw(st.integers(min_heads, max_heads))
        for _ in range(nh):
            _add_head(draw, g)
    for l in g.layers:
        for k, v in DEFAULTS.get(l['t'], {}).items():
            if l['kw'].get(k) == v and draw(st.booleans()):
                del l['kw'][k]
    return {
        'inputs': g.inputs, 'layers': g.layers,
        'T': draw(T if T is not None else TIMES),
        'B': draw(B if B is not None else BATCHES),
        'seed': draw(st.integers(0, 2 ** 31 - 1)),
    }


def _add_head(draw, g):
    t = draw(st.sampled_from(
        ['Loss', 'SquaredError', 'SoftmaxCE', 'SigmoidCE',
         'BinomialCrossEntropy', 'L1Decay', 'L2Decay', 'SquaredDifference',
         'param'] if g.allow.get('param', True) else
        ['Loss', 'SquaredError', 'SoftmaxCE', 'SigmoidCE',
         'BinomialCrossEntropy', 'L1Decay', 'L2Decay', 'SquaredDifference']))
    imp = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, -1.0]))
    if t == 'param':
        cands = [l for l in g.layers if l['t'] in PARAM_NAMES]
        if not cands:
            t = 'Loss'
        else:
            l = cands[draw(st.integers(0, len(cands) - 1))]
            names = [p for p in PARAM_NAMES[l['t']] if p not in ('timing', 'mu', 'sigma')]
            p = draw(st.sampled_from(names))
            g.add('Loss', {'default': [(l['n'], PREFIX + p)]},
                  {'loss': (1,)}, {'importance': imp})
            return
    src = None
    if t == 'Loss':
        src, _ = g.pick_multi()
    elif t in ('SquaredError', 'SoftmaxCE', 'SigmoidCE',
               'BinomialCrossEntropy'):
        srcs, shp = g.pick_multi()
        if t == 'BinomialCrossEntropy':
            nm = g.add('Elementwise', {'default': srcs}, {'default': shp},
                       {'activation': 'sigmoid'})
            srcs = [(nm, 'default')]
        if t == 'SoftmaxCE':
            tsh = tuple(shp[:-1]) + (1,)
        else:
            tsh = tuple(shp)
        tsrc = None
        if t == 'SquaredError' and draw(st.integers(0, 3)) == 0:
            # computed targets
            same = [a for a in g.avail if a[2] == tsh]
            if same:
                tsrc = [same[draw(st.integers(0, len(same) - 1))][:2]]
            if len(tsh) == 1 and g.allow.get('multi', True):
                ones = [a for a in g.avail if len(a[2]) == 1]
                for k in (2, 3):
                    for c in itertools.combinations(ones, k):
                        if sum(a[2][0] for a in c) == tsh[0] and draw(
                                st.booleans()):
                            grp = tuple(a[:2] for a in c)
                            if _layout_ok(g.groups + [grp, tuple(
                                    tuple(x) for x in srcs)]):
                                tsrc = list(grp)
        if tsrc is None:
            tname = 'tgt%d' % g.count
            g.add_input(tname, tsh)
            tsrc = [('Input', tname)]
        if t == 'BinomialCrossEntropy':
            nm = g.add(t, {'default': srcs, 'targets': tsrc},
                       {'default': (1,)})
            src, lshape = [(nm, 'default')], (1,)
        else:
            lshape = tsh
            nm = g.add(t, {'default': srcs, 'targets': tsrc},
                       {'predictions': shp, 'loss': lshape})
            src = [(nm, 'loss')]
        if draw(st.integers(0, 3)) == 0:
            mname = 'mask%d' % g.count
            msh = draw(st.sampled_from([(1,), tuple(lshape[:-1]) + (1,),
                                        tuple(lshape)]))
            g.add_input(mname, msh)
            nm = g.add('Mask', {'default': src, 'mask': [('Input', mname)]},
                       {'default': lshape})
            src = [(nm, 'default')]
    elif t in ('L1Decay', 'L2Decay'):
        srcs, _ = g.pick_multi()
        nm = g.add(t, {'default': srcs}, {'loss': (1,)})
        src = [(nm, 'loss')]
    else:
        a = g.pick()
        same = [b for b in g.avail if b[2] == a[2]]
        b = same[draw(st.integers(0, len(same) - 1))]
        nm = g.add('SquaredDifference',
                   {'inputs_1': [a[:2]], 'inputs_2': [b[:2]]},
                   {'default': a[2]})
        src = [(nm, 'default')]
    g.add('Loss', {'default': src}, {'loss': (1,)}, {'importance': imp})
    if draw(st.integers(0, 11)) == 11:      # of exactly the same value
        g.add('Loss', {'default': src}, {'loss': (1,)}, {'importance': imp})


PARAM_NAMES = {
    'FullyConnected': ['W', 'bias'], 'Convolution2D': ['W', 'bias'],
    'Recurrent': ['W', 'R', 'bias'],
    'Clockwork': ['W', 'R', 'bias', 'timing'],
    'BatchNorm': ['gamma', 'beta', 'mu', 'sigma'],
    'Lstm': ['Wz', 'Wi', 'Wf', 'Wo', 'pi', 'pf', 'po', 'Rz', 'Ri', 'Rf',
             'Ro', 'bz', 'bi', 'bf', 'bo'],
}
PARAM_NAMES['ClockworkLstm'] = PARAM_NAMES['Lstm'] + ['timing']


# --------------------------------------------------------------------------
# realisation

def make_layer(l):
    kw = {}
    for k, v in l.get('kw', {}).items():
        kw[k] = tuple(v) if isinstance(v, list) else v
    return getattr(L, l['t'])(name=l['n'], **kw)


def wire_list(spec):
    """All connections (src layer, src out, dst layer, dst in)."""
    out = []
    for l in spec['layers']:
        for i, srcs in sorted(l['in'].items()):
            for s in srcs:
                out.append((s[0], s[1], l['n'], i))
    return out


def construct(spec, wires=None, layer_order=None):
    """Construct with the wiring API; returns one construction layer."""
    shapes = {n: ('T', 'B') + tuple(s) for n, s in spec['inputs'].items()}
    nodes = {'Input': L.Input(out_shapes=shapes)}
    layers = spec['layers'] if layer_order is None else [
        spec['layers'][i] for i in layer_order]
    for l in layers:
        nodes[l['n']] = make_layer(l)
    for a, o, b, i in (wire_list(spec) if wires is None else wires):
        (nodes[a] - o) >> (i - nodes[b])
    return nodes


def build(spec, dtype=np.float64, handler=None):
    nodes = construct(spec)
    net = bs.Network.from_layer(nodes['Input'])
    net.set_handler(handler or NumpyHandler(dtype))
    return net


def source_orders(net, spec):
    """Order in which the sources of each input are concatenated, read off by
    marking every source and looking at the input."""
    orders = {}
    need = any(len(s) > 1 for l in spec['layers'] for s in l['in'].values())
    if need:
        net.provide_external_data({n: np.zeros((1, 1) + tuple(s))
                                   for n, s in spec['inputs'].items()})
    for l in spec['layers']:
        for i, srcs in l['in'].items():
            srcs = [tuple(s) for s in srcs]
            if len(srcs) == 1:
                orders[(l['n'], i)] = srcs
                continue
            seen = []
            for k, (a, o) in enumerate(srcs):
                view = net.buffer[a].outputs[o]
                view[...] = float(k + 1)
            got = np.array(net.buffer[l['n']].inputs[i])[0, 0]
            want = {k + 1: net.buffer[a].outputs[o].shape[-1]
                    for k, (a, o) in enumerate(srcs)}
            pos = 0
            while pos < len(got):
                k = int(got[pos])
                ensure(k in want and k not in seen and
                       np.all(got[pos:pos + want[k]] == k),
                       'input %s of %s is not the concatenation of %s: '
                       'marks %s', i, l['n'], srcs, got.tolist())
                seen.append(k)
                pos += want[k]
            ensure(len(seen) == len(srcs), 'input %s of %s misses a source: '
                   'marks %s', i, l['n'], got.tolist())
            orders[(l['n'], i)] = [srcs[k - 1] for k in seen]
    return orders


def param_shapes(net):
    res = {}
    for n, layer in net.layers.items():
        if n == 'Input':
            continue
        v = net.buffer[n]
        if 'parameters' in v:
            d = {k: tuple(a.shape) for k, a in v.parameters.items()}
            if d:
                res[n] = d
    return res


def draw_params(net, spec, rnd, scale=1.0):
    params = {}
    kinds = {l['n']: l['t'] for l in spec['layers']}
    for n in sorted(param_shapes(net)):
        params[n] = {}
        for p, shape in sorted(param_shapes(net)[n].items()):
            if p == 'timing':
                v = rnd.randint(1, 14 if rnd.uniform() < 0.1 else 5,
                                size=shape).astype(float)
            elif p == 'sigma' and kinds[n] == 'BatchNorm':
                v = rnd.uniform(0.5, 2.0, size=shape)
            elif p == 'gamma':
                v = rnd.uniform(0.5, 1.5, size=shape) * rnd.choice(
                    [-1, 1], size=shape)
            else:
                v = rnd.uniform(-1, 1, size=shape) * scale
                if p.startswith('R') and spec.get('T', 1) > 10:
                    # a long sequence: keep linear recurrences from exploding
                    v *= min(1.0, 1.6 / shape[-1])
            params[n][p] = v
    return params


def dtype_of(handler):
    inner = getattr(handler, 'handler', handler)
    return inner.dtype


def set_params(net, params):
    for n, d in params.items():
        for p, v in d.items():
            net.handler.set_from_numpy(net.buffer[n].parameters[p],
                                       np.asarray(v, dtype=dtype_of(net.handler)))


def consumers(spec, name):
    """(layer, input name) pairs reading Input output `name`."""
    return [(l, i) for l in spec['layers'] for i, srcs in l['in'].items()
            if ['Input', name] in [list(s) for s in srcs]]


def draw_inputs(spec, rnd, T=None, B=None, scale=1.0):
    T = spec['T'] if T is None else T
    B = spec['B'] if B is None else B
    data = {}
    for n, s in sorted(spec['inputs'].items()):
        shape = (T, B) + tuple(s)
        cons = consumers(spec, n)
        if n.startswith('mask'):
            v = (rnd.uniform(size=shape) < 0.7).astype(float)
        elif n.startswith('tgt'):
            kind = cons[0][0]['t']
            if kind == 'SoftmaxCE':
                ncls = class_count(spec, cons[0][0])
                v = rnd.randint(0, ncls, size=shape).astype(float)
            elif kind in ('SigmoidCE', 'BinomialCrossEntropy'):
                v = rnd.randint(0, 2, size=shape).astype(float)
            else:
                v = rnd.normal(size=shape)
        else:
            v = rnd.normal(size=shape) * scale
        data[n] = v
    return data


def out_shape(spec, src):
    """Feature shape of a layer output, from the spec alone."""
    a, o = src
    if a == 'Input':
        return tuple(spec['inputs'][o])
    l = [x for x in spec['layers'] if x['n'] == a][0]
    t, kw = l['t'], l['kw']

    def ishape(i):
        ss = [out_shape(spec, s) for s in l['in'][i]]
        if len(ss) == 1:
            return ss[0]
        return (sum(s[0] for s in ss),)

    if t == 'FullyConnected':
        s = kw.get('size')
        if s is None:
            return ishape('default')
        return (s,) if isinstance(s, int) else tuple(s)
    if t in RECURRENT:
        return (kw['size'],)
    if t in ('Convolution2D', 'Pooling2D'):
        s = ishape('default')
        k = kw['kernel_size']
        stv, p = kw.get('stride', (1, 1)), kw.get('padding', 0)
        return ((s[0] + 2 * p - k[0]) // stv[0] + 1,
                (s[1] + 2 * p - k[1]) // stv[1] + 1,
                kw['num_filters'] if t == 'Convolution2D' else s[2])
    if t == 'Merge':
        a1, b1 = ishape('inputs_1'), ishape('inputs_2')
        return a1[:-1] + (a1[-1] + b1[-1],)
    if t == 'Highway':
        return ishape('x')
    if t == 'SquaredDifference':
        return ishape('inputs_1')
    if t in ('L1Decay', 'L2Decay', 'BinomialCrossEntropy'):
        return (1,)
    if t == 'SoftmaxCE' and o == 'loss':
        return ishape('default')[:-1] + (1,)
    return ishape('default')


def class_count(spec, layer):
    ss = [out_shape(spec, s) for s in layer['in']['default']]
    if len(ss) == 1:
        return ss[0][-1]
    return sum(s[0] for s in ss)


def spec_kinds(spec):
    return sorted(set(l['t'] for l in spec['layers']))


def is_recurrent(spec):
    return any(l['t'] in RECURRENT for l in spec['layers'])


def trim(net_out, T):
    """Drop the context row of recurrent outputs."""
    return net_out[:T]


def get_output(net, layer, name, T):
    a = net.get('%s.outputs.%s' % (layer, name))
    return a[:T] if a.ndim > 1 else a


def dropout_masks(net, spec):
    return {l['n']: net.get(l['n'] + '.internals.mask')
            for l in spec['layers'] if l['t'] == 'Dropout'}


def close(a, b, rtol, atol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(
            np.abs(a), np.abs(b))))


def describe_diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shapes %s and %s' % (a.shape, b.shape)
    d = np.abs(a - b)
    if not d.size:
        return 'empty'
    d = np.where(np.isnan(d), np.inf, d)
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return 'at %s got %r, expected %r' % (i, a[i].item(), b[i].item())


def prepare(spec, dtype=np.float64, handler=None):
    """Build the network, give it random parameters and draw a batch."""
    net = build(spec, dtype, handler)
    orders = source_orders(net, spec)
    rnd = np.random.RandomState(spec['seed'])
    params = draw_params(net, spec, rnd)
    set_params(net, params)
    inputs = draw_inputs(spec, rnd)
    return net, orders, params, inputs, rnd


def same_outputs(net, ref_out, spec, T, rtol, atol, what=''):
    """Compare every layer output of the network with the reference."""
    for l in spec['layers']:
        for o, want in sorted(ref_out[l['n']].items()):
            got = get_output(net, l['n'], o, T)
            want = np.asarray(want).real
            ensure(got.shape == want.shape,
                   '%s%s.outputs.%s has shape %s, expected %s', what, l['n'],
                   o, got.shape, want.shape)
            a = atol * max(1.0, float(np.abs(want).max()) if want.size
                           else 0.0)
            ensure(close(got, want, rtol, a), '%s%s (%s) output %s: %s',
                   what, l['n'], l['t'], o, describe_diff(got, want))


def loss_values(net):
    """Loss values as plain floats, without the total."""
    d = net.get_loss_values()
    return {k: float(v) for k, v in d.items()}


def layer_names(spec):
    return [l['n'] for l in spec['layers']]


def load_params(net):
    """Copies of all parameters by layer and name."""
    return {n: {p: net.get('%s.parameters.%s' % (n, p)) for p in d}
            for n, d in param_shapes(net).items()}
