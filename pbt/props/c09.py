"""C09: initialisation gives every parameter the value its pattern selects."""
import copy
import fnmatch
import json
import random

import numpy as np
from hypothesis import strategies as st

from pbt.core import ensure
import brainstorm as bs
from brainstorm import initializers as I
from brainstorm import layers as L
from brainstorm.describable import get_description
from brainstorm.handlers import NumpyHandler

ID = 'C09'
QUICK, THOROUGH = 9000, 120000
RULE = ('Random chains of parameterised layers with random names and random '
        'initialisation dictionaries (literal and wild-card layer and '
        'parameter patterns, sub-dictionaries, defaults, fallbacks, scalars, '
        'arrays, shape-restricted initialisers) resolved by an independent '
        'model; every initialiser is recognisable by its values. '
        'Non-trivial: at least one pattern besides the default.')
ASSUMPTIONS = ['defaults are initialisers, not dictionaries',
               'the same initialiser is not used in two patterns',
               'cases where a default of one sub-dictionary competes with a '
               'pattern of another are not decided']

NAMES = ['a', 'ab', 'a1', 'a_1', 'b1', 'b_ab', 'Lstm', 'h10', 'h1', 'x_y_z']
KINDS = {'FullyConnected': lambda n, k: L.FullyConnected(k, name=n),
         'Recurrent': lambda n, k: L.Recurrent(k, name=n),
         'Lstm': lambda n, k: L.Lstm(k, name=n),
         'ClockworkLstm': lambda n, k: L.ClockworkLstm(k, name=n),
         'BatchNorm': lambda n, k: L.BatchNorm(name=n),
         'Clockwork': lambda n, k: L.Clockwork(k, name=n),
         'Convolution2D': lambda n, k: L.Convolution2D(k, (2, 3), padding=1,
                                                       name=n)}


def build(spec):
    # convolutions need images, so they come first
    conv = [s for s in spec['layers'] if s['t'] == 'Convolution2D']
    inp = L.Input(out_shapes={'default': ('T', 'B') + (
        (3, 2, 2) if conv else (3,))})
    cur = inp
    for s in conv + [s for s in spec['layers'] if s not in conv]:
        cur = cur >> KINDS[s['t']](s['n'], s['k'])
    net = bs.Network.from_layer(cur)
    net.set_handler(NumpyHandler(np.float64))
    return net


def shapes_of(net):
    return {n: {p: tuple(v.shape) for p, v in net.buffer[n].parameters.items()}
            for n in net.layers}


@st.composite
def pattern(draw, names):
    """A literal or wild-card pattern, usually matching one of the names."""
    if draw(st.integers(0, 29)) == 0:
        return draw(st.sampled_from(['zz', 'q*', '*q', 'a*q*']))
    name = draw(st.sampled_from(names))
    how = draw(st.integers(0, 5))
    if how < 2:
        return name
    i = draw(st.integers(0, len(name)))
    j = draw(st.integers(i, len(name)))
    pat = name[:i] + '*' + name[j:]
    if how == 5:
        k = draw(st.integers(0, len(pat)))
        pat = pat[:k] + '*' + pat[k:]
    return pat


VIEWS = {'FullyConnected': ['W', 'bias'], 'Recurrent': ['W', 'R', 'bias'],
         'Clockwork': ['W', 'R', 'bias'], 'BatchNorm': ['gamma', 'beta'],
         'Convolution2D': ['W', 'bias'],
         'Lstm': ['Wz', 'Ri', 'bf', 'bo'], 'ClockworkLstm': ['Wz', 'pi', 'bf']}


@st.composite
def strategy_(draw):
    n = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n,
                          unique=True))
    layers = [{'n': x, 't': draw(st.sampled_from(sorted(VIEWS))),
               'k': draw(st.integers(1, 4))} for x in names]
    counter = [0]

    def init():
        counter[0] += 1
        return {'k': counter[0], 'how': draw(st.sampled_from(
            ['uniform', 'uniform', 'uniform', 'scalar', 'orthogonal', 'int',
             'float32', 'lstmopt', 'sparsein', 'sparseout']))}

    views = sorted({v for l in layers for v in VIEWS[l['t']]})
    d = {}
    for _ in range(draw(st.integers(0, 3))):
        p = draw(pattern(names))
        if draw(st.booleans()):
            d[p] = init()
        else:
            matched = [l for l in layers if fnmatch.fnmatchcase(l['n'], p)]
            pool = sorted({v for l in matched for v in VIEWS[l['t']]}) or \
                views
            sub = {}
            for _ in range(draw(st.integers(0, 2))):
                sub[draw(pattern(pool))] = init()
            if draw(st.booleans()):
                sub['default'] = init()
            if draw(st.integers(0, 3)) == 0:
                sub['fallback'] = init()
            if len(matched) == 1 and draw(st.booleans()):
                i = init()
                i['how'] = draw(st.sampled_from(['array', 'list', 'badarray',
                                                 'array init']))
                sub[VIEWS[matched[0]['t']][0]] = i
            if draw(st.integers(0, 9)) != 0 or sub:
                d[p] = sub
    if draw(st.integers(0, 11)):
        d['default'] = init()
    if draw(st.integers(0, 2)) == 0:
        d['fallback'] = init()
    return {'layers': layers, 'refs': d, 'seed': draw(st.integers(0, 999)),
            'form': draw(st.sampled_from(['dict', 'kwargs', 'both', 'bare'])),
            'seeding': draw(st.sampled_from(['arg', 'net']))}


def strategy():
    return strategy_()


def target_shape(spec, net_shapes, pat, view):
    for l in spec['layers']:
        if fnmatch.fnmatchcase(l['n'], pat):
            return net_shapes[l['n']].get(view, (2,))
    return (2,)


def array_for(k, shape):
    return 10. * k + np.arange(int(np.prod(shape))).reshape(shape) / 1000.


def make(spec, shapes):
    """Realise the dictionary of initialisers."""
    def one(i, pat=None, view=None):
        k, how = i['k'], i['how']
        if how == 'uniform':
            return I.Uniform(10. * k, 10. * k + 1)
        if how == 'scalar':
            return 10. * k + 0.5
        if how == 'int':
            return 10 * k + 1
        if how == 'float32':
            return float(np.float32(10. * k + 0.25))
        if how == 'orthogonal':
            return I.Orthogonal(10. * k)
        if how == 'sparsein':
            return I.SparseInputs(I.Uniform(10. * k, 10. * k + 1), 2)
        if how == 'sparseout':
            return I.SparseOutputs(I.Uniform(10. * k, 10. * k + 1), 2)
        if how == 'lstmopt':
            return I.LstmOptInit(10. * k, 10. * k + .1, 10. * k + .2,
                                 10. * k + .3)
        shape = target_shape(spec, shapes, pat, view)
        if how == 'badarray':
            shape = tuple(shape) + (2,)
        a = array_for(k, shape)
        return {'list': a.tolist(), 'array': a, 'badarray': a,
                'array init': I.ArrayInitializer(a)}[how]

    out = {}
    for p, v in spec['refs'].items():
        out[p] = one(v) if 'k' in v else {
            q: one(w, p, q) for q, w in v.items()}
    return out


def resolve(refs, layer, view, layer_names, views_of):
    """Model: (sets of content, defaults, fallbacks, grey) for one view."""
    top_d, top_f = refs.get('default'), refs.get('fallback')
    content, defaults, fb, subdef = [], [], [], []
    pats = [p for p in refs if p not in ('default', 'fallback') and
            fnmatch.fnmatchcase(layer, p)]
    if not pats:
        if top_d is not None:
            content.append(top_d)
        if top_f is not None:
            fb.append(top_f)
    for p in pats:
        v = refs[p]
        if 'k' in v:
            content.append(v)
            if top_f is not None:
                fb.append(top_f)
            continue
        d = v.get('default', top_d)
        f = v.get('fallback', top_f)
        inner = [q for q in v if q not in ('default', 'fallback') and
                 fnmatch.fnmatchcase(view, q)]
        for q in inner:
            content.append(v[q])
        if not inner and 'default' in v:
            subdef.append(v['default'])
        elif not inner and d is not None:
            defaults.append(d)
        if f is not None:
            fb.append(f)
    uniq = lambda xs: {x['k']: x for x in xs}
    return uniq(content), uniq(subdef), uniq(defaults), uniq(fb)


def error_expected(refs, shapes):
    """Patterns that match nothing."""
    for p, v in refs.items():
        if p in ('default', 'fallback'):
            continue
        ls = [l for l in shapes if fnmatch.fnmatchcase(l, p)]
        if not ls:
            return True
        if 'k' not in v:
            for q in v:
                if q in ('default', 'fallback'):
                    continue
                if any(not any(fnmatch.fnmatchcase(w, q) for w in shapes[l])
                       for l in ls):
                    return True
    return False


def accepts(i, shape, spec, shapes):
    """Can this initialiser handle the shape?"""
    if i['how'] == 'orthogonal':
        return len(shape) == 2
    if i['how'] == 'badarray':
        return False
    if i['how'] == 'lstmopt':
        return shape[0] % 4 == 0
    if i['how'] == 'sparsein':
        return len(shape) == 2 and shape[0] >= 2
    if i['how'] == 'sparseout':
        return len(shape) == 2 and shape[1] >= 2
    return True


def recognise(i, value):
    k = i['k']
    if i['how'] == 'uniform':
        return bool(np.all((value >= 10. * k) & (value <= 10. * k + 1)))
    if i['how'] == 'scalar':
        return bool(np.all(value == 10. * k + 0.5))
    if i['how'] == 'int':
        return bool(np.all(value == 10 * k + 1))
    if i['how'] == 'float32':
        return bool(np.all(value == np.float32(10. * k + 0.25)))
    if i['how'] == 'orthogonal':
        m = value / (10. * k)
        g = m.dot(m.T) if m.shape[0] <= m.shape[1] else m.T.dot(m)
        return np.allclose(g, np.eye(len(g)), atol=1e-8)
    if i['how'] in ('sparsein', 'sparseout'):
        on = value != 0
        return bool(np.all(on.sum(0 if i['how'] == 'sparsein' else 1) == 2) and
                    np.all((value[on] >= 10. * k) &
                           (value[on] <= 10. * k + 1)))
    if i['how'] == 'lstmopt':
        n = value.shape[0] // 4
        return all(np.all(value[j * n:(j + 1) * n] == 10. * k + .1 * j) or
                   np.allclose(value[j * n:(j + 1) * n], 10. * k + .1 * j,
                               atol=1e-9) for j in range(4))
    return np.array_equal(value, array_for(k, value.shape))


def call(net, refs, spec):
    kw = {}
    seed = spec['seed']
    if spec['seeding'] == 'arg':
        kw['seed'] = seed
    else:
        net.rnd.set_seed(seed)
    ident = [p for p in refs if '*' not in p]
    if spec['form'] == 'bare' and set(refs) == {'default'}:
        net.initialize(refs['default'], **kw)
    elif spec['form'] == 'kwargs' and len(ident) == len(refs):
        net.initialize(**dict(kw, **refs))
    elif spec['form'] == 'both':
        for p in ident:
            # given twice
            before = net.get('parameters')
            try:
                net.initialize(dict(refs), **{p: refs[p]})
            except TypeError:
                pass
            else:
                ensure(False, 'two initializers for %s are accepted', p)
            ensure(np.array_equal(before, net.get('parameters'),
                                  equal_nan=True), 'refused initializers '
                   'changed the parameters')
        kw.update({p: refs[p] for p in ident})
        net.initialize({p: refs[p] for p in refs if p not in ident}, **kw)
    else:
        net.initialize(refs, **kw)


def shuffled(d, rnd):
    keys = list(d)
    rnd.shuffle(keys)
    return {k: shuffled(d[k], rnd) if isinstance(d[k], dict) else d[k]
            for k in keys}


def check(spec):
    net = build(spec)
    shapes = shapes_of(net)
    refs = make(spec, shapes)
    frozen = copy.deepcopy(refs)
    want = {}
    bad = error_expected(spec['refs'], shapes)
    grey = False
    for l in shapes:
        for v in shapes[l]:
            content, subdef, defaults, fb = resolve(
                spec['refs'], l, v, shapes, shapes[l])
            if content and subdef:
                grey = True
            if len(subdef) and defaults:
                grey = True
            sel = content or subdef or defaults
            if len(sel) != 1 or len(fb) > 1:
                bad = True
                continue
            i = list(sel.values())[0]
            if len(shapes[l][v]) > 2 and any(
                    x['how'].startswith('sparse')
                    for x in [i] + list(fb.values())):
                grey = True     # which connections a filter has is open
            if not accepts(i, shapes[l][v], spec, shapes):
                i = list(fb.values())[0] if fb else None
                if i is None or not accepts(i, shapes[l][v], spec, shapes):
                    bad = True
                    continue
            want[l, v] = i
    net.buffer.parameters[:] = np.nan
    net.buffer.gradients[:] = 7.25
    labels = {'bad': bad, 'grey': grey, 'form': spec['form']}
    if grey:
        return labels
    if bad:
        try:
            call(net, refs, spec)
        except Exception:
            return labels
        ensure(False, 'initialize accepted %s', spec['refs'])
    call(net, refs, spec)
    params = net.get('parameters')
    ensure(np.all(np.isfinite(params)), 'some parameters were not written')
    ensure(np.all(net.buffer.gradients == 7.25), 'gradients were written')
    for (l, v), i in sorted(want.items()):
        value = np.array(net.buffer[l].parameters[v])
        ensure(value.shape == shapes[l][v], 'shape of %s.%s changed', l, v)
        ensure(recognise(i, value), '%s.%s should come from initialiser %s '
               'but is %s', l, v, i, value.tolist())
    # the arguments stay as they were
    ensure(json.dumps(get_description(refs)) ==
           json.dumps(get_description(frozen)), 'initialize modified its '
           'arguments')
    for a, b in [(refs, frozen)]:
        ensure(list(a) == list(b), 'keys of the argument changed')
        for k in a:
            if isinstance(a[k], dict):
                ensure(list(a[k]) == list(b[k]), 'keys of %s changed', k)
                for q in a[k]:
                    ensure(type(a[k][q]) is type(b[k][q]), 'type of %s.%s '
                           'changed', k, q)
            else:
                ensure(type(a[k]) is type(b[k]), 'type of %s changed', k)
    ensure(json.loads(json.dumps(get_description(net.initializers))) ==
           json.loads(json.dumps(get_description(frozen))) or
           spec['form'] == 'bare', 'the network remembers other initialisers')
    # same seed, other order, fresh network
    net2 = build(spec)
    np.random.seed(1)
    refs2 = shuffled(make(spec, shapes), random.Random(spec['seed']))
    call(net2, refs2, spec)
    ensure(np.array_equal(net2.get('parameters'), params), 'the same seed '
           'with another dictionary order gave other parameters')
    call(net, refs, spec)
    ensure(np.array_equal(net.get('parameters'), params), 'initialising '
           'again with the same seed gave other parameters')
    # randomness differs between seeds and between parameters
    rand = [(l, v) for (l, v), i in sorted(want.items())
            if i['how'] == 'uniform']
    seen = {}
    for l, v in rand:
        x = np.array(net.buffer[l].parameters[v])
        key = (want[l, v]['k'], x.size)
        for y in seen.setdefault(key, []):
            ensure(not np.array_equal(x.ravel(), y.ravel()), 'two parameters '
                   'got the same random values')
        seen[key].append(x)
    if rand:
        other = dict(spec, seed=spec['seed'] + 1)
        call(net, refs, other)
        l, v = rand[0]
        ensure(not np.array_equal(net.buffer[l].parameters[v],
                                  net2.buffer[l].parameters[v]),
               'another seed gave the same values')
    return labels


def nontrivial(spec, labels):
    return any(p not in ('default', 'fallback') for p in spec['refs']) and \
        not labels['grey']
