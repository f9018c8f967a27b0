"""C11: weight and gradient modifiers enforce exactly their constraint."""
import copy
import fnmatch
import itertools
import json

import numpy as np
from hypothesis import strategies as st

from pbt import nets, objects
from pbt.core import ensure
from pbt.props.c09 import pattern
from brainstorm.describable import get_description

ID = 'C11'
QUICK, THOROUGH = 5000, 90000
RULE = ('Random networks with weight and gradient modifiers selected by '
        'literal, wild-card and default patterns (single, lists, shape '
        'specific masks), applied repeatedly while parameters change, '
        'compared per parameter with a model of each modifier; gradient '
        'modifiers against a twin network without them. Non-trivial: some '
        'parameter is selected.')
ASSUMPTIONS = ['if several patterns select one parameter their modifiers run '
               'in some order', 'decay factors and limits are moderate']


@st.composite
def mods(draw, gradient, exact):
    """One modifier, or a list of them; exact: the target is one view."""
    def one():
        if exact and draw(st.integers(0, 2)) == 0:
            return {'m': draw(st.sampled_from(['MaskValues', 'FreezeGiven'])),
                    'auto': draw(st.integers(0, 999))}
        return draw(objects.mod_spec(gradient=gradient))
    if draw(st.booleans()):
        return {'list': [one() for _ in range(draw(st.integers(1, 3)))],
                'tuple': draw(st.booleans())}
    return {'list': [one()], 'single': True}


@st.composite
def refs(draw, layers, gradient):
    names = [l['n'] for l in layers]
    out = {}
    if names:
        for _ in range(draw(st.integers(0, 2))):
            p = draw(pattern(names))
            matched = [l for l in layers if fnmatch.fnmatchcase(l['n'], p)]
            if p in out:
                continue
            if not matched or draw(st.integers(0, 2)) == 0:
                out[p] = draw(mods(gradient, False))
                continue
            sub = {}
            pool = sorted(set.intersection(*[
                set(nets.PARAM_NAMES[l['t']]) for l in matched])) or ['W']
            for _ in range(draw(st.integers(0, 2))):
                q = draw(pattern(pool))
                exact = len(matched) == 1 and '*' not in q
                sub[q] = draw(mods(gradient, exact))
            if draw(st.integers(0, 2)) == 0:
                sub['default'] = draw(mods(gradient, False))
            out[p] = {'sub': sub}
    if draw(st.booleans()):
        out['default'] = draw(mods(gradient, False))
    return out


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=4, first=[
        'FullyConnected', 'Recurrent', 'Lstm', 'Convolution2D', 'Clockwork',
        'FullyConnected'], min_heads=1, max_heads=2,
        kinds=['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork',
               'ClockworkLstm', 'Convolution2D', 'Pooling2D', 'BatchNorm',
               'Elementwise', 'Highway', 'Merge']))
    layers = [l for l in spec['layers'] if l['t'] in nets.PARAM_NAMES]
    spec['weights'] = draw(refs(layers, False))
    spec['grads'] = draw(refs(layers, True))
    spec['f32'] = draw(st.booleans())
    spec['kwargs'] = draw(st.booleans())
    spec['ops'] = draw(st.lists(st.sampled_from(
        ['apply', 'apply', 'perturb', 'backward', 'backward', 'reset',
         'manual', 'scale']), min_size=2, max_size=8))
    return spec


def strategy():
    return strategy_()


def concrete(m, shape):
    if 'auto' not in m:
        return m
    r = np.random.RandomState(m['auto'])
    if m['m'] == 'MaskValues':
        return {'m': 'MaskValues', 'mask': r.choice(
            [0., 1., 1., 0.5], size=shape).tolist()}
    return {'m': 'FreezeValues', 'given': r.normal(size=shape).tolist()}


def realise(rs, shapes):
    def val(v, shape=None):
        ms = [objects.make_mod(concrete(m, shape)) for m in v['list']]
        if v.get('single'):
            return ms[0]
        return tuple(ms) if v['tuple'] else ms
    out = {}
    for p, v in rs.items():
        if 'sub' in v:
            ls = [n for n in shapes if fnmatch.fnmatchcase(n, p)]
            out[p] = {q: val(w, shapes[ls[0]].get(q) if ls else None)
                      for q, w in v['sub'].items()}
        else:
            out[p] = val(v)
    return out


def select(rs, shapes):
    """Model: {(layer, view): [tuple of modifier specs, ...]}, bad, grey."""
    sel, bad, grey = {}, False, False
    for p, v in rs.items():
        if p == 'default':
            continue
        ls = [n for n in shapes if fnmatch.fnmatchcase(n, p)]
        if not ls:
            bad = True
        if 'sub' in v:
            for q in v['sub']:
                if q == 'default':
                    continue
                hit = [any(fnmatch.fnmatchcase(w, q) for w in shapes[n])
                       for n in ls]
                if not all(hit):
                    bad = True
    for n in shapes:
        for w in shapes[n]:
            content, subdef, defaults = [], [], []
            pats = [p for p in rs if p != 'default' and
                    fnmatch.fnmatchcase(n, p)]
            for p in pats:
                v = rs[p]
                if 'sub' not in v:
                    content.append(v['list'])
                    continue
                inner = [q for q in v['sub'] if q != 'default' and
                         fnmatch.fnmatchcase(w, q)]
                content += [v['sub'][q]['list'] for q in inner]
                if not inner and 'default' in v['sub']:
                    subdef.append(v['sub']['default']['list'])
                elif not inner and 'default' in rs:
                    defaults.append(rs['default']['list'])
            if not pats and 'default' in rs:
                content.append(rs['default']['list'])
            if subdef and (content or defaults or len(subdef) > 1):
                grey = True
            got = content or subdef or defaults[:1]
            if got:
                sel[n, w] = [[concrete(m, shapes[n][w]) for m in ms]
                             for ms in got]
    return sel, bad, grey


class Group(object):
    """Possible behaviours of the modifiers of one parameter."""

    def __init__(self, lists):
        self.alts = [[objects.ModModel(m) for ms in perm for m in ms]
                     for perm in itertools.permutations(lists)]

    def step(self, value, param, got, tol):
        """Keep the alternatives that explain got."""
        keep = []
        for alt in self.alts:
            v = value
            for m in alt:
                v = m(v, param)
            if nets.close(got, v, tol, tol):
                keep.append(alt)
            last = v
        if not keep:
            return last
        self.alts = keep
        return None


def install(net, spec, which, shapes):
    r = realise(spec[which], shapes)
    frozen = json.dumps(get_description(r))
    types = {k: type(v) for k, v in r.items()}
    f = net.set_weight_modifiers if which == 'weights' else \
        net.set_gradient_modifiers
    if spec['kwargs'] and all('*' not in p for p in r):
        f(**r)
    else:
        f(r)
    ensure(json.dumps(get_description(r)) == frozen and
           {k: type(v) for k, v in r.items()} == types, 'installing modifiers '
           'changed the arguments')
    return r


def check(spec):
    dtype = np.float32 if spec['f32'] else np.float64
    tol = 1e-4 if spec['f32'] else 1e-9
    net, orders, params, inputs, rnd = nets.prepare(spec, dtype=dtype)
    twin = nets.prepare(spec, dtype=dtype)[0]
    shapes = {n: {p: tuple(v.shape)
                  for p, v in net.buffer[n].parameters.items()}
              for n in net.layers}
    labels = {'bad': False, 'grey': False}
    groups = {}
    grey = False
    bad = {}
    for which in ('weights', 'grads'):
        sel, b, g = select(spec[which], shapes)
        grey |= g
        bad[which] = b
        groups[which] = {k: Group(v) for k, v in sel.items()}
    if grey:
        labels['grey'] = True
        return labels
    live = {}
    for which in ('weights', 'grads'):
        if bad[which]:
            labels['bad'] = True
            try:
                install(net, spec, which, shapes)
            except Exception:
                groups[which] = {}
                live[which] = None
                continue
            ensure(False, 'modifiers %s were accepted', spec[which])
        live[which] = install(net, spec, which, shapes)
    labels['selected'] = len(groups['weights']) + len(groups['grads'])
    labels['overlap'] = any(len(g.alts) > 1 for w in groups.values()
                            for g in w.values())

    def params_of(n):
        return {(l, v): np.array(n.buffer[l].parameters[v], dtype=float)
                for l in shapes for v in shapes[l]}

    def grads_of(n):
        return {(l, v): np.array(n.buffer[l].gradients[v], dtype=float)
                for l in shapes for v in shapes[l]}

    def compare(which, before, after, p):
        for k in sorted(before):
            g = groups[which].get(k)
            if g is None:
                ensure(np.array_equal(before[k], after[k], equal_nan=True),
                       '%s: %s is not selected but changed: %s', which, k,
                       nets.describe_diff(after[k], before[k]))
                continue
            bad_v = g.step(before[k], p[k], after[k], tol)
            ensure(bad_v is None, '%s: wrong value of %s: %s', which, k,
                   '' if bad_v is None else nets.describe_diff(after[k],
                                                               bad_v))

    def sync():
        twin.buffer.parameters[:] = net.buffer.parameters

    net.provide_external_data(inputs)
    twin.provide_external_data(inputs)
    for op in spec['ops']:
        if op in ('perturb', 'scale'):
            x = net.buffer.parameters
            if op == 'perturb':
                x[:] = rnd.normal(size=x.shape) * 2
            else:
                x[:] = x * 3
            # timing parameters and running statistics keep their meaning
            for l in spec['layers']:
                for q in ('timing', 'sigma'):
                    if q in shapes[l['n']]:
                        net.buffer[l['n']].parameters[q][:] = 1 + rnd.randint(
                            0, 2, size=shapes[l['n']][q])
        elif op == 'apply':
            before, g0 = params_of(net), net.get('gradients')
            net.apply_weight_modifiers()
            compare('weights', before, params_of(net), before)
            ensure(np.array_equal(net.get('gradients'), g0, equal_nan=True),
                   'weight modifiers changed gradients')
        elif op == 'manual':
            before, p0 = grads_of(net), net.get('parameters')
            net.apply_gradient_modifiers()
            compare('grads', before, grads_of(net), params_of(net))
            ensure(np.array_equal(net.get('parameters'), p0),
                   'gradient modifiers changed parameters')
        elif op == 'backward':
            sync()
            twin.forward_pass(training_pass=True)
            twin.backward_pass()
            net.forward_pass(training_pass=True)
            p0 = net.get('parameters')
            net.backward_pass()
            ensure(np.array_equal(net.get('parameters'), p0),
                   'the backward pass changed parameters')
            if not np.all(np.isfinite(twin.get('gradients'))):
                return labels
            compare('grads', grads_of(twin), grads_of(net), params_of(net))
        elif op == 'reset':
            for which in ('weights', 'grads'):
                if live[which] is None:
                    continue
                f = net.set_weight_modifiers if which == 'weights' else \
                    net.set_gradient_modifiers
                f(live[which])
                sel = select(spec[which], shapes)[0]
                groups[which] = {k: Group(v) for k, v in sel.items()}
    return labels


def nontrivial(spec, labels):
    return bool(labels.get('selected'))
