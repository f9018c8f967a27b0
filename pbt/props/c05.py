"""C05: memory layout wires every connection and overlaps nothing else."""
import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure, run_case

ID = 'C05'
QUICK, THOROUGH = 5000, 100000
RULE = ('Random layer graphs with much fan-out and concatenation, laid out '
        'for several time and batch sizes in turn. Every element of every '
        'array that is written by a layer gets a unique mark; then all '
        'arrays are read back: sources must hold their own marks, inputs the '
        'concatenation of the marks of their sources, the flat parameter '
        'vector each parameter mark exactly once, the flat gradient vector '
        'the same arrangement. Non-trivial: some input has several sources '
        'or some output several consumers.')
ASSUMPTIONS = ['inputs fed by several sources have one feature dimension '
               '(other cases: known finding)']

KINDS = ['FullyConnected', 'FullyConnected', 'NoOp', 'Recurrent', 'Lstm',
         'Dropout', 'BatchNorm', 'Highway', 'Merge', 'Mask', 'Elementwise',
         'SquaredDifference', 'Convolution2D', 'Pooling2D', 'ClockworkLstm']


@st.composite
def strategy_(draw):
    spec = draw(nets.net_specs(max_layers=8, kinds=KINDS, max_heads=3,
                               images=draw(st.integers(0, 5)) == 0))
    spec['sizes'] = draw(st.lists(st.tuples(
        nets.rarely(st.integers(1, 4), st.sampled_from([9, 17, 33])),
        nets.rarely(st.integers(1, 3), st.sampled_from([8, 12, 35]))),
                                  min_size=1, max_size=3))
    return spec


def strategy():
    return strategy_()


def feature_shape(spec, l, i):
    ss = [nets.out_shape(spec, s) if not s[1].startswith('..') else None
          for s in l['in'][i]]
    if len(ss) == 1:
        return ss[0]
    return (sum(s[0] for s in ss),)


def expected_params(spec):
    """Parameter shapes from the definition of the layers."""
    res = {}
    for l in spec['layers']:
        t = l['t']
        if t not in nets.PARAM_NAMES:
            continue
        f = nets.prod(feature_shape(spec, l, 'default'))
        n = nets.prod(nets.out_shape(spec, (l['n'], 'default')))
        d = {}
        for p in nets.PARAM_NAMES[t]:
            if t == 'BatchNorm':
                s = (feature_shape(spec, l, 'default')[-1],)
            elif t == 'Convolution2D':
                nf = l['kw']['num_filters']
                s = (nf,) if p == 'bias' else (nf,) + tuple(
                    l['kw']['kernel_size']) + (feature_shape(
                        spec, l, 'default')[2],)
            elif p.startswith('W'):
                s = (n, f)
            elif p.startswith('R'):
                s = (n, n)
            elif p[0] == 'p':
                s = (1, n)
            else:
                s = (n,)
            d[p] = s
        res[l['n']] = d
    return res


def check_layout(net, spec, T, B, pvals):
    buf = net.buffer
    counter = [1.0]
    marks = {}
    views = {}

    def mark(key, arr):
        m = counter[0] + np.arange(arr.size, dtype=float).reshape(arr.shape)
        counter[0] += arr.size
        arr[...] = m
        marks[key], views[key] = m, arr

    names = ['Input'] + [l['n'] for l in spec['layers']]
    for n in names:
        for cat in ('outputs', 'internals', 'parameters', 'output_deltas',
                    'gradients'):
            if cat not in buf[n]:
                continue
            for k, arr in buf[n][cat].items():
                mark((n, cat, k), arr)
    # shapes
    for l in [{'n': 'Input', 't': 'Input', 'in': {}}] + spec['layers']:
        for cat in ('outputs', 'output_deltas'):
            for k, arr in buf[l['n']][cat].items():
                rec = l['t'] in nets.RECURRENT
                if l['t'] == 'Loss':
                    want = (1,)
                else:
                    want = (T + (1 if rec else 0), B) + tuple(
                        nets.out_shape(spec, (l['n'], k)))
                ensure(tuple(arr.shape) == want, '%s.%s.%s has shape %s for '
                       'T=%d, B=%d, expected %s', l['n'], cat, k, arr.shape,
                       T, B, want)
    for n, d in expected_params(spec).items():
        for cat in ('parameters', 'gradients'):
            got = {k: tuple(a.shape) for k, a in buf[n][cat].items()}
            ensure(got == d, '%s.%s has shapes %s, expected %s', n, cat, got,
                   d)
    # no two sources overlap
    for key, m in marks.items():
        ensure(np.array_equal(views[key], m), 'writing another array changed '
               '%s', '.'.join(key))
    # sinks
    for l in spec['layers']:
        for i, srcs in l['in'].items():
            for cat, scat, pcat in (('inputs', 'outputs', 'parameters'),
                                    ('input_deltas', 'output_deltas',
                                     'gradients')):
                arr = buf[l['n']][cat][i]
                if srcs[0][1].startswith('..'):
                    m = marks[(srcs[0][0], pcat,
                               srcs[0][1].split('.')[-1])]
                    ensure(np.array_equal(arr, m), '%s.%s.%s is not %s',
                           l['n'], cat, i, srcs[0])
                    continue
                ms = [marks[(s[0], scat, s[1])][:T] for s in srcs]
                shape = (T, B) + tuple(feature_shape(spec, l, i))
                got = np.asarray(arr)
                ensure(got.shape[0] >= T and (T, B) + got.shape[2:] == shape,
                       '%s.%s.%s has shape %s, expected %s', l['n'], cat, i,
                       got.shape, shape)
                got = got[:T]
                if len(ms) == 1:
                    ensure(np.array_equal(got, ms[0]), '%s.%s.%s is not the '
                           'array of its source %s', l['n'], cat, i, srcs)
                    continue
                # a concatenation in some order
                rest, pos = list(range(len(ms))), 0
                while rest:
                    for j in rest:
                        w = ms[j].shape[-1]
                        if np.array_equal(got[..., pos:pos + w], ms[j]):
                            pos += w
                            rest.remove(j)
                            break
                    else:
                        ensure(False, '%s.%s.%s is not the concatenation of '
                               '%s', l['n'], cat, i, srcs)
    # order of concatenation is the same forward and backward
    for l in spec['layers']:
        for i, srcs in l['in'].items():
            if len(srcs) < 2:
                continue

            def order(cat, scat):
                a = np.asarray(buf[l['n']][cat][i])[0, 0]
                return [int(np.argmin(np.abs(
                    a - marks[(s[0], scat, s[1])][0, 0, 0]))) for s in srcs]
            ensure(order('inputs', 'outputs') == order(
                'input_deltas', 'output_deltas'), 'deltas of %s.%s are '
                'arranged differently from its values', l['n'], i)
    # flat vectors
    for cat in ('parameters', 'gradients'):
        flat = np.asarray(buf[cat]) if cat in buf else np.zeros(0)
        own = [m.ravel() for k, m in marks.items() if k[1] == cat]
        own = np.concatenate(own) if own else np.zeros(0)
        ensure(flat.ndim == 1 and np.array_equal(np.sort(flat),
                                                 np.sort(own)),
               'the flat %s vector (size %d) is not made of exactly the '
               'single arrays (%d values)', cat, flat.size, own.size)
    pf, gf = np.asarray(buf.parameters), np.asarray(buf.gradients)
    where = {}
    for k, m in marks.items():
        if k[1] == 'parameters':
            g = marks[(k[0], 'gradients', k[2])]
            for a, b in zip(m.ravel(), g.ravel()):
                where[a] = b
    ensure(pf.size == gf.size and all(where[a] == b for a, b in zip(pf, gf)),
           'gradient vector is not arranged like the parameter vector')
    # writing the flat vector changes exactly the parameters
    new = np.random.RandomState(7).permutation(pf.size) + 0.5
    old = pf.copy()
    buf.parameters[...] = new
    to_new = dict(zip(old, new))
    for k, m in marks.items():
        if k[1] == 'parameters':
            want = np.array([to_new[x] for x in m.ravel()]).reshape(m.shape)
            ensure(np.array_equal(views[k], want), 'writing the flat '
                   'parameter vector does not set %s', '.'.join(k))
        else:
            ensure(np.array_equal(views[k], m), 'writing the flat parameter '
                   'vector changes %s', '.'.join(k))


def check(spec):
    net = nets.build(spec)
    ensure(sorted(net.layers) == sorted(['Input'] + nets.layer_names(spec)),
           'layers are %s', list(net.layers))
    rnd = np.random.RandomState(spec['seed'])
    for T, B in spec['sizes']:
        data = nets.draw_inputs(spec, rnd, T=T, B=B)
        net.provide_external_data(data)
        check_layout(net, spec, T, B, None)
        params = nets.draw_params(net, spec, rnd)
        nets.set_params(net, params)
        for n in params:
            for p, v in params[n].items():
                ensure(np.array_equal(net.get('%s.parameters.%s' % (n, p)),
                                      v), 'parameter %s.%s overlaps another',
                       n, p)
        # after a pass, inputs still show what the sources computed
        net.provide_external_data(data)
        net.forward_pass()
        for l in spec['layers']:
            for i, srcs in l['in'].items():
                if srcs[0][1].startswith('..'):
                    continue
                got = np.asarray(net.buffer[l['n']].inputs[i])[:T]
                cols = [nets.get_output(net, s[0], s[1], T) for s in srcs]
                if len(cols) == 1:
                    ok = np.array_equal(got, cols[0], equal_nan=True)
                else:
                    ok = np.allclose(
                        np.sort(got, -1),
                        np.sort(np.concatenate(cols, -1), -1), 0, 0,
                        equal_nan=True)
                ensure(ok, 'after a pass input %s of %s is not what its '
                       'sources %s hold', i, l['n'], srcs)
    multi = any(len(s) > 1 for l in spec['layers'] for s in l['in'].values())
    cons = [tuple(s) for l in spec['layers'] for ss in l['in'].values()
            for s in ss]
    fan = len(set(cons)) < len(cons)
    return {'multi': multi, 'fanout': fan, 'layouts': len(spec['sizes'])}


def nontrivial(spec, labels):
    return labels['multi'] or labels['fanout']


def known(findings):
    """Concatenated inputs with more than one feature dimension."""
    for f in findings['findings']:
        if f['property'] != ID:
            continue
        yield f['what'], not multi_dim_ok(f['spec'])


def multi_dim_ok(spec):
    """Does the network compute the concatenation along the last axis?"""
    try:
        net = nets.build(spec)
        rnd = np.random.RandomState(0)
        nets.set_params(net, nets.draw_params(net, spec, rnd))
        net.provide_external_data(nets.draw_inputs(spec, rnd))
        net.forward_pass(training_pass=True)
        for l in spec['layers']:
            for i, srcs in l['in'].items():
                if len(srcs) < 2:
                    continue
                a = net.get('%s.inputs.%s' % (l['n'], i))[:spec['T']]
                cols = [nets.get_output(net, s[0], s[1], spec['T'])
                        for s in srcs]
                if not any(np.array_equal(a, np.concatenate(c, -1))
                           for c in (cols, cols[::-1])):
                    return False
        return True
    except Exception:
        return False
