"""C29: every buffer is found under its path; reports are true."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from pbt import nets
from pbt.core import ensure
from brainstorm.handlers import NumpyHandler
from brainstorm.structure.buffer_views import BufferView
from brainstorm.tools import (draw_network, get_network_info,
                              print_network_info)
from brainstorm.utils import flatten_keys, get_by_path

ID = 'C29'
QUICK, THOROUGH = 4000, 60000
RULE = ('Random networks (also with layer and input names that are easily '
        'confused with attributes) and sequences of resizing, passes and '
        'handler changes; after each, all arrays are addressed by dotted '
        'path, by chained names, by attribute and by position, which must '
        'give the same memory; copies must be independent; paths changed at '
        'random must raise KeyError unless they are valid; the report of the '
        'network is parsed and compared, and the edges of its drawing (given '
        'to a stand-in for pygraphviz) with its connections. Also random nested dictionaries for '
        'the path tools. Non-trivial: at least two layers.')
ASSUMPTIONS = ['attribute access is not available for names of methods of '
               'the view']
RESERVED = {'items', 'keys', 'values', 'adjust', '_asdict', '_keys',
            '_full_buffer', '_buffer_names'}
CATS = ['inputs', 'outputs', 'parameters', 'internals', 'input_deltas',
        'output_deltas', 'gradients']
TREES = st.recursive(st.integers(0, 3), lambda c: st.dictionaries(
    st.sampled_from(['a', 'b', 'ab', 'x']), c, max_size=3), max_leaves=8)


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 9)) == 9:
        return {'tree': draw(st.dictionaries(
            st.sampled_from(['a', 'b', 'ab', 'x']), TREES, max_size=3)),
            'layers': [], 'path': draw(st.lists(st.sampled_from(
                ['a', 'b', 'ab', 'x', '']), min_size=1, max_size=4))}
    spec = draw(nets.net_specs(max_layers=4, max_heads=2))
    spec['ops'] = draw(st.lists(st.sampled_from(
        ['resize', 'resize', 'train', 'handler', 'init']), max_size=3))
    spec['wrong'] = draw(st.lists(st.tuples(
        st.sampled_from(['drop', 'append', 'change', 'swap', 'dot', 'case',
                         'cut']), st.integers(0, 10 ** 6),
        st.sampled_from(['x', '0', 'default', 'outputs', '', 'W', 'items',
                         'Input', '_keys'])),
        min_size=3, max_size=8))
    return spec


def strategy():
    return strategy_()


def check_tree(spec):
    tree, path = spec['tree'], spec['path']

    def leaves(d, prefix):
        res = {}
        for k, v in d.items():
            if isinstance(v, dict):
                res.update(leaves(v, prefix + [k]))
            else:
                res['.'.join(prefix + [k])] = v
        return res
    want = leaves(tree, [])
    ensure(sorted(flatten_keys(tree)) == sorted(want), 'flatten_keys of %s '
           'gives %s', tree, flatten_keys(tree))
    for k, v in want.items():
        ensure(get_by_path(tree, k) == v, 'path %s of %s', k, tree)
    node, found = tree, True
    for p in path:
        if not isinstance(node, dict) or p not in node:
            found = False
            break
        node = node[p]
    try:
        got = get_by_path(tree, '.'.join(path))
    except KeyError:
        ensure(not found, 'path %s of %s is not found', path, tree)
    else:
        ensure(found and got is node, 'path %s of %s gives %s', path, tree,
               got)
    return {'layers': 0, 'tree': True}


def all_arrays(net, spec):
    """The paths that must exist, from the definition of the layers."""
    res = ['parameters', 'gradients']
    outs = {'Input': list(spec['inputs'])}
    for l in spec['layers']:
        outs[l['n']] = ['loss'] if l['t'] == 'Loss' else list(
            net.layers[l['n']].out_shapes)
    for n in outs:
        res += ['%s.outputs.%s' % (n, o) for o in outs[n]]
        res += ['%s.output_deltas.%s' % (n, o) for o in outs[n]]
    for l in spec['layers']:
        for i in l['in']:
            res += ['%s.inputs.%s' % (l['n'], i),
                    '%s.input_deltas.%s' % (l['n'], i)]
        for p in nets.PARAM_NAMES.get(l['t'], []):
            res += ['%s.parameters.%s' % (l['n'], p),
                    '%s.gradients.%s' % (l['n'], p)]
        for k in net.layers[l['n']].internal_shapes:
            res.append('%s.internals.%s' % (l['n'], k))
    return res


def same_memory(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.strides == \
        b.strides and a.__array_interface__['data'] == \
        b.__array_interface__['data']


def check_addresses(net, spec, paths):
    buf = net.buffer
    tops = {p.split('.')[0] for p in paths} | {'Input'}
    ensure(set(buf.keys()) == tops and len(buf) == len(tops) and
           set(dict(buf.items())) == tops and
           len(list(buf.values())) == len(tops), 'the network has buffers '
           '%s, expected %s', sorted(buf.keys()), sorted(tops))
    for t in tops - {'parameters', 'gradients'}:
        v = buf[t]
        ensure(sorted(v.keys()) == sorted(CATS), 'categories of %s: %s', t,
               sorted(v.keys()))
        for c in CATS:
            want = sorted(p.split('.')[2] for p in paths if
                          p.startswith(t + '.' + c + '.'))
            ensure(sorted(v[c].keys()) == want, '%s.%s has %s, expected %s',
                   t, c, sorted(v[c].keys()), want)
            ensure(all(k in v[c] for k in want) and 'nope' not in v[c],
                   'membership in %s.%s', t, c)
    for p in paths:
        parts = p.split('.')
        a = buf[p]
        ensure(isinstance(a, np.ndarray), '%s is no array', p)
        chain, attr, pos = buf, buf, buf
        for q in parts:
            names = list(pos.keys())
            i = names.index(q)
            ensure(pos[i] is pos[q] or same_memory(pos[i], pos[q]) if
                   isinstance(pos[i], np.ndarray) else pos[i] is pos[q],
                   'position %d of %s is not %s', i, names, q)
            chain, pos = chain[q], pos[i]
            attr = attr[q] if q in RESERVED or attr is None else \
                getattr(attr, q)
        for other, how in ((chain, 'by chained names'),
                           (attr, 'by attribute'), (pos, 'by position')):
            ensure(same_memory(a, other), '%s found %s is another array', p,
                   how)
        c = net.get(p)
        ensure(type(c) is np.ndarray and c.shape == a.shape and
               c.dtype == a.dtype and np.array_equal(c, a, equal_nan=True),
               'net.get(%s) is not a copy of the array', p)
        ensure(not np.shares_memory(c, a), 'net.get(%s) is not independent',
               p)
    for i in spec['inputs']:
        ensure(np.array_equal(net.get_input(i), buf['Input.outputs.' + i],
                              equal_nan=True), 'get_input(%s)', i)


def check_wrong(net, spec, paths):
    valid = set(paths)
    n = 0
    for how, k, word in spec['wrong']:
        parts = paths[k % len(paths)].split('.')
        i = k // 7 % len(parts)
        if how == 'drop':
            parts = parts[:i] + parts[i + 1:]
        elif how == 'append':
            parts.append(word)
        elif how == 'change':
            parts[i] = word
        elif how == 'swap':
            j = k // 31 % len(parts)
            parts[i], parts[j] = parts[j], parts[i]
        elif how == 'dot':
            parts.insert(i, '')
        elif how == 'case':
            parts[i] = parts[i].swapcase()
        elif how == 'cut':
            parts[i] = parts[i][:-1]
        p = '.'.join(parts)
        if p in valid:
            continue
        n += 1
        try:
            got = net.get(p)
        except KeyError:
            pass
        else:
            ensure(False, 'net.get(%r) gives %s instead of a KeyError', p,
                   getattr(got, 'shape', got))
        try:
            got = net.buffer[p]
        except KeyError:
            continue
        ensure(isinstance(got, BufferView) and any(
            q.startswith(p + '.') for q in
            paths + ['%s.%s.' % (l, c) for l in net.layers for c in CATS]),
            'the path %r leads to %s', p, type(got))
    return n


def numbers(text):
    return [int(x) for x in re.findall(r'\d+', text)]


def check_report(net, spec):
    info = get_network_info(net)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_network_info(net)
    ensure(info.strip() in out.getvalue(), 'print_network_info prints '
           'something else')
    blocks = re.split(r'-{20,}', info)
    total = net.get('parameters').size
    head = re.search(r'total number of parameters: *(\d+)', blocks[0])
    ensure(head and int(head.group(1)) == total, 'the report says %s, there '
           'are %d parameters', blocks[0].splitlines()[:1], total)
    blocks[0] = blocks[0][head.end():]
    blocks = [b for b in blocks if b.strip()]
    ensure(len(blocks) == len(net.layers), 'report of %d layers instead of '
           '%d', len(blocks), len(net.layers))
    shapes = nets.param_shapes(net)
    for b, (name, layer) in zip(blocks, net.layers.items()):
        lines = b.strip().splitlines()
        ensure(lines[0].strip() == name, 'layer %s is reported as %r', name,
               lines[0])
        text = '\n'.join(lines[1:])
        m = re.search(r'number of parameters: *(\d+)', text)
        mine = shapes.get(name, {})
        count = sum(int(np.prod(s)) for s in mine.values())
        ensure(m and int(m.group(1)) == count, 'layer %s has %d parameters, '
               'report: %s', name, count, m and m.group(0))
        for p, s in mine.items():
            ensure(re.search(r'(^|\s)%s *%s' % (re.escape(p), re.escape(
                str(tuple(s)))), text[:m.start()]), 'parameter %s %s of %s '
                'is not in the report: %s', p, s, name, text[:m.start()])
        ins, _, outs = text[m.end():].partition('output shapes')
        for part, want in ((ins, layer.in_shapes), (outs, layer.out_shapes)):
            found = re.findall(r'(\w+) *\(([^)]*)\)', part)
            found = {a: tuple(numbers(c)) for a, c in found}
            if name == 'Input' or part is outs:
                true = {o: tuple(nets.out_shape(spec, (name, o)))
                        if name != 'Input' else tuple(spec['inputs'][o])
                        for o in want}
                if name != 'Input' and [
                        l for l in spec['layers'] if l['n'] == name
                        ][0]['t'] == 'Loss':
                    true = {'loss': (1,)}
                if part is ins:
                    true = {}
            else:
                true = {i: tuple(net.buffer[name].inputs[i].shape[2:])
                        if 'T' in want[i].shape else
                        tuple(net.buffer[name].inputs[i].shape)
                        for i in want}
            ensure(found == true, 'layer %s: the report says %s, true is %s',
                   name, found, true)


class Recorder(object):
    """Stands in for pygraphviz.AGraph."""
    drawn = None

    def __init__(self, *args, **kwargs):
        self.edges = set()
        self.nodes = set()
        self.directed = kwargs.get('directed')

    def add_edge(self, u, v=None, *args, **kwargs):
        u, v = u if v is None else (u, v)
        self.edges.add((str(u), str(v)))

    def add_edges_from(self, edges, **kwargs):
        for e in edges:
            self.add_edge(e[0], e[1])

    def add_node(self, n, **kwargs):
        self.nodes.add(str(n))

    def add_nodes_from(self, nodes, **kwargs):
        self.nodes |= {str(n) for n in nodes}

    def layout(self, *args, **kwargs):
        pass

    def draw(self, path=None, *args, **kwargs):
        with open(path, 'wb') as f:
            f.write(b'no picture')
        Recorder.drawn = (path, self)


def check_drawing(net, spec):
    stub = types.ModuleType('pygraphviz')
    stub.AGraph = Recorder
    old = sys.modules.get('pygraphviz')
    tmp = tempfile.mkdtemp(prefix='c29-')
    sys.modules['pygraphviz'] = stub
    Recorder.drawn = None
    try:
        path = os.path.join(tmp, 'net.png')
        with contextlib.redirect_stdout(io.StringIO()):
            draw_network(net, path)
        ensure(Recorder.drawn is not None and Recorder.drawn[0] == path,
               'the drawing is written to %s', Recorder.drawn)
        g = Recorder.drawn[1]
    finally:
        shutil.rmtree(tmp)
        sys.modules.pop('pygraphviz')
        if old is not None:
            sys.modules['pygraphviz'] = old
    want = {(s[0], l['n']) for l in spec['layers']
            for srcs in l['in'].values() for s in srcs}
    ensure(g.edges == want, 'the drawing has the edges %s, the network %s',
           sorted(g.edges), sorted(want))
    ensure(g.directed, 'the drawing is not directed')


def check(spec):
    if 'tree' in spec:
        return check_tree(spec)
    net, _, params, data, rnd = nets.prepare(spec)
    paths = all_arrays(net, spec)
    check_addresses(net, spec, paths)
    wrong = check_wrong(net, spec, paths)
    check_report(net, spec)
    check_drawing(net, spec)
    for op in spec['ops']:
        if op == 'resize':
            net.provide_external_data(nets.draw_inputs(
                spec, rnd, T=1 + rnd.randint(5), B=1 + rnd.randint(4)))
        elif op == 'train':
            net.provide_external_data(data)
            net.forward_pass(training_pass=True)
            net.backward_pass()
        elif op == 'handler':
            net.set_handler(NumpyHandler(
                [np.float64, np.float32][rnd.randint(2)]))
        else:
            net.initialize(0.5)
            ensure(np.all(net.buffer.parameters == 0.5), 'initialisation '
                   'writes to another array')
        check_addresses(net, spec, paths)
    check_wrong(net, spec, paths)
    before = net.get('parameters')
    check_report(net, spec)
    ensure(np.array_equal(before, net.get('parameters')), 'reporting changes '
           'the parameters')
    return {'layers': len(spec['layers']), 'wrong': wrong,
            'ops': len(spec['ops'])}


def nontrivial(spec, labels):
    return labels['layers'] >= 2 or labels.get('tree')
