"""C20: array operations match their definition on every shape and layout."""
import inspect

import numpy as np
from hypothesis import strategies as st

from pbt.core import Violation, ensure
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers.base_handler import Handler
from brainstorm.handlers.debug_handler import DebugArray, DebugHandler

ID = 'C20'
QUICK, THOROUGH = 24000, 300000
RULE = ('One operation of the backend on random arrays: random shape '
        '(dimensions of size one and zero included), precision, and for each '
        'array a memory layout (contiguous, Fortran, transposed, slice of a '
        'larger array, every second element); the output may be the same '
        'array as an input where the operation is element-wise. The result '
        'is compared with a definition evaluated in double precision, and '
        'everything around the output, and all inputs, must be untouched. A '
        'part of the cases runs the checking backend on the same data, or '
        'with one wrong shape, wrong type or NaN. Non-trivial: more than one '
        'element.')
ASSUMPTIONS = ['outputs do not overlap inputs partially',
               'indices are within range; arguments of log and sqrt are in '
               'the domain of the function',
               'sums are over one- and two-dimensional arrays, as documented']

LAYOUTS = ['C', 'C', 'F', 'T', 'slice', 'slice', 'step', 'last']

# name -> (kind of shapes, arguments, output may be one of these inputs)
ELT = {  # element-wise: inputs, definition
    'abs_t': ('a', np.abs),
    'sqrt_t': ('p', np.sqrt),
    'log_t': ('p+', np.log),
    'sign_t': ('a', np.sign),
    'add_tt': ('ab', np.add),
    'subtract_tt': ('ab', np.subtract),
    'mult_tt': ('ab', np.multiply),
    'divide_tt': ('ad', np.divide),
    'modulo_tt': ('ad', np.fmod),
}
ACT = {
    'sigmoid': lambda x: np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))),
                                  np.exp(-np.abs(x)) /
                                  (1 + np.exp(-np.abs(x)))),
    'tanh': np.tanh,
    'rel': lambda x: np.maximum(x, 0),
    'el': lambda x: np.where(x >= 0, x, np.expm1(np.minimum(x, 0))),
    'linear': lambda x: x,
}
DER = {
    'sigmoid': lambda y: y * (1 - y),
    'tanh': lambda y: 1 - y * y,
    'rel': lambda y: (y > 0) * 1.0,
    'el': lambda y: np.where(y >= 0, 1.0, y + 1),
    'linear': lambda y: np.ones_like(y),
}
MV = {'add_mv': np.add, 'subtract_mv': np.subtract, 'mult_mv': np.multiply,
      'divide_mv': np.divide, 'mult_add_mv': np.multiply}
OTHER = ['copy_to', 'copy_to_if', 'fill', 'fill_if', 'set_from_numpy',
         'get_numpy_copy', 'create_from_numpy', 'is_fully_finite',
         'add_into_if', 'add_st', 'mult_st', 'mult_add_st', 'mult_add_tt',
         'clip_t', 'dot_mm', 'dot_add_mm', 'binarize_v', 'index_m_by_v',
         'broadcast_t', 'merge_tt', 'split_add_tt', 'sum_t', 'softmax_m',
         'fill_gaussian', 'generate_probability_mask', 'allocate']
OPS = (sorted(ELT) + sorted(MV) + OTHER +
       ['act.' + n for n in sorted(ACT)] + ['deriv.' + n for n in sorted(DER)]
       + ['iact.' + n for n in sorted(ACT)] +
       ['ideriv.' + n for n in sorted(DER)])


@st.composite
def case(draw):
    dim = st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 0])
    if draw(st.integers(0, 24)) == 24:
        dim = st.sampled_from([1, 2, 8, 9, 16, 17, 33])
    wide = draw(st.sampled_from([0] * 15 + [100, 200, 300, 70000]))
    return {'op': draw(st.sampled_from(OPS)),
            'shape': draw(st.lists(dim, min_size=1, max_size=4)),
            'mnk': [draw(dim), draw(dim), draw(dim)],
            'vec': draw(st.sampled_from(['row', 'col', 'col', 'full'])),
            'axis': draw(st.integers(0, 3)), 'wide': wide,
            'flags': [draw(st.booleans()), draw(st.booleans()),
                      draw(st.booleans())],
            's': draw(st.sampled_from([0, 1, -1, 2, 0.5, -1.5, 1e-3, 100.0])),
            'layout': draw(st.lists(st.sampled_from(LAYOUTS), min_size=4,
                                    max_size=4)),
            'alias': draw(st.sampled_from([None, None, 0, 1, 2])),
            'values': draw(st.sampled_from(['normal', 'normal', 'grid',
                                            'wide', 'tiny'])),
            'f32': draw(st.booleans()),
            'mode': draw(st.sampled_from(['numpy', 'numpy', 'debug', 'debug',
                                          'shape', 'type', 'nan'])),
            'bad': draw(st.integers(0, 5)),
            'by_name': draw(st.sampled_from([0, 0, 1, 2, 3, 9])),
            'seed': draw(st.integers(0, 99999))}


def strategy():
    return case()


def values(rs, shape, how, dtype):
    if how == 'grid':
        v = rs.randint(-3, 4, size=shape) / 2.0
    elif how == 'wide':
        v = rs.normal(size=shape) * 10.0 ** rs.randint(-3, 4, size=shape)
    elif how == 'tiny':
        v = rs.normal(size=shape) * 10.0 ** rs.randint(-12, -3, size=shape)
    else:
        v = rs.normal(size=shape)
    return np.asarray(v).astype(dtype)


class Arr(object):
    """A view with the wanted layout inside a larger guard array."""

    def __init__(self, rs, val, layout, dtype):
        shape = val.shape
        nd = len(shape)
        self.layout = layout
        if nd == 0 or layout == 'C':
            self.base = np.zeros(shape, dtype)
            self.view = self.base
        elif layout == 'F':
            self.base = np.zeros(shape, dtype, order='F')
            self.view = self.base
        elif layout == 'T':
            self.base = np.zeros(shape[::-1], dtype)
            self.view = self.base.T
        elif layout == 'slice':
            off = [int(o) for o in rs.randint(0, 3, size=nd)]
            self.base = np.zeros([d + o + 1 for d, o in zip(shape, off)],
                                 dtype)
            self.view = self.base[tuple(slice(o, o + d)
                                        for d, o in zip(shape, off))]
        elif layout == 'step':
            self.base = np.zeros(shape[:-1] + (2 * shape[-1] + 1,), dtype)
            self.view = self.base[..., 1::2]
        else:   # columns of a wider array, as in a buffer shared by layers
            self.base = np.zeros(shape[:-1] + (shape[-1] + 3,), dtype)
            self.view = self.base[..., 2:2 + shape[-1]]
        self.base[...] = rs.normal(size=self.base.shape) * 7 + 100
        self.view[...] = val
        self.reset()

    def reset(self):
        self.before = self.base.copy(order='K')

    def expect(self, val=None):
        """Copy of the base with the view replaced."""
        b = self.before.copy(order='K')
        if val is not None:
            addr = (self.view.__array_interface__['data'][0] -
                    self.base.__array_interface__['data'][0])
            new = np.ndarray(self.view.shape, self.view.dtype, b.data
                             if b.flags.c_contiguous else b.T.data, addr,
                             self.view.strides) \
                if b.size and self.view.size else None
            if new is not None:
                new[...] = val
        return b


class Op(object):
    """Arguments and expected result of one call."""

    def __init__(self):
        self.args = []      # Arr or plain values
        self.outs = {}      # index of argument -> (expected, scale)
        self.elementwise = []   # inputs that the output may be equal to
        self.method = None
        self.random = False
        self.by_name = 0
        self.static = True   # shape mistakes are refused


def build(s, rs, dtype):
    op = s['op']
    o = Op()
    shape = tuple(s['shape'])
    M, N, K = s['mnk']
    how = s['values']
    lay = s['layout']
    sc = float(s['s']) if s['flags'][2] else s['s']
    count = [0]

    def arr(val):
        a = Arr(rs, np.asarray(val), lay[count[0] % 4], dtype)
        count[0] += 1
        return a

    def new(shp, kind='a'):
        v = values(rs, shp, how, dtype)
        if kind[0] == 'p':
            v = np.abs(v)
        if kind == 'p+':
            v = v + dtype(0.0009765625)
        if kind == 'd':
            v = np.where(np.abs(v) < 1e-3, dtype(0.75), v)
        if kind == 'c':
            v = np.where(rs.rand(*shp) < 0.4, 0, np.where(
                rs.rand(*shp) < .5, 1, v))
        return v.astype(dtype)

    def f(a):
        return a.view.astype(np.float64)

    name = op
    if op in ELT:
        kinds, fn = ELT[op]
        if kinds == 'p+':
            kinds = ['p+']
        ins = [arr(new(shape, k)) for k in kinds]
        out = arr(new(shape))
        alias_ok(s, o, ins, [0, 1][:len(ins)])
        o.args = ins + [out]
        vals = [f(a) for a in ins]
        exp = fn(*vals)
        scale = sum(np.abs(v) for v in vals) if op in (
            'add_tt', 'subtract_tt') else np.abs(exp)
        if op == 'modulo_tt':
            # exact in floating point
            scale = np.zeros_like(exp)
        if op == 'log_t':
            scale = np.abs(exp) + 1e-1
        o.outs[len(ins)] = (exp, scale)
    elif op in MV:
        m = arr(new((M, N)))
        vshape = {'row': (1, N), 'col': (M, 1), 'full': (M, N)}[
            s['vec'] if op == 'mult_mv' or s['vec'] != 'full' else 'col']
        v = arr(new(vshape, 'd' if op == 'divide_mv' else 'a'))
        out = arr(new((M, N)))
        o.args = [m, v, out]
        o.elementwise = [0]
        alias_ok(s, o, [m], [0])
        exp = MV[op](f(m), f(v))
        scale = np.abs(exp) + np.abs(f(m)) * (op[:3] in ('add', 'sub'))
        if op[:3] in ('add', 'sub'):
            scale = scale + np.abs(f(v))
        if op == 'mult_add_mv':
            prev = f(m) if s['alias'] == 0 else f(out)
            exp, scale = exp + prev, scale + np.abs(prev)
        o.outs[2] = (exp, scale)
    elif op.startswith(('act.', 'iact.')):
        kind, n = op.split('.')
        x = arr(new(shape))
        exp = ACT[n](f(x))
        if kind == 'act':
            y = arr(new(shape))
            alias_ok(s, o, [x], [0])
            o.args = [x, y]
            o.outs[1] = (exp, np.abs(exp))
        else:
            o.args = [x]
            o.outs[0] = (exp, np.abs(exp))
        if n == 'el':
            o.outs = {i: (e, np.abs(e) + 1) for i, (e, _) in o.outs.items()}
        name = ('act_func' if kind == 'act' else 'inplace_act_func', n)
    elif op.startswith(('deriv.', 'ideriv.')):
        kind, n = op.split('.')
        x = arr(new(shape))
        y = arr(ACT[n](f(x)).astype(dtype))
        dy = arr(new(shape))
        exp = f(dy) * DER[n](f(y))
        scale = np.abs(f(dy))
        if kind == 'deriv':
            dx = arr(new(shape))
            o.args = [x, y, dy, dx]
            alias_ok(s, o, [x, y, dy], [2, 2, 2])
            if s['alias'] is not None:
                s['alias'] = 2
            o.outs[3] = (exp, scale)
            if s['flags'][0] and n != 'linear':
                o.args[0] = None if s['mode'] in ('numpy', 'debug') \
                    else o.args[0]
        else:
            o.args = [y, dy]
            o.outs[1] = (exp, scale)
        name = ('act_func_deriv' if kind == 'deriv'
                else 'inplace_act_func_deriv', n)
    elif op == 'copy_to':
        a, out = arr(new(shape)), arr(new(shape))
        o.args = [a, out]
        alias_ok(s, o, [a], [0])
        o.outs[1] = (f(a), np.zeros(shape))
    elif op in ('copy_to_if', 'add_into_if'):
        a, out, c = arr(new(shape)), arr(new(shape)), arr(new(shape, 'c'))
        o.args = [a, out, c]
        if op == 'copy_to_if':
            exp = np.where(f(c) != 0, f(a), f(out))
            scale = np.zeros(shape)
        else:
            exp = f(out) + np.where(f(c) != 0, f(a), 0)
            scale = np.where(f(c) != 0, np.abs(f(out)) + np.abs(f(a)), 0)
        o.outs[1] = (exp, scale)
    elif op == 'fill':
        out = arr(new(shape))
        o.args = [out, sc]
        o.outs[0] = (np.full(shape, dtype(sc), np.float64), np.zeros(shape))
    elif op == 'fill_if':
        out, c = arr(new(shape)), arr(new(shape, 'c'))
        o.args = [out, sc, c]
        o.outs[0] = (np.where(f(c) != 0, float(dtype(sc)), f(out)),
                     np.zeros(shape))
    elif op == 'set_from_numpy':
        out = arr(new(shape))
        src = new(shape)
        if s['flags'][0]:
            src = np.rint(np.clip(src, -9, 9)).astype(
                'i4' if s['flags'][1] else 'i8')
        elif s['flags'][1]:
            src = src.astype(np.float64)
        o.args = [out, src]
        o.outs[0] = (src.astype(np.float64), np.zeros(shape))
    elif op in ('get_numpy_copy', 'create_from_numpy', 'is_fully_finite',
                'allocate'):
        o.args = [arr(new(shape))]
    elif op in ('add_st', 'mult_st', 'mult_add_st'):
        t, out = arr(new(shape)), arr(new(shape))
        o.args = [sc, t, out]
        alias_ok(s, o, [None, t], [1])
        if op == 'add_st':
            exp, scale = f(t) + sc, np.abs(f(t)) + abs(sc)
        else:
            exp = sc * f(t)
            scale = np.abs(exp)
        if op == 'mult_add_st':
            prev = f(t) if s['alias'] is not None else f(out)
            exp, scale = exp + prev, scale + np.abs(prev)
        o.outs[2] = (exp, scale)
    elif op == 'mult_add_tt':
        a, b, out = arr(new(shape)), arr(new(shape)), arr(new(shape))
        o.args = [a, b, out]
        alias_ok(s, o, [a, b], [0, 1])
        prev = f(out) if s['alias'] is None else f(o.args[s['alias']])
        o.outs[2] = (prev + f(a) * f(b), np.abs(prev) + np.abs(f(a) * f(b)))
    elif op == 'clip_t':
        a, out = arr(new(shape)), arr(new(shape))
        lo, hi = sorted([sc, float(rs.randint(-2, 3))])
        o.args = [a, lo, hi, out]
        alias_ok(s, o, [a], [0])
        o.outs[3] = (np.clip(f(a), float(dtype(lo)), float(dtype(hi))),
                     np.zeros(shape))
    elif op in ('dot_mm', 'dot_add_mm'):
        ta, tb = s['flags'][:2]
        a = arr(new((K, M) if ta else (M, K)))
        b = arr(new((N, K) if tb else (K, N)))
        out = arr(new((M, N)))
        o.args = [a, b, out, ta, tb]
        x = f(a).T if ta else f(a)
        y = f(b).T if tb else f(b)
        exp = x.dot(y)
        scale = np.abs(x).dot(np.abs(y))
        if op == 'dot_add_mm':
            exp, scale = exp + f(out), scale + np.abs(f(out))
        o.outs[2] = (exp, scale)
    elif op == 'binarize_v':
        # (the size of one row; the library builds a square matrix of it)
        N = max(N, s['wide'] % 1000, 1)
        v = arr(rs.randint(0, N, size=(M, 1)).astype(dtype))
        out = arr(new((M, N)))
        o.args = [v, out]
        exp = np.zeros((M, N))
        exp[np.arange(M), v.view[:, 0].astype(int)] = 1
        o.outs[1] = (exp, np.zeros((M, N)))
    elif op == 'index_m_by_v':
        N = max(N, s['wide'], 1)
        m = arr(new((M, N)))
        v = arr(rs.randint(0, N, size=(M, 1)).astype(dtype))
        out = arr(new((M, 1)))
        o.args = [m, v, out]
        exp = np.array([[f(m)[i, int(v.view[i, 0])]] for i in range(M)]
                       ).reshape(M, 1)
        o.outs[2] = (exp, np.zeros((M, 1)))
    elif op == 'broadcast_t':
        ax = s['axis'] % len(shape)
        a = arr(new(shape[:ax] + (1,) + shape[ax + 1:]))
        out = arr(new(shape))
        o.args = [a, ax, out]
        o.outs[2] = (np.broadcast_to(f(a), shape), np.zeros(shape))
    elif op in ('merge_tt', 'split_add_tt'):
        lead = shape[:-1]
        k = max(1, K)
        last = max(1, shape[-1])
        a, b = arr(new(lead + (last,))), arr(new(lead + (k,)))
        x = arr(new(lead + (last + k,)))
        if op == 'merge_tt':
            o.args = [a, b, x]
            o.outs[2] = (np.concatenate([f(a), f(b)], -1),
                         np.zeros(x.view.shape))
        else:
            o.args = [x, a, b]
            for i, (q, part) in enumerate([(a, f(x)[..., :last]),
                                           (b, f(x)[..., last:])]):
                o.outs[1 + i] = (f(q) + part, np.abs(f(q)) + np.abs(part))
    elif op == 'sum_t':
        shp = shape[:2]
        a = arr(new(shp))
        ax = [None, 0, 1][s['axis'] % 3]
        if ax is not None and ax >= len(shp):
            ax = None
        keep = ax is not None and s['flags'][0]
        exp = f(a).sum(axis=ax, keepdims=keep)
        out = Arr(rs, new(np.shape(exp)), 'C' if np.shape(exp) == ()
                  else lay[3], dtype)
        o.args = [a, ax, out]
        o.outs[2] = (exp, np.abs(f(a)).sum(axis=ax, keepdims=keep))
        o.static = False
    elif op == 'softmax_m':
        N = max(N, 1)
        m, out = arr(new((M, N))), arr(new((M, N)))
        o.args = [m, out]
        alias_ok(s, o, [m], [0])
        e = np.exp(f(m) - f(m).max(axis=1, keepdims=True)) if M else f(m)
        exp = e / e.sum(axis=1, keepdims=True) if M else e
        mag = 1 + (np.abs(f(m)).max(axis=1, keepdims=True) if M else 0)
        o.outs[1] = (exp, exp * mag)
    elif op in ('fill_gaussian', 'generate_probability_mask'):
        big = (40 + M, 90) if s['flags'][0] else shape
        out = arr(new(big))
        p = [0.0, 1.0, 0.5, 0.1][s['axis'] % 4]
        o.args = [sc, 2 * p, out] if op == 'fill_gaussian' else [out, p]
        o.outs[2 if op == 'fill_gaussian' else 0] = (None, None)
        o.random = True
    else:
        raise AssertionError(op)
    o.method = name
    if s['alias'] is not None and o.elementwise:
        tgt = max(o.outs)
        o.args[tgt] = o.args[s['alias']]
        o.outs = {s['alias']: o.outs[tgt]}
    else:
        s['alias'] = None
    return o


def alias_ok(s, o, ins, allowed):
    """Remember which input the output may be; fix the choice."""
    o.elementwise = list(allowed)
    if s['alias'] is not None:
        s['alias'] = allowed[s['alias'] % len(allowed)]


def bound(h, method):
    if isinstance(method, tuple):
        return getattr(h, method[0])[method[1]]
    return getattr(h, method)


BY_NAME = {n for n in dir(Handler) if not n.startswith('_') and
           n not in ('allocate', 'get_numpy_copy', 'conv2d_backward_batch',
                     'EMPTY', 'array_type')}


def call(h, o, wrap):
    memo = {}

    def w(a):
        if isinstance(a, Arr):
            if id(a) not in memo:
                memo[id(a)] = wrap(a.view)
            return memo[id(a)]
        return a

    args, kw = [w(a) for a in o.args], {}
    if o.by_name and o.method in BY_NAME:
        # the last arguments by their documented names
        n = max(len(args) - o.by_name, 0)
        names = list(inspect.signature(getattr(Handler, o.method)).parameters)
        kw = dict(zip(names[1:][n:], args[n:]))
        args = args[:n]
    return bound(h, o.method)(*args, **kw)


def verify(s, o, dtype, who):
    eps = np.finfo(dtype).eps
    if isinstance(o.method, tuple) or o.method in (
            'softmax_m', 'dot_mm', 'dot_add_mm', 'sum_t', 'log_t', 'sqrt_t'):
        eps = eps * 16
    tiny = float(np.finfo(dtype).tiny)
    for i, a in enumerate(o.args):
        if not isinstance(a, Arr):
            continue
        if i not in o.outs and all(o.args[j] is not a for j in o.outs):
            ensure(np.array_equal(a.base, a.before),
                   '%s %s changed its argument %d (layout %s, shape %s)',
                   who, s['op'], i, a.layout, a.view.shape)
            continue
        exp, scale = o.outs.get(i, (None, None))
        if exp is None:
            got = a.view.copy()
            ensure(np.array_equal(a.expect(got), a.base),
                   '%s %s wrote outside its output', who, s['op'])
            continue
        err = np.abs(a.view.astype(np.float64) - exp)
        ok = (err <= 4 * eps * scale + tiny)
        ensure(np.all(ok), '%s %s differs from its definition (shape %s, '
               'layout %s, in place: %s): got %r, expected %r', who, s['op'],
               a.view.shape, a.layout, s['alias'],
               a.view[~ok][:3] if np.ndim(ok) else a.view,
               np.asarray(exp)[~ok][:3] if np.ndim(ok) else exp)
        ensure(np.array_equal(a.expect(a.view.copy()), a.base),
               '%s %s wrote outside its output', who, s['op'])


def check_random(s, o, dtype):
    if s['op'] == 'fill_gaussian':
        mean, std, out = o.args
        v = out.view.astype(np.float64)
        if std == 0:
            ensure(np.all(v == dtype(mean)), 'fill_gaussian with std 0: %r',
                   v.ravel()[:3])
        elif v.size > 1000:
            n = v.size
            ensure(abs(v.mean() - mean) < 7 * std / n ** 0.5 and
                   abs(v.std() / std - 1) < 7 / (2 * n) ** 0.5,
                   'fill_gaussian(%s, %s) over %d values has mean %s and '
                   'standard deviation %s', mean, std, n, v.mean(), v.std())
        return
    out, p = o.args
    v = out.view
    ensure(np.all((v == 0) | (v == 1)), 'probability mask has values other '
           'than 0 and 1')
    if p in (0, 1):
        ensure(np.all(v == p), 'mask with probability %s has other values', p)
    elif v.size > 1000:
        ensure(abs(v.mean() - p) < 7 * (p * (1 - p) / v.size) ** 0.5,
               'mask with probability %s has mean %s', p, v.mean())


def check_plain(s, o, h, wrap, unwrap, dtype, who):
    """Operations that return something."""
    a = o.args[0]
    op = s['op']
    if op == 'allocate':
        shape = tuple(s['shape'])
        for n in ('allocate', 'zeros', 'ones'):
            r = unwrap(getattr(h, n)(shape))
            ensure(r.shape == shape and r.dtype == dtype,
                   '%s %s: %s %s', who, n, r.shape, r.dtype)
            if n != 'allocate':
                ensure(np.all(r == (n == 'ones')), '%s %s has other values',
                       who, n)
            r[...] = 1
    elif op == 'create_from_numpy':
        r = unwrap(h.create_from_numpy(a.view))
        ensure(r.shape == a.view.shape and np.array_equal(r, a.view),
               '%s create_from_numpy differs', who)
        ensure(not np.shares_memory(r, a.base), '%s create_from_numpy '
               'shares memory with its argument', who)
    elif op == 'get_numpy_copy':
        r = h.get_numpy_copy(wrap(a.view))
        ensure(isinstance(r, np.ndarray) and np.array_equal(r, a.view) and
               not np.shares_memory(r, a.base), '%s get_numpy_copy is not a '
               'copy', who)
    else:
        ensure(bool(h.is_fully_finite(wrap(a.view))) is True,
               '%s is_fully_finite of finite values', who)
        if a.view.size:
            idx = np.unravel_index(s['bad'] * 7 % a.view.size, a.view.shape)
            for bad in (np.nan, np.inf, -np.inf):
                keep = a.view[idx]
                a.view[idx] = bad
                r = h.is_fully_finite(wrap(a.view))
                a.view[idx] = keep
                ensure(not r, '%s is_fully_finite with %s at %s', who, bad,
                       idx)
    ensure(np.array_equal(a.base, a.before), '%s %s changed its argument',
           who, op)


PLAIN = ('get_numpy_copy', 'create_from_numpy', 'is_fully_finite', 'allocate')


def refused(s, o, h, rs, dtype):
    """One wrong argument must be refused by the checking backend."""
    mode = s['mode']
    slots = [i for i, a in enumerate(o.args) if isinstance(a, Arr)]
    if mode == 'shape':
        if not o.static or len(slots) < 2 or 'linear' in s['op']:
            return 'n/a'
        i = slots[s['bad'] % len(slots)]
        shape = list(o.args[i].view.shape)
        # a dimension that the other arguments fix
        ax = len(shape) - 1 if s['op'] in ('merge_tt', 'split_add_tt') \
            else s['axis'] % len(shape)
        if s['op'] in ('binarize_v',):
            i, shape, ax = 0, [o.args[0].view.shape[0], 1], 0
        if s['op'] == 'broadcast_t' and ax == o.args[1]:
            i = 0
            shape = list(o.args[0].view.shape)
        if s['op'] == 'index_m_by_v' and i == 0:
            ax = 0
        if s['op'].endswith('_mv') and i == 1:
            # becomes neither a row, a column nor a full matrix
            m = o.args[0].view.shape
            fits = [(m[0], 1), (1, m[1]), m]
            shapes = [x for x in [
                (m[0] + 3, m[1] + 2), (m[0] + 1, 1), (1, m[1] + 1), m[:1],
                m[1:], (m[1], 1), (1, m[0]), m + (1,), (m[1], m[0])]
                if x not in fits]
            shape = list(shapes[s['seed'] % len(shapes)])
            ax = None
        if s['op'] in ELT and s['seed'] % 3 == 0:
            # the same number of elements
            ax = None
            shape = shape + [1] if s['seed'] % 2 else [1] + shape
        if ax is not None:
            shape[ax] += 1
        wrong = Arr(rs, values(rs, tuple(shape), 'normal', dtype),
                    'C', dtype)
        args = list(o.args)
        args[i] = wrong
        want = AssertionError
        what = 'shapes %s' % [a.view.shape for a in args
                              if isinstance(a, Arr)]
        o2 = Op()
        o2.args, o2.method = args, o.method
        try:
            call(h, o2, DebugArray)
        except want:
            pass
        else:
            raise Violation('the checking backend accepted %s with %s' % (
                s['op'], what))
        for a in [a for a in args if isinstance(a, Arr)]:
            ensure(np.array_equal(a.base, a.before), 'refused call of %s '
                   'changed an array', s['op'])
        return 'shape'
    if mode == 'type':
        if not slots:
            return 'n/a'
        i = slots[s['bad'] % len(slots)]
        memo = {}
        args = [memo.setdefault(id(a), DebugArray(a.view))
                if isinstance(a, Arr) else a for a in o.args]
        if 'linear' in s['op']:
            return 'n/a'    # some arguments are not used
        args[i] = o.args[i].view
        try:
            bound(h, o.method)(*args)
        except (AssertionError, AttributeError):
            return 'type'
        raise Violation('the checking backend accepted a plain numpy '
                        'array for argument %d of %s' % (i, s['op']))
    # not a number in an input
    ins = [i for i in slots if i not in o.outs and o.args[i].view.size and
           all(o.args[j] is not o.args[i] for j in o.outs)]
    if not ins or s['op'] in ('binarize_v', 'index_m_by_v') or \
            'linear' in s['op']:
        return 'n/a'
    a = o.args[ins[s['bad'] % len(ins)]]
    idx = np.unravel_index(s['seed'] % a.view.size, a.view.shape)
    a.view[idx] = [np.nan, np.inf, -np.inf][s['bad'] % 3]
    try:
        with np.errstate(all='ignore'):
            call(h, o, DebugArray)
    except ValueError:
        return 'nan'
    raise Violation('the checking backend did not report %r in an argument '
                    'of %s' % (a.view[idx], s['op']))


def check(s):
    s = dict(s)
    dtype = np.float32 if s['f32'] else np.float64
    rs = np.random.RandomState(s['seed'])
    n = NumpyHandler(dtype)
    debug = s['mode'] != 'numpy'
    handlers = [(n, lambda a: a, lambda a: a, 'numpy backend')]
    if debug:
        handlers.append((DebugHandler(NumpyHandler(dtype)), DebugArray,
                         lambda a: a.array, 'checking backend'))
    labels = {'op': s['op'], 'mode': s['mode'], 'f32': s['f32'],
              'in_place': False, 'empty': False, 'size': 0}
    o = build(s, rs, dtype)
    o.by_name = s.get('by_name', 0)
    arrays = [a for a in o.args if isinstance(a, Arr)]
    labels['empty'] = any(a.view.size == 0 for a in arrays)
    labels['size'] = min(2, max(a.view.size for a in arrays))
    labels['in_place'] = s['alias'] is not None
    if labels['empty'] and s['op'] in ('binarize_v',) and debug:
        handlers = handlers[:1]
        s['mode'] = 'numpy'
    if s['mode'] in ('shape', 'type', 'nan') and s['op'] not in PLAIN:
        labels['mode'] = refused(s, o, handlers[1][0], rs, dtype)
        return labels
    start = {id(a): a.before for a in arrays}
    results = []
    for h, wrap, unwrap, who in handlers:
        for a in arrays:
            a.base[...] = start[id(a)]
        if o.random:
            (h.handler if debug and h is not n else h).rnd.set_seed(77)
        if s['op'] in PLAIN:
            check_plain(s, o, h, wrap, unwrap, dtype, who)
            continue
        call(h, o, wrap)
        verify(s, o, dtype, who)
        if o.random:
            check_random(s, o, dtype)
        results.append([a.base.copy() for a in arrays])
    if len(results) == 2:
        ensure(all(np.array_equal(x, y) for x, y in zip(*results)),
               'the checking backend gives another result for %s', s['op'])
    return labels


def nontrivial(s, labels):
    return labels['size'] > 1
