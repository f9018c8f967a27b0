"""C21: convolution, pooling and cropping kernels match their definition."""
import itertools

import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from pbt import nets, ref
from pbt.core import Violation, ensure
from brainstorm import layers as L
from brainstorm.handlers import NumpyHandler
from brainstorm.handlers import _cpuop
from brainstorm.handlers.debug_handler import DebugArray, DebugHandler
from brainstorm.initializers import Gaussian

ID = 'C21'
QUICK, THOROUGH = 24000, 300000
RULE = ('(a) The kernels on random geometries (image sizes 1 to 9, at times to 23, channels, '
        'window, stride, padding also larger than the window, number of '
        'images also zero), both precisions, contents with ties, constant '
        'and negative images. The arrays lie, image by image, in larger '
        'arrays filled with NaN, whose content must not change. Results are '
        'compared with an independent direct implementation; gradients are '
        'accumulated onto random content. With ties the gradient of every '
        'window must go to exactly one of its maxima. (b) Crops at random '
        'offsets. (c) Output shapes of Convolution2D and Pooling2D layers '
        'against the counted number of placements; no placement: refused. '
        'Non-trivial: more than one window position, or more than one crop '
        'position.')
ASSUMPTIONS = ['each single image is contiguous, as in all buffers of a '
               'network; for pooling the whole batch (other arrays are '
               'refused)', 'windows and strides are positive',
               'images of fewer than 2**24 values in single precision '
               '(larger ones: known finding)']


@st.composite
def geometry(draw):
    big = draw(st.integers(0, 24)) == 24
    dim = st.integers(1, 23 if big else 9)
    win = st.integers(1, 11 if big else 5)
    step = st.integers(1, 12 if big else 6)
    return {'size': [draw(dim), draw(dim)], 'k': [draw(win), draw(win)],
            'stride': [draw(step), draw(step)],
            'pad': draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 5] +
                                        [7, 11] * big)),
            'C': draw(st.sampled_from([1, 1, 2, 3, 7] + [16, 33] * big))}


@st.composite
def kernel_case(draw):
    s = draw(geometry())
    s['kind'] = draw(st.sampled_from(['conv', 'max', 'max', 'avg']))
    s['N'] = draw(nets.rarely(st.sampled_from([1, 1, 2, 3, 0]),
                              st.sampled_from([5, 9, 17])))
    s['F'] = draw(nets.rarely(st.integers(1, 4), st.sampled_from([8, 17])))
    s['f32'] = draw(st.booleans())
    s['values'] = draw(st.sampled_from(['normal', 'normal', 'grid', 'const',
                                        'negative', 'binary']))
    s['gap'] = [draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    s['debug'] = draw(st.integers(0, 3)) == 0
    s['seed'] = draw(st.integers(0, 99999))
    return s


@st.composite
def crop_case(draw):
    dim = nets.rarely(st.integers(1, 7), st.integers(8, 19))
    h, w = draw(dim), draw(dim)
    ch, cw = draw(st.integers(1, h)), draw(st.integers(1, w))
    N = draw(nets.rarely(st.integers(1, 4), st.integers(5, 19)))
    return {'kind': 'crop', 'size': [h, w], 'crop': [ch, cw], 'N': N,
            'T': draw(nets.rarely(st.integers(1, 3), st.integers(4, 19), 12)),
            'C': draw(nets.rarely(st.integers(1, 4), st.integers(5, 19))),
            'rows': draw(st.lists(st.integers(0, h - ch), min_size=N,
                                  max_size=N)),
            'cols': draw(st.lists(st.integers(0, w - cw), min_size=N,
                                  max_size=N)),
            'f32': draw(st.booleans()), 'seed': draw(st.integers(0, 99999))}


@st.composite
def size_case(draw):
    s = draw(geometry())
    s['size'] = [draw(st.integers(1, 40)), draw(st.integers(1, 40))]
    s['k'] = [draw(st.integers(1, 12)), draw(st.integers(1, 12))]
    s['kind'] = 'shape'
    s['layer'] = draw(st.sampled_from(['conv', 'max', 'avg']))
    s['F'] = draw(st.integers(1, 5))
    s['lists'] = draw(st.booleans())
    s['defaults'] = draw(st.integers(0, 4)) == 0
    return s


def strategy():
    return st.one_of(kernel_case(), kernel_case(), kernel_case(),
                     kernel_case(), crop_case(), size_case())


class Buf(object):
    """N contiguous items, spread over a larger array full of NaN."""

    def __init__(self, val, gap, dtype):
        val = np.asarray(val, dtype)
        n, size = val.shape[0], int(np.prod(val.shape[1:]))
        self.base = np.full((n + 2, gap[0] + size + gap[1]), np.nan, dtype)
        inner = self.base[1:n + 1, gap[0]:gap[0] + size]
        self.view = inner.reshape(val.shape)
        if val.size:
            assert np.shares_memory(self.view, self.base)
        self.gap, self.n, self.size = gap, n, size
        self.view[...] = val

    def clean(self, what):
        b = self.base.copy()
        b[1:self.n + 1, self.gap[0]:self.gap[0] + self.size] = np.nan
        ensure(np.all(np.isnan(b)), '%s: wrote outside of an array', what)
        ensure(not np.isnan(self.view).any(), '%s: read outside of an array '
               '(NaN in the result)', what)


def content(rs, how, shape):
    if how == 'grid':
        return rs.randint(-2, 3, size=shape).astype(float)
    if how == 'const':
        return np.full(shape, rs.choice([-1.0, 0.0, 2.0]))
    if how == 'negative':
        return -1 - np.abs(rs.normal(size=shape))
    if how == 'binary':
        return (rs.rand(*shape) < 0.5) * 1.0
    return rs.normal(size=shape)


def placements(size, k, stride, pad):
    """Number of complete placements of the window, counted."""
    n, pos = 0, -pad
    while pos + k <= size + pad:
        n += 1
        pos += stride
    return n


def windows(s, oh, ow):
    """Yield (i, j, rows, cols) of the pixels of the image in each window."""
    H, W = s['size']
    for i, j in itertools.product(range(oh), range(ow)):
        r0, c0 = i * s['stride'][0] - s['pad'], j * s['stride'][1] - s['pad']
        yield (i, j, [r for r in range(r0, r0 + s['k'][0]) if 0 <= r < H],
               [c for c in range(c0, c0 + s['k'][1]) if 0 <= c < W])


def near(a, b, scale, dtype, n=1):
    eps = float(np.finfo(dtype).eps)
    return np.abs(np.asarray(a, np.float64) - b) <= \
        (8 + 2 * n) * eps * scale + 1e-300


def compare(what, got, exp, scale, dtype, n):
    ok = near(got, exp, scale, dtype, n)
    ensure(ok.all(), '%s differs from the definition: got %r, expected %r at '
           '%s', what, got[~ok][:3], np.asarray(exp)[~ok][:3],
           np.argwhere(~ok)[:2].tolist())


def check_conv(s, h, wrap, rs, dtype, oh, ow):
    N, C, F = s['N'], s['C'], s['F']
    H, W = s['size']
    kh, kw = s['k']
    gap, pad, stride = s['gap'], s['pad'], tuple(s['stride'])
    x = Buf(content(rs, s['values'], (N, H, W, C)), gap, dtype)
    w = Buf(rs.normal(size=(F, kh, kw, C)), [0, 0], dtype)
    b = Buf(rs.normal(size=(1, F)), gap, dtype)
    bias = b.view[0]
    out = Buf(rs.normal(size=(N, oh, ow, F)), gap, dtype)
    x64, w64, b64 = [np.array(v, np.float64) for v in (x.view, w.view, bias)]
    h.conv2d_forward_batch(wrap(x.view), wrap(w.view), wrap(bias),
                           wrap(out.view), pad, stride)
    n = kh * kw * C
    exp = ref.conv2d(x64, w64, b64, stride, pad)
    scale = ref.conv2d(np.abs(x64), np.abs(w64), np.abs(b64), stride, pad)
    for q in (x, w, b, out):
        q.clean('conv2d forward')
    compare('conv2d output', out.view, exp, scale, dtype, n)
    dy = Buf(rs.normal(size=out.view.shape), gap, dtype)
    dx = Buf(rs.normal(size=x.view.shape), gap, dtype)
    dw = Buf(rs.normal(size=w.view.shape), [0, 0], dtype)
    db = Buf(rs.normal(size=(1, F)), gap, dtype)
    e = {k: np.array(v.view, np.float64) for k, v in
         (('dx', dx), ('dw', dw), ('db', db))}
    sc = {k: np.abs(v) for k, v in e.items()}
    dy64 = np.array(dy.view, np.float64)
    xp = np.zeros((N, H + 2 * pad, W + 2 * pad, C))
    xp[:, pad:pad + H, pad:pad + W] = x64
    dxp, sxp = np.zeros_like(xp), np.zeros_like(xp)
    for i, j in itertools.product(range(oh), range(ow)):
        r, c = i * stride[0], j * stride[1]
        win = xp[:, r:r + kh, c:c + kw]
        d = dy64[:, i, j]
        e['dw'] += np.einsum('nf,nhwc->fhwc', d, win)
        sc['dw'] += np.einsum('nf,nhwc->fhwc', np.abs(d), np.abs(win))
        dxp[:, r:r + kh, c:c + kw] += np.einsum('nf,fhwc->nhwc', d, w64)
        sxp[:, r:r + kh, c:c + kw] += np.einsum('nf,fhwc->nhwc', np.abs(d),
                                                np.abs(w64))
    e['dx'] += dxp[:, pad:pad + H, pad:pad + W]
    sc['dx'] += sxp[:, pad:pad + H, pad:pad + W]
    e['db'] += dy64.sum((0, 1, 2))
    sc['db'] += np.abs(dy64).sum((0, 1, 2))
    h.conv2d_backward_batch(wrap(x.view), wrap(w.view), pad, stride,
                            wrap(dx.view), wrap(dy.view), wrap(dw.view),
                            wrap(db.view[0]))
    for q in (x, w, b, out, dy, dx, dw, db):
        q.clean('conv2d backward')
    steps = 2 * N * oh * ow + n + F
    compare('gradient of the image', dx.view, e['dx'], sc['dx'], dtype, steps)
    compare('gradient of the filters', dw.view, e['dw'], sc['dw'], dtype,
            steps)
    compare('gradient of the bias', db.view, e['db'], sc['db'], dtype, steps)
    ensure(np.array_equal(np.array(x.view, np.float64), x64) and
           np.array_equal(np.array(w.view, np.float64), w64) and
           np.array_equal(np.array(bias, np.float64), b64) and
           np.array_equal(np.array(dy.view, np.float64), dy64),
           'an input of the convolution was changed')


def check_max(s, h, wrap, rs, dtype, oh, ow):
    N, C = s['N'], s['C']
    H, W = s['size']
    gap, pad, stride, k = [0, 0], s['pad'], tuple(s['stride']), tuple(s['k'])
    x = Buf(content(rs, s['values'], (N, H, W, C)), gap, dtype)
    out = Buf(rs.normal(size=(N, oh, ow, C)), gap, dtype)
    arg = Buf(rs.normal(size=(N, oh, ow, C)) * 50, gap, dtype)
    x0 = x.view.copy()
    h.maxpool2d_forward_batch(wrap(x.view), k, wrap(out.view), pad, stride,
                              wrap(arg.view))
    for q in (x, out, arg):
        q.clean('max pooling forward')
    exp = np.zeros((N, oh, ow, C))
    maxima = {}     # (i, j) -> mask of maxima over (N, H, W, C)
    for i, j, rows, cols in windows(s, oh, ow):
        if not rows or not cols:
            continue
        win = x0[:, rows[0]:rows[-1] + 1, cols[0]:cols[-1] + 1]
        exp[:, i, j] = win.max((1, 2)) if N else 0
        m = np.zeros((N, H, W, C), bool)
        if N:
            m[:, rows[0]:rows[-1] + 1, cols[0]:cols[-1] + 1] = \
                win == win.max((1, 2), keepdims=True)
        maxima[i, j] = m
    ensure(np.array_equal(out.view, exp), 'max pooling gives %r, expected %r',
           out.view[out.view != exp][:3], exp[out.view != exp][:3])
    # every window has its own bit, so that the pixel that received its
    # gradient can be told
    keys = sorted(maxima)
    bits = 22 if s['f32'] else 50
    for start in range(0, max(len(keys), 1), bits):
        part = keys[start:start + bits]
        d = np.zeros((N, oh, ow, C))
        for b, (i, j) in enumerate(part):
            d[:, i, j] = 2.0 ** b
        for i, j in itertools.product(range(oh), range(ow)):
            if (i, j) not in maxima:
                d[:, i, j] = 0.5   # must not arrive anywhere
        dy = Buf(d, gap, dtype)
        dx = Buf(np.zeros(x0.shape), gap, dtype)
        h.maxpool2d_backward_batch(wrap(x.view), k, wrap(out.view), pad,
                                   stride, wrap(arg.view), wrap(dx.view),
                                   wrap(dy.view))
        for q in (x, out, arg, dy, dx):
            q.clean('max pooling backward')
        got = np.array(dx.view, np.float64)
        ensure(np.array_equal(got, np.floor(got)), 'max pooling sends a '
               'gradient for a window without pixels')
        g = got.astype(np.int64)
        for b, key in enumerate(part):
            hit = (g >> b) & 1 == 1
            ensure(np.array_equal(hit.sum((1, 2)), np.ones((N, C))),
                   'the gradient of window %s arrives at %s pixels', key,
                   hit.sum((1, 2)).tolist())
            ensure(not (hit & ~maxima[key]).any(), 'the gradient of window '
                   '%s arrives at a pixel that is not its maximum', key)
        ensure((g >> len(part) == 0).all(), 'max pooling adds other values')
    # accumulation
    d = rs.normal(size=(N, oh, ow, C))
    dy = Buf(d, gap, dtype)
    init = rs.normal(size=x0.shape)
    res = []
    for start in (np.zeros(x0.shape), init):
        dx = Buf(start, gap, dtype)
        h.maxpool2d_backward_batch(wrap(x.view), k, wrap(out.view), pad,
                                   stride, wrap(arg.view), wrap(dx.view),
                                   wrap(dy.view))
        res.append(np.array(dx.view, np.float64))
    n = oh * ow
    ensure(near(res[1] - init, res[0], np.abs(init) + np.abs(d).sum() + 1,
                dtype, n).all(), 'max pooling does not add to the gradient')
    ensure(np.array_equal(x.view, x0) and np.array_equal(
        dy.view, d.astype(dtype)), 'an input of the pooling was changed')


def check_avg(s, h, wrap, rs, dtype, oh, ow):
    N, C = s['N'], s['C']
    H, W = s['size']
    gap, pad, stride, k = [0, 0], s['pad'], tuple(s['stride']), tuple(s['k'])
    x = Buf(content(rs, s['values'], (N, H, W, C)), gap, dtype)
    out = Buf(rs.normal(size=(N, oh, ow, C)), gap, dtype)
    dy = Buf(rs.normal(size=(N, oh, ow, C)), gap, dtype)
    dx = Buf(rs.normal(size=(N, H, W, C)), gap, dtype)
    x64, dy64, dx64 = [np.array(q.view, np.float64) for q in (x, dy, dx)]
    exp, scale = np.zeros((N, oh, ow, C)), np.zeros((N, oh, ow, C))
    edx, sdx = dx64.copy(), np.abs(dx64)
    for i, j, rows, cols in windows(s, oh, ow):
        if not rows or not cols:
            continue
        sl = (slice(None), slice(rows[0], rows[-1] + 1),
              slice(cols[0], cols[-1] + 1))
        n = len(rows) * len(cols)
        exp[:, i, j] = x64[sl].sum((1, 2)) / n
        scale[:, i, j] = np.abs(x64[sl]).sum((1, 2))
        edx[sl] += dy64[:, i:i + 1, j:j + 1] / n
        sdx[sl] += np.abs(dy64[:, i:i + 1, j:j + 1])
    h.avgpool2d_forward_batch(wrap(x.view), k, wrap(out.view), pad, stride)
    for q in (x, out):
        q.clean('average pooling forward')
    compare('average pooling', out.view, exp, scale, dtype, k[0] * k[1])
    h.avgpool2d_backward_batch(wrap(x.view), k, wrap(out.view), pad, stride,
                               wrap(dx.view), wrap(dy.view))
    for q in (x, out, dx, dy):
        q.clean('average pooling backward')
    compare('gradient of average pooling', dx.view, edx, sdx, dtype, oh * ow)
    ensure(np.array_equal(np.array(x.view, np.float64), x64) and
           np.array_equal(np.array(dy.view, np.float64), dy64),
           'an input of the pooling was changed')


def check_crop(s, dtype):
    kernel = getattr(_cpuop, '_crop_images', None)
    if kernel is None:      # C16 judges the iterator that uses it
        return {'kind': 'crop', 'windows': 1}
    T, N, C = s['T'], s['N'], s['C']
    h, w = s['size']
    ch, cw = s['crop']
    x = np.arange(T * N * h * w * C, dtype=dtype).reshape(T, N, h, w, C)
    guard = np.full((T + 2, N, ch, cw, C), -7, dtype)
    rows, cols = np.array(s['rows'], np.int_), np.array(s['cols'], np.int_)
    before = x.copy()
    kernel(x, ch, cw, rows, cols, guard[1:-1])
    exp = np.full_like(guard, -7)
    for n in range(N):
        r, c = s['rows'][n], s['cols'][n]
        exp[1:-1, n] = before[:, n, r:r + ch, c:c + cw]
    ensure(np.array_equal(guard, exp), 'crops differ from the windows at '
           'rows %s, columns %s', s['rows'], s['cols'])
    ensure(np.array_equal(x, before), 'cropping changed the images')
    return {'kind': 'crop', 'windows': 2 if (h, w) != (ch, cw) else 1}


def check_shape(s):
    H, W = s['size']
    k, stride, pad = s['k'], s['stride'], s['pad']
    kw = {'stride': tuple(stride), 'padding': pad}
    if s['defaults']:
        kw, stride, pad = {}, [1, 1], 0
    oh = placements(H, k[0], stride[0], pad)
    ow = placements(W, k[1], stride[1], pad)
    ks = list(k) if s['lists'] else tuple(k)
    inp = L.Input(out_shapes={'default': ('T', 'B', H, W, s['C'])})
    if s['layer'] == 'conv':
        layer = L.Convolution2D(s['F'], kernel_size=ks, name='x',
                                activation='linear', **kw)
        want = (oh, ow, s['F'])
    else:
        layer = L.Pooling2D(ks, type=s['layer'], name='x', **kw)
        want = (oh, ow, s['C'])
    inp >> layer
    labels = {'kind': 'shape', 'windows': min(2, oh * ow)}
    try:
        net = bs.Network.from_layer(inp)
    except Exception as e:
        ensure(oh == 0 or ow == 0, 'a valid %s layer was refused (image %s, '
               'window %s, stride %s, padding %s): %s', s['layer'],
               s['size'], k, stride, pad, e)
        return labels
    ensure(oh and ow, 'a %s layer with no placement of its window was '
           'accepted (image %s, window %s, stride %s, padding %s)',
           s['layer'], s['size'], k, stride, pad)
    got = net.layers['x'].out_shapes['default'].feature_shape
    ensure(tuple(got) == want, 'output shape %s of %s, expected %s (image '
           '%s, window %s, stride %s, padding %s)', got, s['layer'], want,
           s['size'], k, stride, pad)
    if s['layer'] == 'conv':
        net.initialize(Gaussian(1.0))
        ensure(net.buffer.x.parameters.W.shape == (
            s['F'], k[0], k[1], s['C']) and
            net.buffer.x.parameters.bias.shape == (s['F'],),
            'parameter shapes of the convolution')
    return labels


def check(s):
    if s['kind'] == 'large':
        ensure(large_ok(s), 'the gradient of max pooling goes to another '
               'pixel in a large image')
        return {'kind': 'large', 'windows': 2}
    if s['kind'] == 'shape':
        return check_shape(s)
    dtype = np.float32 if s['f32'] else np.float64
    if s['kind'] == 'crop':
        return check_crop(s, dtype)
    rs = np.random.RandomState(s['seed'])
    oh = placements(s['size'][0], s['k'][0], s['stride'][0], s['pad'])
    ow = placements(s['size'][1], s['k'][1], s['stride'][1], s['pad'])
    labels = {'kind': s['kind'], 'windows': min(2, oh * ow),
              'values': s['values'], 'f32': s['f32'],
              'pad_ge_k': s['pad'] >= min(s['k']),
              'skips': s['stride'][0] > s['k'][0] or
              s['stride'][1] > s['k'][1]}
    if oh == 0 or ow == 0:
        return labels
    h, wrap = NumpyHandler(dtype), lambda a: a
    if s['debug'] and s['N']:
        h, wrap = DebugHandler(h), DebugArray
    {'conv': check_conv, 'max': check_max, 'avg': check_avg}[s['kind']](
        s, h, wrap, rs, dtype, oh, ow)
    return labels


def nontrivial(s, labels):
    return labels['windows'] > 1 and s.get('N', 1) > 0


def large_ok(s):
    """One row of pixels; one window at each end."""
    dtype = np.float32 if s['f32'] else np.float64
    W, C = s['width'], s['C']
    h = NumpyHandler(dtype)
    x = np.zeros((1, 1, W, C), dtype)
    x[0, 0, -1] = 1
    out, arg = np.zeros((1, 1, 1, C), dtype), np.zeros((1, 1, 1, C), dtype)
    h.maxpool2d_forward_batch(x, (1, W), out, 0, (1, 1), arg)
    dx = np.zeros_like(x)
    h.maxpool2d_backward_batch(x, (1, W), out, 0, (1, 1), arg, dx,
                               np.ones_like(out))
    return bool(np.all(dx[0, 0, -1] == 1) and dx.sum() == C)


def known(findings):
    for f in findings['findings']:
        if f['property'] == ID:
            yield f['what'], not large_ok(f['spec'])
