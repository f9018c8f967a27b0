"""Independent reference model of the layers: plain numpy formulas, written
from the layers' definitions.  Everything accepts complex arrays and branches
on the real part only, so a complex-step evaluation yields exact directional
derivatives."""
import numpy as np


def rect(x):
    return np.where(x.real > 0, x, 0 * x)


def sigm(x):
    pos = x.real >= 0
    e = np.exp(np.where(pos, -x, x))
    return np.where(pos, 1 / (1 + e), e / (1 + e))


def elu(x):
    return np.where(x.real >= 0, x,
                    np.exp(np.where(x.real < 0, x, 0 * x)) - 1)


ACT = {'sigmoid': sigm, 'tanh': np.tanh, 'rel': rect, 'el': elu,
       'linear': lambda x: x + 0}


def absv(x):
    return np.where(x.real > 0, x, np.where(x.real < 0, -x, 0 * x))


def flat(x):
    """(T, B, ...) -> (T, B, F)"""
    return x.reshape(x.shape[0], x.shape[1], -1)


def affine(x, W, b):
    return np.einsum('tbi,oi->tbo', flat(x), W) + b


def lin2(x, W):
    return np.einsum('bi,oi->bo', x, W)


def conv2d(x, W, b, stride, pad):
    """x: (N, H, W, C); W: (F, kh, kw, C)"""
    N, H, Wd, C = x.shape
    F, kh, kw, _ = W.shape
    p = np.zeros((N, H + 2 * pad, Wd + 2 * pad, C), dtype=x.dtype)
    p[:, pad:pad + H, pad:pad + Wd] = x
    oh = (H + 2 * pad - kh) // stride[0] + 1
    ow = (Wd + 2 * pad - kw) // stride[1] + 1
    out = np.zeros((N, oh, ow, F), dtype=np.result_type(x, W, b))
    for i in range(oh):
        for j in range(ow):
            r, c = i * stride[0], j * stride[1]
            win = p[:, r:r + kh, c:c + kw]
            out[:, i, j] = np.einsum('nhwc,fhwc->nf', win, W) + b
    return out


def pool2d(x, kind, k, stride, pad):
    N, H, W, C = x.shape
    oh = (H + 2 * pad - k[0]) // stride[0] + 1
    ow = (W + 2 * pad - k[1]) // stride[1] + 1
    out = np.zeros((N, oh, ow, C), dtype=x.dtype)
    for i in range(oh):
        for j in range(ow):
            r0, c0 = i * stride[0] - pad, j * stride[1] - pad
            r1, c1 = min(r0 + k[0], H), min(c0 + k[1], W)
            r0, c0 = max(r0, 0), max(c0, 0)
            if r1 <= r0 or c1 <= c0:
                continue
            win = x[:, r0:r1, c0:c1].reshape(N, -1, C)
            if kind == 'max':
                idx = win.real.argmax(1)
                out[:, i, j] = np.take_along_axis(win, idx[:, None, :],
                                                  1)[:, 0]
            else:
                out[:, i, j] = win.mean(1)
    return out


def _tb(f, x):
    T, B = x.shape[:2]
    y = f(x.reshape((T * B,) + x.shape[2:]))
    return y.reshape((T, B) + y.shape[1:])


def recurrent(x, p, act, h0, period=None):
    f = ACT[act]
    a = affine(x, p['W'], p['bias'])
    ys = []
    h = h0
    for t in range(x.shape[0]):
        n = f(a[t] + lin2(h, p['R']))
        if period is not None and t > 0:
            idle = (t % period.real) != 0
            n = np.where(idle[None, :], h, n)
        h = n
        ys.append(h)
    return np.stack(ys), h


def lstm(x, p, act, h0, c0, period=None):
    f = ACT[act]
    pre = {g: affine(x, p['W' + g], p['b' + g]) for g in 'zifo'}
    h, c = h0, c0
    ys = []
    for t in range(x.shape[0]):
        z = f(pre['z'][t] + lin2(h, p['Rz']))
        i = sigm(pre['i'][t] + lin2(h, p['Ri']) + c * p['pi'])
        fg = sigm(pre['f'][t] + lin2(h, p['Rf']) + c * p['pf'])
        cn = i * z + fg * c
        o = sigm(pre['o'][t] + lin2(h, p['Ro']) + cn * p['po'])
        hn = o * f(cn)
        if period is not None and t > 0:
            idle = ((t % period.real) != 0)[None, :]
            cn = np.where(idle, c, cn)
            hn = np.where(idle, h, hn)
        h, c = hn, cn
        ys.append(h)
    return np.stack(ys), h, c


def softmax(x):
    m = x.real.max(-1, keepdims=True)
    e = np.exp(x - m)
    return e / e.sum(-1, keepdims=True)


def stop_grad(x):
    return x.real.astype(x.dtype)


def clip_lo(x, lo=1e-6):
    return np.where(x.real < lo, lo + 0 * x, x)


def clipped(p, exact):
    """A cross entropy term: its value is clipped where the probability p is
    below 1e-6, its derivative (that of `exact`) is not."""
    v = -np.log(np.maximum(p.real, 1e-6))
    return v + 1j * exact.imag if np.iscomplexobj(exact) else v


def nlog_softmax(x):
    """-log softmax(x), without under- or overflow"""
    d = x - x.real.max(-1, keepdims=True)
    return np.log(np.exp(d).sum(-1, keepdims=True)) - d


def nlog_sigm(x):
    """-log sigm(x), without under- or overflow"""
    a = np.where(x.real < 0, -x, x)
    return np.where(x.real < 0, -x, 0 * x) + np.log(1 + np.exp(-a))


class RefNet(object):
    """Evaluates a network spec (see pbt.nets) with plain formulas."""

    def __init__(self, spec, orders):
        self.spec = spec
        self.orders = orders    # (layer, input) -> ordered list of sources
        self.layers = spec['layers']

    def run(self, params, inputs, training=False, masks=None, state=None):
        """Return dict(outputs, losses, total, state, stats)."""
        masks = masks or {}
        state = state or {}
        out = {'Input': dict(inputs)}
        new_state, stats, losses = {}, {}, {}
        saturated = False
        some = next(iter(inputs.values()))
        T, B = some.shape[:2]
        dt = np.result_type(*(list(inputs.values()) + [
            a for d in params.values() for a in d.values()] + [np.float64]))

        def fetch(src):
            layer, name = src
            if name.startswith('..parameters.'):
                return params[layer][name[len('..parameters.'):]]
            return out[layer][name]

        for l in self.layers:
            n, kind, kw = l['n'], l['t'], l.get('kw', {})
            ins = {}
            for i in l['in']:
                srcs = self.orders[(n, i)]
                xs = [fetch(s) for s in srcs]
                ins[i] = xs[0] if len(xs) == 1 else np.concatenate(
                    xs, axis=-1)
            p = params.get(n, {})
            x = ins.get('default')
            if kind == 'FullyConnected':
                y = ACT[kw.get('activation', 'rel')](
                    affine(x, p['W'], p['bias']))
                size = kw.get('size')
                if size is None:
                    size = x.shape[2:]
                size = (size,) if isinstance(size, int) else tuple(size)
                o = {'default': y.reshape((T, B) + size)}
            elif kind in ('Recurrent', 'Clockwork'):
                s = state.get(n)
                h0 = s['h'] if s else np.zeros((B, kw['size']), dt)
                per = p['timing'] if kind == 'Clockwork' else None
                y, h = recurrent(x, p, kw.get('activation', 'tanh'), h0, per)
                new_state[n] = {'h': h}
                o = {'default': y}
            elif kind in ('Lstm', 'ClockworkLstm'):
                s = state.get(n)
                z = np.zeros((B, kw['size']), dt)
                h0, c0 = (s['h'], s['c']) if s else (z, z)
                per = p['timing'] if kind == 'ClockworkLstm' else None
                y, h, c = lstm(x, p, kw.get('activation', 'tanh'), h0, c0,
                               per)
                new_state[n] = {'h': h, 'c': c}
                o = {'default': y}
            elif kind == 'Convolution2D':
                f = ACT[kw.get('activation', 'rel')]
                st, pd = kw.get('stride', (1, 1)), kw.get('padding', 0)
                o = {'default': _tb(lambda a: f(conv2d(
                    a, p['W'], p['bias'], st, pd)), x)}
            elif kind == 'Pooling2D':
                st, pd = kw.get('stride', (1, 1)), kw.get('padding', 0)
                tp = kw.get('type', 'max')
                o = {'default': _tb(lambda a: pool2d(
                    a, tp, kw['kernel_size'], st, pd), x)}
            elif kind == 'BatchNorm':
                eps, decay = kw.get('epsilon', 1e-5), kw.get('decay', 0.9)
                ax = tuple(range(x.ndim - 1))
                if training:
                    mu = x.mean(ax)
                    sd = np.sqrt(((x - mu) ** 2).mean(ax) + eps)
                    # 'mu' holds the negative running mean
                    stats[n] = {
                        'mu': decay * p['mu'] - (1 - decay) * mu,
                        'sigma': decay * p['sigma'] + (1 - decay) * sd}
                else:
                    mu, sd = -p['mu'], p['sigma']
                o = {'default': p['gamma'] * (x - mu) / sd + p['beta']}
            elif kind == 'Dropout':
                if training:
                    pr = kw.get('drop_prob', 0.5)
                    o = {'default': x * masks[n] / (1 - pr)}
                else:
                    o = {'default': x + 0}
            elif kind == 'Elementwise':
                o = {'default': ACT[kw.get('activation', 'rel')](x)}
            elif kind == 'NoOp':
                o = {'default': x + 0}
            elif kind == 'DeltasScaling':
                y = x + 0
                if np.iscomplexobj(y):
                    y = y.real + 1j * kw['factor'] * y.imag
                o = {'default': y}
            elif kind == 'Highway':
                o = {'default': ins['T'] * ins['H'] +
                     (1 - ins['T']) * ins['x']}
            elif kind == 'Merge':
                o = {'default': np.concatenate(
                    [ins['inputs_1'], ins['inputs_2']], axis=-1)}
            elif kind == 'Mask':
                m = stop_grad(ins['mask'])
                if m.ndim == 3 and m.shape[2] == 1:
                    m = m.reshape(m.shape[:2] + (1,) * (x.ndim - 2))
                o = {'default': x * m}
            elif kind == 'SquaredDifference':
                o = {'default': (ins['inputs_1'] - ins['inputs_2']) ** 2}
            elif kind == 'SquaredError':
                t = stop_grad(ins['targets'])
                o = {'predictions': stop_grad(x),
                     'loss': 0.5 * (x - t) ** 2}
            elif kind == 'SoftmaxCE':
                t = stop_grad(ins['targets']).real.astype(int)
                y = softmax(x)
                sel = np.take_along_axis(y, t, -1)
                o = {'predictions': stop_grad(y),
                     'loss': clipped(sel, np.take_along_axis(
                         nlog_softmax(x), t, -1))}
            elif kind == 'SigmoidCE':
                t = stop_grad(ins['targets'])
                y = sigm(x)
                o = {'predictions': stop_grad(y),
                     'loss': t * clipped(y, nlog_sigm(x)) +
                     (1 - t) * clipped(sigm(-x), nlog_sigm(-x))}
            elif kind == 'BinomialCrossEntropy':
                t = stop_grad(ins['targets'])
                if ((x.real < 1e-6) | (x.real > 1 - 1e-6)).any():
                    saturated = True
                e = -t * np.log(clip_lo(x)) - (1 - t) * np.log(
                    clip_lo(1 - x))
                o = {'default': flat(e).sum(-1)[..., None]}
            elif kind == 'L1Decay':
                o = {'loss': flat(absv(x)).sum(-1)[..., None]}
            elif kind == 'L2Decay':
                o = {'loss': 0.5 * (flat(x) ** 2).sum(-1)[..., None]}
            elif kind == 'Loss':
                is_param = any(s[1].startswith('..')
                               for s in self.orders[(n, 'default')])
                v = kw.get('importance', 1.0) * x.sum() / (
                    1 if is_param else x.shape[1])
                losses[n] = v
                o = {'loss': np.array([v])}
            else:
                raise KeyError(kind)
            out[n] = o
        total = sum(losses.values()) if losses else 0.0
        return {'outputs': out, 'losses': losses, 'total': total,
                'state': new_state, 'stats': stats, 'saturated': saturated}
