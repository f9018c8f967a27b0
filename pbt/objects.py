"""Specs of initialisers and modifiers, and their realisation."""
import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from brainstorm import initializers as I
from brainstorm import value_modifiers as V

finite = st.sampled_from([0.1, 0.5, 1.0, 1.5, 2.0, 0.01, 3.0, 10.0])
signed = st.sampled_from([-2.0, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0, 1 / 3.])


@st.composite
def init_spec(draw, depth=1):
    kinds = ['scalar', 'int', 'DenseSqrtFanIn', 'DenseSqrtFanInOut',
             'EchoState', 'Gaussian', 'Identity', 'Orthogonal', 'RandomWalk',
             'Uniform', 'Uniform2', 'Gaussian']
    if depth:
        kinds += ['SparseInputs', 'SparseOutputs', 'LstmOptInit']
    k = draw(st.sampled_from(kinds))
    if k == 'scalar':
        return draw(signed)
    if k == 'int':
        return draw(st.integers(-3, 3))
    if k in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
        return {'i': k, 'kw': draw(st.sampled_from(
            [{}, {'scale': 'tanh'}, {'scale': 'sigmoid'},
             {'scale': 'linear'}, {'scale': 'rel'}, {'scale': 0.5},
             {'scale': 2}]))}
    if k == 'EchoState':
        return {'i': k, 'kw': draw(st.sampled_from(
            [{}, {'spectral_radius': 0.77}, {'spectral_radius': 2.0}]))}
    if k == 'Gaussian':
        kw = {}
        if draw(st.booleans()):
            kw['std'] = draw(finite)
        if draw(st.booleans()):
            kw['mean'] = draw(signed)
        return {'i': k, 'kw': kw}
    if k == 'Identity':
        kw = {}
        if draw(st.booleans()):
            kw['scale'] = draw(signed)
        if draw(st.booleans()):
            kw['std'] = draw(st.sampled_from([0.0, 0.01, 0.5]))
        if draw(st.booleans()):
            kw['enforce_square'] = draw(st.booleans())
        return {'i': k, 'kw': kw}
    if k == 'Orthogonal':
        return {'i': k, 'kw': draw(st.sampled_from([{}, {'scale': 2.5},
                                                    {'scale': 0.1}]))}
    if k == 'RandomWalk':
        return {'i': k, 'kw': draw(st.sampled_from(
            [{}, {'act_func': 'rel'}, {'act_func': 'linear'},
             {'scale': 0.5}]))}
    if k == 'Uniform':
        return {'i': k, 'kw': draw(st.sampled_from(
            [{}, {'low': 0.5}, {'low': -0.3}]))}
    if k == 'Uniform2':
        lo = draw(signed)
        return {'i': 'Uniform', 'kw': {'low': lo, 'high': lo + draw(finite)}}
    if k in ('SparseInputs', 'SparseOutputs'):
        return {'i': k, 'sub': draw(init_spec(depth=depth - 1)),
                'kw': draw(st.sampled_from([{}, {'connections': 1},
                                            {'connections': 2},
                                            {'connections': 3}]))}
    return {'i': 'LstmOptInit',
            'gates': {g: draw(init_spec(depth=depth - 1)) for g in
                      draw(st.sets(st.sampled_from(
                          ['input_block', 'input_gate', 'forget_gate',
                           'output_gate'])).map(sorted))}}


def make_init(s):
    if isinstance(s, (int, float)):
        return s
    if isinstance(s, list):
        return list(s)
    if 'arr' in s:
        a = np.array(s['arr'], dtype=float)
        return {'ai': lambda: I.ArrayInitializer(a), 'np': lambda: a,
                'list': lambda: a.tolist()}[s.get('as', 'ai')]()
    if 'sub' in s:
        return getattr(I, s['i'])(make_init(s['sub']), **s['kw'])
    if 'gates' in s:
        return I.LstmOptInit(**{g: make_init(v)
                                for g, v in s['gates'].items()})
    return getattr(I, s['i'])(**s['kw'])


@st.composite
def mod_spec(draw, gradient=False, shape=None):
    kinds = ['ClipValues', 'ConstrainL2Norm', 'FreezeValues', 'ClipValues',
             'ClipValues0']
    if shape is not None:
        kinds += ['MaskValues', 'MaskValues', 'FreezeGiven']
    if gradient:
        kinds += ['L1Decay', 'L2Decay', 'L1Decay', 'L2Decay']
    k = draw(st.sampled_from(kinds))
    if k == 'ClipValues0':
        return {'m': 'ClipValues', 'kw': {}}
    if k == 'ClipValues':
        lo = draw(st.sampled_from([-2.0, -1.0, -0.5, 0.0, 0.25]))
        return {'m': k, 'kw': {'low': lo,
                               'high': lo + draw(st.sampled_from(
                                   [0.0, 0.25, 0.5, 1.0]))}}
    if k == 'ConstrainL2Norm':
        return {'m': k, 'kw': {'limit': draw(st.sampled_from(
            [0.1, 0.5, 1.0, 2.0]))}}
    if k == 'FreezeValues':
        return {'m': k, 'kw': {}}
    if k == 'FreezeGiven':
        n = int(np.prod(shape))
        vals = draw(st.lists(signed, min_size=n, max_size=n))
        return {'m': 'FreezeValues', 'given':
                np.array(vals).reshape(shape).tolist()}
    if k == 'MaskValues':
        n = int(np.prod(shape))
        vals = draw(st.lists(st.sampled_from([0.0, 1.0, 1.0, 0.5, 1 / 3.]),
                             min_size=n, max_size=n))
        return {'m': k, 'mask': np.array(vals).reshape(shape).tolist()}
    return {'m': k, 'kw': {'factor': draw(st.sampled_from(
        [0.1, 0.5, -0.5, 0.0, 2.0]))}}


def make_mod(s):
    if isinstance(s, list):
        return [make_mod(x) for x in s]
    if 'mask' in s:
        return V.MaskValues(np.array(s['mask'], dtype=float))
    if 'given' in s:
        return V.FreezeValues(np.array(s['given'], dtype=float))
    return getattr(V, s['m'])(**s['kw'])


class ModModel(object):
    """What a modifier does to a plain array, with its own state."""

    def __init__(self, s):
        self.s = s
        self.frozen = np.array(s['given'], dtype=float) if 'given' in s \
            else None

    def __call__(self, value, param=None):
        s, k = self.s, self.s['m']
        v = np.array(value, dtype=float)
        if k == 'ClipValues':
            return np.minimum(np.maximum(v, s['kw'].get('low', -1.0)),
                              s['kw'].get('high', 1.0))
        if k == 'ConstrainL2Norm':
            if v.ndim < 2:
                return v
            m = v.reshape(v.shape[0], -1)
            out = np.empty_like(m)
            for i, row in enumerate(m):
                n = np.sqrt((row ** 2).sum())
                lim = s['kw']['limit']
                out[i] = row if n <= lim else row * (lim / n)
            return out.reshape(v.shape)
        if k == 'MaskValues':
            return v * np.array(s['mask'])
        if k == 'FreezeValues':
            if self.frozen is None:
                self.frozen = v.copy()
            return self.frozen.copy()
        if k == 'L1Decay':
            return v + s['kw']['factor'] * np.sign(param)
        if k == 'L2Decay':
            return v + s['kw']['factor'] * np.asarray(param)
        raise KeyError(k)
