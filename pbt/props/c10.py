"""C10: initialisers honour their documented distribution constraints."""
import numpy as np
from hypothesis import strategies as st

from pbt import objects
from pbt.core import ensure
import brainstorm as bs
from brainstorm import initializers as I
from brainstorm.initializers import evaluate_initializer
from brainstorm.utils import InitializationError

ID = 'C10'
QUICK, THOROUGH = 12000, 200000
RULE = ('Random initialisers (nested ones too) with random options applied '
        'to random shapes of one to four dimensions, a part of them large '
        'enough for tests of range, mean and spread; the value is checked '
        'against the contract of the initialiser or must be refused. '
        'Non-trivial: more than one entry, or a refusal.')
ASSUMPTIONS = ['statistical bounds are 7 standard errors wide',
               'SparseInputs keeps the given number of non-zero entries per '
               'column and SparseOutputs per row, as the tests fix it',
               'large shapes have at least 1500 entries']


@st.composite
def strategy_(draw):
    s = draw(st.one_of(objects.init_spec(depth=2), objects.init_spec(depth=2),
                       objects.init_spec(depth=0), st.just('array')))
    big = draw(st.integers(0, 3)) == 0
    if big:
        shape = draw(st.sampled_from([[50, 50], [40, 80], [80, 40], [2000],
                                      [20, 5, 5, 8], [60, 60], [10, 300],
                                      [45, 45]]))
    else:
        shape = draw(st.one_of(
            st.lists(st.integers(1, 6), min_size=1, max_size=4),
            st.integers(1, 6).map(lambda n: [n, n]),
            st.tuples(st.integers(1, 3).map(lambda n: 4 * n),
                      st.integers(1, 4)).map(list)))
    spec = {'init': s, 'shape': shape, 'seed': draw(st.integers(0, 10**6)),
            'fallback': draw(st.sampled_from([None, None, 0.5, 'Gaussian']))}
    if not big and draw(st.integers(0, 5)) == 0:
        # the moments of small arrays, over many seeds
        spec['pool'] = True
        if draw(st.booleans()):
            spec['init'] = s = draw(st.sampled_from([
                {'i': 'RandomWalk', 'kw': {}},
                {'i': 'RandomWalk', 'kw': {'act_func': 'rel'}},
                {'i': 'RandomWalk', 'kw': {'scale': 0.5}},
                {'i': 'Identity', 'kw': {'std': 0.5}}]))
            if s['i'] == 'RandomWalk':
                spec['shape'] = [draw(st.integers(1, 8))] * 2
            else:
                spec['shape'] = [draw(st.integers(1, 8)),
                                 draw(st.integers(1, 8))]
    if s == 'array':
        spec['ok'] = draw(st.booleans())
        spec['as'] = draw(st.sampled_from(['ai', 'np', 'list']))
    return spec


def strategy():
    return strategy_()


SCALES = {'rel': 6., 'tanh': 3., 'sigmoid': 48., 'linear': 1.}


def spread(v, lo, hi, what):
    """Uniform on [lo, hi]."""
    tol = 1e-12 * max(abs(lo), abs(hi), 1)
    ensure(v.min() >= lo - tol and v.max() <= hi + tol, '%s gave values in '
           '[%g, %g] outside [%g, %g]', what, v.min(), v.max(), lo, hi)
    n, w = v.size, hi - lo
    if n >= 1500 and w > 0:
        ensure(v.min() < lo + 0.02 * w and v.max() > hi - 0.02 * w,
               '%s does not reach the ends of [%g, %g]: [%g, %g]', what, lo,
               hi, v.min(), v.max())
        se = w / np.sqrt(12 * n)
        ensure(abs(v.mean() - (lo + hi) / 2) < 7 * se, '%s has mean %g on '
               '[%g, %g]', what, v.mean(), lo, hi)
        ensure(abs(v.std() - w / np.sqrt(12)) < 7 * w / np.sqrt(n) / 4,
               '%s has deviation %g on [%g, %g]', what, v.std(), lo, hi)


def normal(v, mean, std, what):
    n = v.size
    ensure(np.all(np.abs(v - mean) <= 8 * abs(std) + 1e-12), '%s is too far '
           'from %g: %g', what, mean, np.abs(v - mean).max())
    if n >= 1500:
        ensure(abs(v.mean() - mean) <= 7 * std / np.sqrt(n) + 1e-12,
               '%s has mean %g instead of %g', what, v.mean(), mean)
        ensure(abs(v.std() - std) <= 7 * std / np.sqrt(2 * n) + 1e-12,
               '%s has deviation %g instead of %g', what, v.std(), std)
        if std > 0:
            frac = np.mean(np.abs(v - mean) < std)
            ensure(abs(frac - 0.6827) < 7 * 0.466 / np.sqrt(n), '%s is not '
                   'normal: %g within one deviation', what, frac)
    elif n > 4 and std > 0:
        ensure(v.std() > 0, '%s is constant', what)


def never_zero(s):
    """True if values of this initialiser are surely non-zero."""
    if isinstance(s, (int, float)):
        return s != 0
    k = s['i']
    if k == 'Uniform':
        lo = s['kw'].get('low', 0.1)
        hi = s['kw'].get('high')
        return hi is None or lo > 0 or hi > 0 > lo or lo != 0
    if k in ('Gaussian', 'DenseSqrtFanIn', 'DenseSqrtFanInOut', 'EchoState'):
        return True
    return False


def supported(s, shape):
    """Does this initialiser accept this shape?"""
    if isinstance(s, (int, float)):
        return True
    k = s['i']
    if k in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
        return len(shape) >= 2
    if k == 'EchoState':
        return len(shape) == 2 and shape[0] == shape[1]
    if k == 'Identity':
        return len(shape) == 2 and (shape[0] == shape[1] or
                                    not s['kw'].get('enforce_square', True))
    if k == 'Orthogonal':
        return len(shape) == 2
    if k == 'RandomWalk':
        return len(shape) == 2 and shape[0] == shape[1]
    if k in ('SparseInputs', 'SparseOutputs'):
        c = s['kw'].get('connections', 15)
        axis = 0 if k == 'SparseInputs' else 1
        if len(shape) < 2 or shape[axis] < c:
            return False
        return supported(s['sub'], shape)
    if k == 'LstmOptInit':
        if shape[0] % 4:
            return False
        sub = [shape[0] // 4] + list(shape[1:])
        return all(supported(v, sub) for v in s['gates'].values())
    return True


def contract(s, shape, v, pooled=False):
    ensure(isinstance(v, np.ndarray), 'returned a %s', type(v).__name__)
    ensure(pooled or v.shape == tuple(shape), 'shape %s instead of %s', v.shape, shape)
    ensure(np.all(np.isfinite(v)), 'values are not finite')
    if isinstance(s, (int, float)):
        ensure(np.all(v == s), 'value %s instead of %s', v, s)
        return
    k, kw = s['i'], s.get('kw', {})
    if k in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
        sc = kw.get('scale', 'rel')
        n_in = int(np.prod(shape[1:]))
        if k == 'DenseSqrtFanIn':
            sq = SCALES[sc] if isinstance(sc, str) else sc ** 2
            b = np.sqrt(sq / n_in)
        else:
            sq = (SCALES[sc] * (1 if sc == 'linear' else 2)
                  if isinstance(sc, str) else sc ** 2)
            b = np.sqrt(sq / (n_in + shape[0]))
        spread(v, -b, b, k)
    elif k == 'EchoState':
        r = np.abs(np.linalg.eigvals(v)).max()
        want = kw.get('spectral_radius', 1.0)
        ensure(abs(r - want) < 1e-6 * want, 'spectral radius %g instead of '
               '%g', r, want)
        if v.shape[0] > 3:
            ensure(len(np.unique(v)) > 4, 'EchoState is not random')
    elif k == 'Gaussian':
        normal(v, kw.get('mean', 0.0), kw.get('std', 0.1), k)
    elif k == 'Identity':
        noise = v - np.eye(*shape) * kw.get('scale', 1.0)
        normal(noise, 0.0, kw.get('std', 0.01), 'the noise of Identity')
    elif k == 'Orthogonal':
        sc = kw.get('scale', 1.0)
        m = v / sc
        g = m.dot(m.T) if shape[0] <= shape[1] else m.T.dot(m)
        ensure(np.allclose(g, np.eye(len(g)), atol=1e-8), 'not orthogonal')
    elif k == 'RandomWalk':
        n = shape[0]
        sc = kw.get('scale')
        if sc is None:
            sc = {'linear': np.exp(1 / (2 * n)), 'rel':
                  np.sqrt(2) * np.exp(1.2 / (max(n, 6) - 2.4))}[
                kw.get('act_func', 'linear')]
        normal(v, 0.0, sc / n, k)
    elif k == 'Uniform':
        lo, hi = kw.get('low', 0.1), kw.get('high')
        if hi is None:
            lo, hi = -abs(lo), abs(lo)
        spread(v, lo, hi, k)
    elif k in ('SparseInputs', 'SparseOutputs'):
        axis = 0 if k == 'SparseInputs' else 1
        c = kw.get('connections', 15)
        nz = (v != 0).sum(axis=axis)
        if never_zero(s['sub']):
            ensure(np.all(nz == c), '%s has %s connections instead of %d', k,
                   sorted(set(nz.ravel().tolist())), c)
        else:
            ensure(np.all(nz <= c), '%s has %d connections, more than %d', k,
                   nz.max(), c)
        if v.size >= 1500 and len(shape) == 2 and never_zero(s['sub']):
            # positions are spread over all rows / columns
            per = (v != 0).sum(axis=1 - axis)
            m = shape[1 - axis]
            p = c / shape[axis]
            ensure(np.all(np.abs(per - m * p) <=
                          7 * np.sqrt(m * p * (1 - p)) + 1),
                   'the connections of %s are not evenly distributed', k)
        sub = s['sub']
        val = v[v != 0]
        if isinstance(sub, (int, float)):
            ensure(np.all(val == sub), 'other values than the '
                   'sub-initialiser gives')
        elif sub['i'] == 'Uniform' and val.size:
            lo, hi = sub['kw'].get('low', 0.1), sub['kw'].get('high')
            if hi is None:
                lo, hi = -abs(lo), abs(lo)
            ensure(val.min() >= lo and val.max() <= hi, 'values outside the '
                   'range of the sub-initialiser')
        elif sub['i'] == 'Gaussian' and val.size:
            m, d = sub['kw'].get('mean', 0.0), sub['kw'].get('std', 0.1)
            ensure(np.all(np.abs(val - m) <= 8 * d), 'values are not those '
                   'of the sub-initialiser')
    elif k == 'LstmOptInit':
        n = shape[0] // 4
        for i, g in enumerate(['input_block', 'input_gate', 'forget_gate',
                               'output_gate']):
            contract(s['gates'].get(g, 0.0), [n] + list(shape[1:]),
                     v[i * n:(i + 1) * n])
        rand = [i for i, g in enumerate(
            ['input_block', 'input_gate', 'forget_gate', 'output_gate'])
            if isinstance(s['gates'].get(g, 0.0), dict) and
            s['gates'][g]['i'] == 'Gaussian']
        for i in rand:
            for j in rand:
                if i < j:
                    ensure(not np.array_equal(v[i * n:(i + 1) * n],
                                              v[j * n:(j + 1) * n]),
                           'two blocks got the same random values')


def pool(s, shape, seed, labels):
    """Distribution of a small array over many seeds."""
    if isinstance(s, (int, float)) or s['i'] not in (
            'Gaussian', 'Uniform', 'DenseSqrtFanIn', 'DenseSqrtFanInOut',
            'RandomWalk', 'Identity', 'SparseInputs', 'SparseOutputs'):
        return
    k = -(-4000 // int(np.prod(shape)))
    if s['i'].startswith('Sparse'):
        if not never_zero(s['sub']):
            return
        k = min(k, 300)
    init = objects.make_init(s)
    v = np.array([evaluate_initializer(init, shape, seed=seed + i)
                  for i in range(k)])
    if s['i'].startswith('Sparse'):
        p = s['kw'].get('connections', 15) / shape[s['i'] == 'SparseOutputs']
        f = (v != 0).mean(axis=0)
        ensure(np.all(np.abs(f - p) <= 7 * np.sqrt(p * (1 - p) / k) + 7 / k),
               '%s prefers some of the positions: %s', s['i'], f)
    else:
        contract(s, shape, v, pooled=True)
    labels['pooled'] = s['i']


def randomised(s):
    return isinstance(s, dict) and s['i'] in (
        'Gaussian', 'Uniform', 'DenseSqrtFanIn', 'DenseSqrtFanInOut',
        'EchoState', 'Orthogonal', 'RandomWalk')


def check(spec):
    shape = tuple(spec['shape'])
    s = spec['init']
    if s == 'array':
        sh = shape if spec['ok'] else shape + (2,)
        a = np.random.RandomState(spec['seed']).normal(size=sh)
        init = objects.make_init({'arr': a.tolist(), 'as': spec['as']})
        try:
            v = evaluate_initializer(init, shape, seed=1)
        except InitializationError:
            ensure(not spec['ok'], 'array of the right shape refused')
            return {'kind': 'array', 'size': 2}
        ensure(spec['ok'], 'array of the wrong shape accepted')
        ensure(np.array_equal(v, a), 'the array is changed')
        return {'kind': 'array', 'size': v.size}
    kind = 'scalar' if isinstance(s, (int, float)) else s['i']
    sup = supported(s, shape)
    init = objects.make_init(s)
    labels = {'kind': kind, 'supported': sup, 'size': int(np.prod(shape))}
    fb = spec['fallback']
    fb = I.Gaussian() if fb == 'Gaussian' else fb
    try:
        v = evaluate_initializer(init, shape, seed=spec['seed'])
    except InitializationError:
        ensure(not sup, '%s refuses shape %s', s, shape)
        if fb is not None:
            v = evaluate_initializer(init, shape, fallback=fb,
                                     seed=spec['seed'])
            contract(spec['fallback'] if fb == 0.5 else
                     {'i': 'Gaussian', 'kw': {}}, shape, v)
        if not isinstance(s, (int, float)):
            try:
                init(shape)
            except InitializationError:
                pass
            else:
                ensure(False, 'direct call accepts shape %s', shape)
        return labels
    ensure(sup, '%s accepts shape %s', s, shape)
    contract(s, shape, v)
    v = v.copy()
    again = evaluate_initializer(init, shape, fallback=fb, seed=spec['seed'])
    ensure(np.array_equal(v, again), 'the same seed gives other values')
    other = evaluate_initializer(objects.make_init(s), shape,
                                 seed=spec['seed'])
    ensure(np.array_equal(v, other), 'an equal initialiser with the same '
           'seed gives other values')
    if randomised(s) and v.size > 1:
        diff = evaluate_initializer(init, shape, seed=spec['seed'] + 1)
        contract(s, shape, diff)
        ensure(not np.array_equal(v, diff), 'another seed gives the same '
               'values')
        # direct calls continue the random stream
        init.rnd.set_seed(spec['seed'])
        a = np.array(init(shape))
        b = np.array(init(shape))
        ensure(np.array_equal(a, v), 'a direct call differs from evaluating')
        ensure(not np.array_equal(a, b), 'the initialiser repeats itself')
    if spec.get('pool'):
        pool(s, shape, spec['seed'], labels)
    return labels


def nontrivial(spec, labels):
    return labels['size'] > 1 or labels.get('supported') is False
