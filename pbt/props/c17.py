"""C17: evaluation scores do not depend on how data is batched."""
import numpy as np
from hypothesis import strategies as st

import brainstorm as bs
from pbt import nets, ref
from pbt.core import ensure
from brainstorm import layers as L
from brainstorm import tools
from brainstorm.data_iterators import Minibatches, Undivided
from brainstorm.handlers import NumpyHandler
from brainstorm.scorers import (Accuracy, Hamming, MeanSquaredError, Scorer,
                                gather_losses_and_scores,
                                aggregate_losses_and_scores)

ID = 'C17'
QUICK, THOROUGH = 6000, 80000
RULE = ('Two kinds of cases. (a) Random networks with one to three '
        '(optionally masked) losses evaluated on a random data set through '
        'several iterators (batch sizes, shuffling, uneven last batch, batches '
        'cut to their longest sequence); losses and scores must equal those '
        'of the reference network and the scorer definitions on the whole '
        'data at once. (b) An identity network, so that arbitrary predictions '
        '(ties, values at the threshold), targets and masks can be scored. '
        'Parameters and statistics must be untouched. Non-trivial: more than '
        'one batch in some iterator.')
ASSUMPTIONS = ['every sequence has at least one unmasked time step when '
               'batches are cut; at least one unmasked item in total',
               'dropout and batch normalisation in evaluation mode are as in '
               'C02']

BODY = ['FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm',
        'Convolution2D', 'Pooling2D', 'BatchNorm', 'BatchNorm', 'Dropout',
        'Elementwise', 'Highway', 'Merge', 'SquaredDifference']
HEADS = ['SoftmaxCE', 'SigmoidCE', 'SquaredError']


@st.composite
def batching(draw, N):
    return {'kind': draw(st.sampled_from(['Minibatches'] * 4 + [
        'Undivided'])), 'bs': draw(st.integers(1, N + 1)),
        'shuffle': draw(st.booleans())}


@st.composite
def net_case(draw):
    s = draw(nets.net_specs(max_layers=3, kinds=BODY, heads=False,
                            T=nets.rarely(st.integers(1, 4),
                                          st.sampled_from([7, 12])),
                            B=nets.rarely(st.integers(1, 9),
                                          st.sampled_from([16, 33, 64]))))
    # the statement is about sequences: no consumer of other inputs needed
    s['cut'] = draw(st.booleans())
    heads = []
    for _ in range(draw(st.integers(1, 3))):
        size = draw(st.lists(nets.rarely(st.integers(1, 4), st.sampled_from(
            [7, 11, 20])), min_size=1,
                             max_size=1 if s['cut'] else 3))
        heads.append({
            't': draw(st.sampled_from(HEADS)), 'size': size,
            'masked': s['cut'] or draw(st.booleans()),
            'wide': not s['cut'] and draw(st.booleans()),
            'imp': draw(st.sampled_from([1.0, 0.5, -2.0])),
            'thr': draw(st.sampled_from([0.5, 0.3, 0.9])),
            'names': draw(st.sampled_from(['scorer', 'call', 'net']))})
    s['heads'] = heads
    s['reg'] = draw(st.sampled_from([0, 0, 1, 2]))
    s['its'] = draw(st.lists(batching(s['B']), min_size=2, max_size=3))
    s['f32'] = draw(st.integers(0, 5)) == 0
    s['history'] = draw(st.booleans())
    s['clash'] = draw(st.booleans())
    s['nan'] = draw(st.integers(0, 7)) == 0
    return s


@st.composite
def score_case(draw):
    N = draw(nets.rarely(st.integers(1, 12), st.sampled_from([29, 64, 130])))
    kind = draw(st.sampled_from(['Accuracy', 'Hamming', 'MeanSquaredError']))
    shape = draw(nets.rarely(
        st.lists(st.integers(1, 4), min_size=1, max_size=3),
        st.sampled_from([[10], [26], [11, 3], [5, 12]])))
    return {'score': kind, 'T': draw(st.integers(1, 4)), 'N': N,
            'shape': shape,
            'values': draw(st.sampled_from(['grid', 'normal'])),
            'thr': draw(st.sampled_from([0.5, 0.25, 0.0, 0.75, None])),
            'mask': draw(st.sampled_from(['none', 'binary', 'binary',
                                          'weights', 'tail', 'full'])),
            'imp': draw(st.sampled_from([1.0, 2.0])),
            'its': draw(st.lists(batching(N), min_size=2, max_size=3)),
            'custom': draw(st.booleans()),
            'f32': draw(st.booleans()),
            'seed': draw(st.integers(0, 99999))}


def strategy():
    return st.one_of(net_case(), net_case(), score_case())


def make_iter(b, data, lens):
    if b['kind'] == 'Undivided':
        return Undivided(**data), 1
    n = next(iter(data.values())).shape[1]
    return (Minibatches(b['bs'], b['shuffle'], cut_according_to=lens,
                        **data), -(-n // b['bs']))


def definition(kind, pred, targets, mask, thr):
    """(score, possible error) over all items by the definition."""
    n = pred.shape[-1]
    p = pred.reshape(-1, n)
    t = targets.reshape(-1, targets.shape[-1])
    w = np.ones(len(p)) if mask is None else mask.reshape(-1)
    doubt = 0.0
    if kind == 'Accuracy':
        if n > 1:
            srt = np.sort(p, axis=1)
            label = p.argmax(axis=1)
            doubt = abs(w[(srt[:, -1] - srt[:, -2] < 1e-5) &
                          (srt[:, -1] != srt[:, -2])]).sum()
        else:
            label = p[:, 0]
        per = (label == t[:, 0]).astype(float)
    elif kind == 'Hamming':
        per = ((p >= thr) == (t != 0)).mean(axis=1)
        doubt = abs(w[((abs(p - thr) < 1e-5) & (p != thr)).any(axis=1)]).sum()
    else:
        per = 0.5 * ((t - p) ** 2).sum(axis=1)
    return (w * per).sum() / w.sum(), doubt / abs(w.sum())


class Share(Scorer):
    """A user-defined scorer: weighted number of positive predictions."""

    def __call__(self, true_labels, predicted, mask=None):
        r = (predicted > 0).mean(axis=1, keepdims=True)
        return float((r if mask is None else r * mask).sum())


def snapshot(net):
    return {n: {p: v.copy() for p, v in d.items()}
            for n, d in nets.load_params(net).items()}


def unchanged(net, before):
    for n, d in nets.load_params(net).items():
        for p, v in d.items():
            ensure(np.array_equal(v, before[n][p]), 'evaluating changes the '
                   'parameter %s of %s', p, n)


def check_net(s):
    spec = {k: s[k] for k in ('inputs', 'layers', 'T', 'B', 'seed')}
    spec['inputs'] = dict(spec['inputs'])
    spec['layers'] = list(spec['layers'])
    T, N = s['T'], s['B']
    last = spec['layers'][-1]
    src = [last['n'], 'default']
    spec['inputs']['mask'] = [1]
    heads = []
    mask_used = False
    for i, h in enumerate(s['heads']):
        size = h['size']
        pn, hn, tn, ln = ['%s%d' % (a, i) for a in ('proj', 'head', 'tgt',
                                                 'lossq')]
        spec['layers'].append({
            't': 'FullyConnected', 'n': pn, 'in': {'default': [src]},
            'kw': {'size': list(size), 'activation': 'linear'}})
        tsh = list(size)
        if h['t'] == 'SoftmaxCE':
            tsh[-1] = 1
        spec['inputs'][tn] = tsh
        spec['layers'].append({
            't': h['t'], 'n': hn, 'kw': {},
            'in': {'default': [[pn, 'default']],
                   'targets': [['Input', tn]]}})
        lsrc = [hn, 'loss']
        mname = None
        if h['masked']:
            mname = 'mask'
            if len(size) > 1 or h['wide']:
                mname = 'mask_%d' % i
                spec['inputs'][mname] = list(size[:-1]) + [1]
            else:
                mask_used = True
            spec['layers'].append({
                't': 'Mask', 'n': 'maskq%d' % i, 'kw': {},
                'in': {'default': [lsrc], 'mask': [['Input', mname]]}})
            lsrc = ['maskq%d' % i, 'default']
        spec['layers'].append({'t': 'Loss', 'n': ln,
                               'kw': {'importance': h['imp']},
                               'in': {'default': [lsrc]}})
        heads.append((h, hn, tn, mname))
    if not mask_used:
        del spec['inputs']['mask']
    for i in range(int(s['reg'])):
        # a penalty on parameters: the loss layer takes them directly
        # (or two of exactly the same value)
        spec['layers'].append({
            't': 'Loss', 'n': 'regloss%d' % i, 'kw': {'importance': 0.5},
            'in': {'default': [['proj0', '..parameters.W']]}})
    dtype = np.float32 if s['f32'] else np.float64
    net, orders, params, data, rnd = nets.prepare(spec, dtype)
    lens = rnd.randint(1, T + 1, size=N)
    if not s['cut']:
        lens[:] = T
    for n in data:
        if n.startswith('mask'):
            m = (rnd.uniform(size=data[n].shape) < 0.7).astype(float)
            if s['cut']:
                m = np.zeros(data[n].shape)
                for j in range(N):
                    m[:lens[j], j] = 1
            m[0, rnd.randint(N)] = 1
            data[n] = m
    sick = [h for h in heads if h[0]['t'] == 'SquaredError']
    if s.get('nan') and sick:
        # a target that is not a number shows in everything computed from it
        h, _, tn, mname = sick[rnd.randint(len(sick))]
        at = rnd.randint(N)
        if mname:
            data[mname][0, at] = 1
        data[tn][0, at] = np.nan
    if s['f32']:
        data = {k: v.astype(np.float32) for k, v in data.items()}
        params = {n: {p: v.astype(np.float32) for p, v in d.items()}
                  for n, d in params.items()}
    res = ref.RefNet(spec, orders).run(params, data)
    rtol = 2e-3 if s['f32'] else 1e-7
    want = {}
    nloss = len(res['losses'])
    if nloss == 1:
        want['total_loss'] = (res['total'], 0)
    else:
        for k, v in res['losses'].items():
            want[k] = (v, 0)
        want['total_loss'] = (res['total'], 0)
    scorers = []
    kw = {}
    cls = {'SoftmaxCE': Accuracy, 'SigmoidCE': Hamming,
           'SquaredError': MeanSquaredError}
    for i, (h, hn, tn, mname) in enumerate(heads):
        out = hn + '.outputs.predictions'
        a = {'out_name': out, 'targets_name': tn, 'mask_name': mname or ''}
        name = None
        if len(heads) > 1:
            name = 'score%d' % i
        elif h['names'] == 'call':
            kw = {'out_name': out, 'targets_name': tn, 'mask_name': mname}
            a = {'targets_name': ''}
        elif h['names'] == 'net':
            net.output_name = out
            del a['out_name']
        if h['t'] == 'SigmoidCE':
            a['threshold'] = h['thr']
        sc = cls[h['t']](name=name, **a)
        scorers.append(sc)
        want[name or type(sc).__name__] = definition(
            type(sc).__name__, res['outputs'][hn]['predictions'].real,
            data[tn], data[mname] if mname else None, h['thr'])
    if s['clash'] and not kw and (len(heads) > 1 or
                                  heads[0][0]['names'] == 'scorer'):
        # names given in the call are for scorers without their own
        kw = {'out_name': heads[-1][1] + '.outputs.predictions',
              'targets_name': sorted(data)[0]}
        if all(m for _, _, _, m in heads):
            kw['mask_name'] = heads[-1][3]
        if len(heads) == 1:
            kw['out_name'] = 'Input.outputs.' + sorted(data)[-1]
    before = snapshot(net)
    labels = {'mode': 'net', 'batches': 1, 'cut': s['cut'],
              'heads': len(heads), 'f32': s['f32']}
    if s['history']:
        net.provide_external_data(data)
        net.forward_pass(training_pass=True)
        net.backward_pass()
        if 'BatchNorm' in nets.spec_kinds(spec):
            nets.set_params(net, params)
            before = snapshot(net)
    for b in s['its']:
        it, nb = make_iter(b, data, lens if s['cut'] else None)
        labels['batches'] = max(labels['batches'], nb)
        got = tools.evaluate(net, it, scorers, **kw)
        compare(got, want, rtol, 'evaluate (%s)' % b)
        unchanged(net, before)
    # without any scorers: only the losses
    got = tools.evaluate(net, it, **kw)
    names = [x.__name__ for x in scorers]
    compare(got, {k: v for k, v in want.items() if k not in names}, rtol,
            'evaluate without scorers (%s)' % b)
    unchanged(net, before)
    return labels


def compare(got, want, rtol, what):
    ensure(set(got) == set(want), '%s reports %s instead of %s', what,
           sorted(got), sorted(want))
    for k, (v, doubt) in want.items():
        g = got[k]
        ensure(np.ndim(g) == 0, '%s: %s is no number: %r', what, k, g)
        tol = rtol * max(1.0, abs(v)) + doubt * 1.001
        ensure((v != v) == (g != g), '%s: %s is %r, over all items it is %r',
               what, k, float(g), float(v))
        if v != v:
            continue
        ensure(abs(g - v) <= tol, '%s: %s is %r, over all items it is %r',
               what, k, float(g), float(v))


def check_score(s):
    T, N, shape = s['T'], s['N'], s['shape']
    r = np.random.RandomState(s['seed'])
    kind = s['score']
    full = (T, N) + tuple(shape)
    if s['values'] == 'grid':
        pred = r.randint(0, 5, full) / 4.0
    else:
        pred = r.normal(size=full)
    thr = 0.5 if s['thr'] is None else s['thr']
    if kind == 'Accuracy':
        tsh = full[:-1] + (1,)
        tgt = r.randint(0, max(2, shape[-1]), tsh).astype(float)
        if shape[-1] == 1 and s['values'] == 'grid':
            pred = np.round(pred * 2)
    elif kind == 'Hamming':
        tgt = r.randint(0, 2, full).astype(float)
    else:
        tgt = r.normal(size=full)
    lens = r.randint(1, T + 1, N)
    data = {'default': pred, 'targets': tgt}
    mask = None
    cut = None
    if s['mask'] != 'none':
        msh = full[:-1] + (1,)
        if s['mask'] == 'full':
            mask = np.ones(msh)
        elif s['mask'] == 'tail':
            mask = np.zeros(msh)
            for j in range(N):
                mask[:lens[j], j] = 1
            cut = lens
        elif s['mask'] == 'weights':
            mask = r.choice([0.0, 0.5, 1.0, 2.0], msh)
        else:
            mask = r.choice([0.0, 1.0], msh)
        if mask.sum() == 0:
            mask.flat[r.randint(mask.size)] = 1.0
        data['mask'] = mask
    shapes = {k: ('T', 'B') + v.shape[2:] for k, v in data.items()}
    inp = L.Input(out_shapes=shapes)
    inp - 'default' >> L.NoOp(name='out')
    inp - 'targets' >> L.Loss(name='loss', importance=s['imp'])
    if mask is not None:
        inp - 'mask' >> L.NoOp(name='unused')
    net = bs.Network.from_layer(inp)
    net.set_handler(NumpyHandler(np.float32 if s['f32'] else np.float64))
    net.output_name = 'out.outputs.default'
    if s['f32']:
        data = {k: v.astype(np.float32) for k, v in data.items()}
        pred, tgt = data['default'], data['targets']
    a = {'mask_name': 'mask'} if mask is not None else {}
    if kind == 'Hamming' and s['thr'] is not None:
        a['threshold'] = thr
    sc = {'Accuracy': Accuracy, 'Hamming': Hamming,
          'MeanSquaredError': MeanSquaredError}[kind](**a)
    want = {kind: (definition(kind, pred.astype(float), tgt.astype(float),
                              mask, thr)[0], 0)}
    scorers = [sc]
    if s['custom']:
        scorers = (Share(name='share', **{k: v for k, v in a.items()
                                          if k == 'mask_name'}), sc)
        w = np.ones(full[:-1]) if mask is None else mask[..., 0]
        want['share'] = ((w * (pred > 0).mean(-1)).sum() / w.sum(), 0)
    # an unmasked loss is only independent of the cutting when nothing is cut
    rtol = 1e-4 if s['f32'] else 1e-9
    if cut is None:
        want['total_loss'] = (s['imp'] * tgt.astype(float).sum() / N, 0)
    batches = 1
    for b in s['its']:
        it, nb = make_iter(b, data, cut)
        batches = max(batches, nb)
        got = tools.evaluate(net, it, scorers)
        if cut is not None:
            got.pop('total_loss')
        compare(got, want, rtol, 'evaluate (%s)' % b)
    # the same by hand, batch by batch
    net.provide_external_data(data)
    net.forward_pass()
    scores = {k: [] for k in list(net.get_loss_values()) + [
        x.__name__ for x in scorers]}
    gather_losses_and_scores(net, scorers, scores)
    got = aggregate_losses_and_scores(scores, net, scorers)
    if cut is not None:
        got.pop('total_loss')
    compare(got, want, rtol, 'gathering the scores')
    return {'mode': 'score', 'batches': batches, 'score': kind,
            'mask': s['mask']}


def check(s):
    return check_score(s) if 'score' in s else check_net(s)


def nontrivial(spec, labels):
    return labels['batches'] > 1
