"""Runner: drives a property module with Hypothesis in several worker
processes, shrinks failures to a JSON case, writes evidence and replays.

A property module defines
    ID, RULE, ASSUMPTIONS, QUICK, THOROUGH (numbers of generated cases)
    strategy()      -> Hypothesis strategy of JSON-serialisable case specs
    check(spec)     -> None or dict of labels; raises Violation
    nontrivial(spec, labels) -> bool
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from pbt.boot import HarnessError, VERIF, boot

CASE_TIMEOUT = 120
SHRINK_SECONDS = 25


class Violation(Exception):
    pass


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def spec_key(spec):
    return json.dumps(spec, sort_keys=True)


def _size(spec):
    return len(spec_key(spec))


class _CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise _CaseTimeout()


def run_case(mod, spec):
    """Return (labels, None) or (None, message)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        import numpy
        from brainstorm.randomness import global_rnd
        numpy.random.seed(4321)
        global_rnd.set_seed(1234)
        labels = mod.check(spec)
        return (labels or {}), None
    except HarnessError:
        raise
    except Violation as e:
        return None, str(e)
    except _CaseTimeout:
        return None, 'no result after %d s' % CASE_TIMEOUT
    except MemoryError:
        raise HarnessError('out of memory')
    except Exception as e:
        tb = traceback.format_exc(limit=-4)
        return None, 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _quiet():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = os.fdopen(os.dup(devnull), 'w')
    sys.stderr = os.fdopen(os.dup(devnull), 'w')


def _worker(mod_name, prop, idx, seed, n_cases, budget, stop, path, explicit):
    """Runs in a child process; result is written as JSON to path."""
    out = {'evaluations': 0, 'keys': [], 'labels': {}, 'samples': [],
           'failure': None, 'error': None}

    def finish():
        with open(path + '.tmp', 'w') as f:
            json.dump(out, f)
        os.rename(path + '.tmp', path)

    try:
        _quiet()
        boot()
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        mod = importlib.import_module(mod_name)
        cur = open(path + '.cur', 'w')
        start = time.time()
        state = {'fail_t': None, 'seen': set()}

        def one(spec):
            key = spec_key(spec)
            spec = json.loads(key)
            now = time.time()
            if state['fail_t'] is None:
                if now - start > budget or stop.is_set():
                    return
            elif now - state['fail_t'] > SHRINK_SECONDS:
                return
            cur.seek(0)
            cur.write(key)
            cur.truncate()
            cur.flush()
            labels, msg = run_case(mod, spec)
            if state['fail_t'] is None:
                out['evaluations'] += 1
            if msg is None:
                if state['fail_t'] is None:
                    for k, v in labels.items():
                        lk = '%s=%s' % (k, v)
                        out['labels'][lk] = out['labels'].get(lk, 0) + 1
                    if mod.nontrivial(spec, labels):
                        state['seen'].add(hashlib.sha1(
                            key.encode()).hexdigest())
                        if len(out['samples']) < 2 and _size(spec) < 3000:
                            out['samples'].append(spec)
                return
            if state['fail_t'] is None:
                state['fail_t'] = time.time()
                stop.set()
            best = out['failure']
            if best is None or _size(spec) <= _size(best['spec']):
                out['failure'] = {'spec': spec, 'message': msg[:4000]}
            raise Violation(msg.splitlines()[0][:200])

        try:
            for spec in explicit:
                one(spec)
            if n_cases > 0:
                test = given(mod.strategy())(one)
                test = settings(
                    max_examples=n_cases, database=None, deadline=None,
                    derandomize=False, report_multiple_bugs=False,
                    print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink])(test)
                test = hypothesis.seed(seed)(test)
                test()
        except HarnessError:
            raise
        except BaseException:
            if out['failure'] is None:
                raise
        out['keys'] = sorted(state['seen'])
    except HarnessError as e:
        out['error'] = 'harness: %s' % e
    except BaseException:
        out['error'] = traceback.format_exc()
    finally:
        finish()
        os._exit(0)


def load_module(prop):
    return 'pbt.props.%s' % prop.lower()


def known_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def corpus(prop):
    path = os.path.join(VERIF, 'corpus', prop + '.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_replay(prop, spec, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(spec_key(spec).encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'spec': spec, 'message': message}, f,
                  indent=1, sort_keys=True)
    return path


def run_property(prop, tier, seed, workers=None, scale=1.0):
    t0 = time.time()
    boot()
    mod_name = load_module(prop)
    mod = importlib.import_module(mod_name)
    total = int((mod.QUICK if tier == 'quick' else mod.THOROUGH) * scale)
    budget = 90 if tier == 'quick' else getattr(mod, 'THOROUGH_S', 1500)
    workers = workers or min(8, os.cpu_count() or 4)
    workers = max(1, min(workers, total // 5 or 1))
    explicit = corpus(prop)
    if hasattr(mod, 'explicit'):
        explicit = list(mod.explicit(tier)) + explicit
    tmp = os.path.join(VERIF, '.cache', 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    procs = []
    sys.stdout.flush()
    for i in range(workers):
        s = int(hashlib.sha256(('%s/%s/%d/%d' % (prop, tier, seed, i)
                                ).encode()).hexdigest()[:12], 16)
        n = total // workers + (1 if i < total % workers else 0)
        path = os.path.join(tmp, 'w%d' % i)
        p = ctx.Process(target=_worker,
                        args=(mod_name, prop, i, s, n, budget, stop, path,
                              explicit[i::workers]))
        p.start()
        procs.append((p, path))
    deadline = time.time() + budget + 3 * SHRINK_SECONDS + CASE_TIMEOUT
    outs, failures, errors = [], [], []
    for p, path in procs:
        p.join(max(0.1, deadline - time.time()))
        hung = p.is_alive()
        if hung:
            p.kill()
            p.join()
        if os.path.exists(path):
            with open(path) as f:
                o = json.load(f)
            outs.append(o)
            if o['failure']:
                failures.append(o['failure'])
            if o['error']:
                errors.append(o['error'])
        else:
            why = 'hangs' if hung else \
                'the process died (exit code %s)' % p.exitcode
            try:
                with open(path + '.cur') as f:
                    spec = json.loads(f.read())
            except (OSError, ValueError):
                errors.append('worker: ' + why)
                continue
            if p.exitcode == -9 and not hung:
                errors.append('worker was killed')
                continue
            failures.append({'spec': spec, 'message': why})
    for p, path in procs:
        for suffix in ('', '.cur', '.tmp'):
            if os.path.exists(path + suffix):
                os.remove(path + suffix)
    try:
        os.rmdir(tmp)
    except OSError:
        pass

    evaluations = sum(o['evaluations'] for o in outs)
    keys = set()
    labels = {}
    samples = []
    for o in outs:
        keys.update(o['keys'])
        samples.extend(o['samples'])
        for k, v in o['labels'].items():
            labels[k] = labels.get(k, 0) + v
    known_lines = []
    if hasattr(mod, 'known'):
        for finding in still_failing(mod):
            known_lines.append('KNOWN-FINDING: property=%s %s' %
                               (prop, finding))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples[:4] or [f['spec'] for f in failures[:1]] or
            ['none'],
            'label_counts': dict(sorted(labels.items())),
            'generated_by': 'Hypothesis, %d worker processes' % workers,
        },
        'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if failures else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for line in known_lines:
        print(line)
    if failures:
        best = min(failures, key=lambda f: _size(f['spec']))
        path = write_replay(prop, best['spec'], best['message'])
        print(best['message'])
        print('minimal case: ' + spec_key(best['spec'])[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('CHECK ERROR %s\n%s' % (prop, '\n'.join(errors[:2])))
        return 2
    if evaluations == 0 or not keys:
        print('CHECK ERROR %s: nothing was explored' % prop)
        return 2
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1f s' % (
        prop, tier, evaluations, len(keys), time.time() - t0))
    return 0


def _known_worker(name, queue):
    mod = importlib.import_module(name)
    for finding, still in mod.known(known_findings()):
        queue.put((finding, still))


def still_failing(mod):
    """The listed findings that the current code still shows.

    They are evaluated in a process of their own: changed code may crash on
    them, which is no reason to lose what the search has found.
    """
    ctx = mp.get_context('fork')
    queue = ctx.SimpleQueue()
    p = ctx.Process(target=_known_worker, args=(mod.__name__, queue))
    p.start()
    p.join(CASE_TIMEOUT)
    if p.is_alive():
        p.kill()
        p.join()
    while not queue.empty():
        finding, still = queue.get()
        if still:
            yield finding


def replay(path):
    boot()
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module(load_module(rec['property']))
    labels, msg = run_case(mod, rec['spec'])
    if msg is None:
        print('replay of %s: property %s holds on this case' % (
            path, rec['property']))
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def main(argv):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    try:
        if argv and argv[0] == 'replay':
            return replay(argv[1])
        prop = argv[0]
        tier = os.environ.get('VERIF_TIER', 'quick')
        if len(argv) > 1:
            tier = argv[1]
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        workers = int(os.environ.get('VERIF_WORKERS', '0')) or None
        return run_property(prop, tier, seed, workers, scale)
    except HarnessError as e:
        print('CHECK ERROR %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
