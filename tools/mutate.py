"""Mutation campaign (development tool, not a check).

mutate.py list [per function] [seed]      -> /tmp/w/mutants.json
mutate.py run [workers]                   -> /tmp/w/mutants.out (appends)

Mutants are made in scratch copies of /repo; those that the project's own tests
notice are dropped, the others are given to the checks that cover the file.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/w/mut'
SRC = '/tmp/w/pristine/'
SKIP = ('debug_handler', 'base_handler', 'pycuda', 'optional.py', '__about__', 'all.py', 'tests/')
NET = ['C02', 'C01', 'C25', 'C24']
MAP = [
    ('layers/clockwork', NET + ['C03', 'C06']),
    ('layers/lstm', NET + ['C03', 'C06']),
    ('layers/recurrent', NET + ['C03', 'C06']),
    ('layers/convolution', NET + ['C21', 'C06', 'C22']),
    ('layers/pooling', NET + ['C21', 'C06']),
    ('layers/mask', NET + ['C26', 'C06', 'C17']),
    ('layers/loss', NET + ['C26', 'C17']),
    ('layers/batch', NET + ['C17', 'C04']),
    ('layers/dropout', NET + ['C19', 'C04']),
    ('layers/base_layer', ['C06', 'C02', 'C03', 'C04', 'C08']),
    ('layers/', NET + ['C06', 'C04']),
    ('structure/architecture', ['C06', 'C02', 'C05', 'C07', 'C22']),
    ('structure/construction', ['C06', 'C02', 'C05', 'C22']),
    ('structure/layout', ['C05', 'C02', 'C01', 'C04', 'C06']),
    ('structure/buffer', ['C05', 'C04', 'C02', 'C03', 'C06', 'C18', 'C08']),
    ('structure/view_ref', ['C09', 'C11', 'C06', 'C08']),
    ('structure/network', ['C04', 'C07', 'C09', 'C11', 'C02', 'C03', 'C06',
                           'C08', 'C18', 'C19', 'C17', 'C13', 'C05']),
    ('handlers/numpy', ['C20', 'C02', 'C01', 'C24', 'C21', 'C19', 'C08']),
    ('handlers/debug', ['C20', 'C08']),
    ('handlers/base', ['C20', 'C08']),
    ('data_iterators', ['C15', 'C16', 'C17', 'C19', 'C26']),
    ('describable', ['C08', 'C07', 'C06']),
    ('initializers', ['C10', 'C08', 'C09', 'C19']),
    ('randomness', ['C19', 'C10', 'C16']),
    ('scorers', ['C17', 'C13', 'C26', 'C27', 'C08']),
    ('hooks', ['C14', 'C27', 'C13', 'C08', 'C23']),
    ('training/schedules', ['C23', 'C08']),
    ('training/steppers', ['C12', 'C08', 'C13']),
    ('training/', ['C13', 'C14', 'C27', 'C23', 'C08', 'C12']),
    ('value_modifiers', ['C11', 'C08', 'C07', 'C12']),
    ('tools', ['C22', 'C18', 'C17', 'C13', 'C26']),
    ('utils', ['C06', 'C14', 'C08', 'C09', 'C05', 'C16']),
]


def checks_for(path):
    for k, v in MAP:
        if k in path:
            return v
    return ['C02', 'C06', 'C08']


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
       ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult],
       ast.Pow: [ast.Mult]}


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def mutations(node):
    """[(description, function(node) that edits it in place)]"""
    res = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            res.append(('cmp->' + o.__name__,
                        lambda n, o=o: n.ops.__setitem__(0, o())))
    elif isinstance(node, ast.BinOp) and not (
            isinstance(node.left, ast.Constant) and isinstance(
                node.left.value, str)):
        for o in BIN.get(type(node.op), []):
            res.append(('bin->' + o.__name__,
                        lambda n, o=o: setattr(n, 'op', o())))
    elif isinstance(node, ast.AugAssign):
        for o in BIN.get(type(node.op), []):
            res.append(('aug->' + o.__name__,
                        lambda n, o=o: setattr(n, 'op', o())))
    elif isinstance(node, ast.BoolOp):
        o = ast.Or if isinstance(node.op, ast.And) else ast.And
        res.append(('bool', lambda n: setattr(n, 'op', o())))
        res.append(('bool-drop', lambda n: n.values.pop()
                    if len(n.values) > 2 else n.values.__setitem__(
                        1, n.values[0])))
    elif isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            res.append(('not', lambda n: setattr(n, 'value', not v)))
        elif isinstance(v, int):
            res.append(('+1', lambda n: setattr(n, 'value', v + 1)))
            if v:
                res.append(('-1', lambda n: setattr(n, 'value', v - 1)))
        elif isinstance(v, float):
            res.append(('*2', lambda n: setattr(n, 'value', v * 2 + .1)))
    elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
        res.append(('if-not', lambda n: setattr(n, 'test', ast.UnaryOp(
            ast.Not(), n.test))))
        if not isinstance(node, ast.While):
            res.append(('if-false', lambda n: setattr(
                n, 'test', ast.Constant(False))))
    elif isinstance(node, ast.Call):
        if len(node.args) >= 2:
            def swap(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            res.append(('swap-args', swap))

            def swap2(n):
                n.args[-1], n.args[-2] = n.args[-2], n.args[-1]
            if len(node.args) > 2:
                res.append(('swap-last', swap2))
        if node.keywords:
            res.append(('drop-kw', lambda n: n.keywords.pop()))
        if isinstance(node.func, ast.Name) and node.func.id in (
                'sorted', 'reversed', 'list', 'set', 'copy', 'deepcopy',
                'OrderedDict') and len(node.args) == 1:
            res.append(('unwrap', None))
        if isinstance(node.func, ast.Attribute) and node.func.attr in (
                'copy', 'reshape', 'min', 'max', 'add_tt', 'mult_add_tt',
                'mult_tt', 'items', 'mult_mv', 'mult_add_mv', 'subtract_tt',
                'dot_add_mm', 'dot_mm'):
            alt = {'min': 'max', 'max': 'min', 'add_tt': 'subtract_tt',
                   'mult_add_tt': 'mult_tt', 'mult_tt': 'mult_add_tt',
                   'mult_mv': 'mult_add_mv', 'mult_add_mv': 'mult_mv',
                   'subtract_tt': 'add_tt', 'dot_add_mm': 'dot_mm',
                   'dot_mm': 'dot_add_mm'}.get(node.func.attr)
            if alt:
                res.append(('call->' + alt, lambda n: setattr(
                    n.func, 'attr', alt)))
    elif isinstance(node, ast.Slice):
        if node.lower is not None:
            res.append(('no-lower', lambda n: setattr(n, 'lower', None)))
        if node.upper is not None:
            res.append(('no-upper', lambda n: setattr(n, 'upper', None)))
    elif isinstance(node, ast.Return) and node.value is not None:
        res.append(('return-none', lambda n: setattr(n, 'value', None)))
    elif isinstance(node, ast.Attribute) and node.attr in (
            'inputs', 'outputs', 'input_deltas', 'output_deltas'):
        alt = {'inputs': 'outputs', 'outputs': 'inputs',
               'input_deltas': 'output_deltas',
               'output_deltas': 'input_deltas'}[node.attr]
        res.append(('attr->' + alt, lambda n: setattr(n, 'attr', alt)))
    return res


def statements(func):
    """Deletable statements: (parent, field, index)"""
    for n in ast.walk(func):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if isinstance(s, (ast.AugAssign, ast.Break, ast.Continue)) \
                        or isinstance(s, ast.Expr) and isinstance(
                            s.value, ast.Call) or isinstance(s, ast.Assign):
                    yield n, field, i, s
                if isinstance(s, (ast.Raise, ast.Assert)):
                    yield n, field, i, s


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


def all_mutants(path, src):
    tree = ast.parse(src)
    out = []
    funcs = [f for f in functions(tree) if f.name not in (
        '__repr__', '__str__', '_repr_html_', 'progress_bar', 'draw_network',
        'message', '__hash__')]
    for fi, f in enumerate(funcs):
        group = []
        banned = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Raise,)):
                for m in ast.walk(n):
                    banned.add(id(m))
            if is_doc(n) or isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id == 'print':
                for m in ast.walk(n):
                    banned.add(id(m))
            if n is not f and isinstance(n, ast.FunctionDef):
                for m in ast.walk(n):
                    banned.add(id(m))
        nodes = list(ast.walk(f))
        for k, n in enumerate(nodes):
            if id(n) in banned:
                continue
            for j, (d, e) in enumerate(mutations(n)):
                if e is not None:
                    group.append((getattr(n, 'lineno', f.lineno), d, 'edit',
                                  k, j))
        for j, (p, field, i, s) in enumerate(statements(f)):
            if id(s) in banned and not isinstance(s, ast.Raise):
                continue
            group.append((s.lineno, 'delete ' + type(s).__name__, 'del', j,
                          0))
        out.append((f.name, [(path, f.name, fi) + g for g in group]))
    return out


def apply(src, m):
    path, fname, fi, line, d, how, k, j = m
    tree = ast.parse(src)
    funcs = [f for f in functions(tree) if f.name not in (
        '__repr__', '__str__', '_repr_html_', 'progress_bar', 'draw_network',
        'message', '__hash__')]
    f = funcs[fi]
    assert f.name == fname
    if how == 'edit':
        n = list(ast.walk(f))[k]
        mutations(n)[j][1](n)
    else:
        p, field, i, s = list(statements(f))[k]
        getattr(p, field)[i] = ast.Pass()
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n'


def list_files():
    out = subprocess.run(['git', '-C', '/repo', 'ls-files', 'brainstorm'],
                         capture_output=True, text=True).stdout.split()
    return [p for p in out if p.endswith('.py') and not any(
        s in p for s in SKIP) and not p.endswith('__init__.py')]


def cmd_list(per, seed):
    rnd = random.Random(seed)
    res = []
    for p in list_files():
        src = open(SRC + p).read()
        for name, group in all_mutants(p, src):
            rnd.shuffle(group)
            group = [g for g in group if not (p.endswith('hooks.py') and
                                              750 <= g[3] <= 900)]
            res += group[:per]
    rnd.shuffle(res)
    with open('/tmp/w/mutants.json', 'w') as f:
        json.dump(res, f)
    print(len(res), 'mutants')


def run_one(args):
    m, = args
    slot = mp.current_process()._identity[0]
    d = '%s/w%d' % (BASE, slot)
    if not os.path.exists(d):
        shutil.copytree(SRC, d, symlinks=True)
    path = m[0]
    src = open(SRC + path).read()
    try:
        new = apply(src, m)
    except Exception as e:
        return m, 'error %r' % e, None
    if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
        return m, 'same', None
    with open(d + '/' + path, 'w') as f:
        f.write(new)
    env = dict(os.environ, PYTHONPATH=d, OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    try:
        try:
            r = subprocess.run(
                ['/opt/venv/bin/python', '-m', 'pytest', '-c',
                 '/opt/vp/pytest.ini', '--rootdir=' + d, '-q', '-x', '-p',
                 'no:cacheprovider', '--timeout=120', 'brainstorm'], cwd=d,
                env=env, stdout=subprocess.DEVNULL, timeout=400,
                stderr=subprocess.DEVNULL)
            if r.returncode:
                return m, 'killed', None
        except subprocess.TimeoutExpired:
            return m, 'killed', None
        env = dict(os.environ, VERIF_REPO=d, VERIF_WORKERS='1',
                   VERIF_SCALE=os.environ.get('VERIF_SCALE', '0.4'))
        odd = ''
        for c in checks_for(path):
            try:
                r = subprocess.run([VERIF + '/check.sh', c], env=env,
                                   capture_output=True, text=True,
                                   timeout=900)
            except subprocess.TimeoutExpired:
                odd += ' %s:timeout' % c
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return m, 'caught ' + c, r.stdout.split('\n')[0][:200]
            if r.returncode:
                odd += ' %s:rc%d' % (c, r.returncode)
        return m, 'MISSED' + odd, None
    finally:
        shutil.copy(SRC + path, d + '/' + path)


def cmd_run(workers):
    ms = [tuple(m) for m in json.load(open('/tmp/w/mutants.json'))]
    done = set()
    if os.path.exists('/tmp/w/mutants.out'):
        for l in open('/tmp/w/mutants.out'):
            done.add(json.dumps(json.loads(l)[0]))
    ms = [m for m in ms if json.dumps(list(m)) not in done]
    os.makedirs(BASE, exist_ok=True)
    with mp.Pool(workers) as pool:
        with open('/tmp/w/mutants.out', 'a') as f:
            for r in pool.imap_unordered(run_one, [(m,) for m in ms]):
                f.write(json.dumps(r) + '\n')
                f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        cmd_list(int(sys.argv[2]) if len(sys.argv) > 2 else 2,
                 int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    else:
        cmd_run(int(sys.argv[2]) if len(sys.argv) > 2 else 8)
