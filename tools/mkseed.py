"""mkseed.py <bug id> <property> <file> : read old/new text from stdin
separated by a line '=====' (several pairs separated by '#####'; a pair may
start with a line '@@file <path>'), write seeded/<id>/patch.diff."""
import os, subprocess, sys
bid, prop, path = sys.argv[1:4]
txt = sys.stdin.read()
d = '/verif/seeded/' + bid
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
try:
    for pair in txt.split('#####\n'):
        p = path
        if pair.startswith('@@file'):
            l, pair = pair.split('\n', 1)
            p = l.split()[1]
        old, new = pair.split('=====\n')
        f = '/repo/' + p
        s = open(f).read()
        assert s.count(old) == 1, (p, s.count(old), old)
        open(f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
with open(d + '/demo.sh', 'w') as f:
    f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
