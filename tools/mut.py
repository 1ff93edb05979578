#!/usr/bin/env python3
"""mut.py C05 [name]: applies the edits of tools/mutants/<prop>.py, one set at a time, to a scratch copy
of /repo and reports whether the check behaves (bug -> exit 1, ok -> exit 0).  Not part of any check."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MUTSRC', '/repo')
from concurrent.futures import ThreadPoolExecutor


def one(pid, name, kind, edits):
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(SRC + '/escnn', d + '/escnn', ignore=shutil.ignore_patterns('__pycache__', '_cache'))
        for extra in ('examples',):
            if os.path.isdir(SRC + '/' + extra):
                shutil.copytree(SRC + '/' + extra, d + '/' + extra)
        for f, old, new in edits:
            s = open(f'{d}/{f}').read()
            if s.count(old) < 1:
                return name, kind, 'EDIT-FAILED ' + f + ' ' + old[:50]
            s = s.replace(old, new)
            compile(s, f, 'exec')
            open(f'{d}/{f}', 'w').write(s)
        r = subprocess.run([sys.executable, HERE + '/check.py', '--property', pid, '--repo', d, '--no-evidence'], capture_output=True, text=True)
        want = 1 if kind == 'bug' else 0
        lines = [l for l in r.stdout.splitlines() if ': [' in l]
        return name, kind, ('ok  ' if r.returncode == want else 'WRONG') + f' rc={r.returncode} ' + ' || '.join(lines)[:260] + (r.stderr[-200:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(d)


pid = sys.argv[1]
ns = {}
exec(open(f'{HERE}/tools/mutants/{pid.lower()}.py').read(), ns)
sel = [m for m in ns['M'] if len(sys.argv) < 3 or m[0] == sys.argv[2]]
with ThreadPoolExecutor(6) as ex:
    for n, k, r in ex.map(lambda m: one(pid, *m), sel):
        print(f'{k:4} {n:34} {r}')
