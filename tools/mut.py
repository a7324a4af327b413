#!/usr/bin/env python3
"""try textual mutants of /repo in scratch clones: mut.py FILE.py [names]; FILE.py defines M = [(name, checks, file, old, new), ...]
expected exit codes: names starting with 'ok-' expect 0, others 1."""
import sys, os, subprocess, runpy, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])['M']
sel = sys.argv[2:]
def one(m):
    name, checks = m[0], m[1]
    edits = m[2] if not isinstance(m[2], str) else ([m[2:5]] if isinstance(m[3], str) else [(m[2],) + tuple(e) if len(e) == 2 else e for e in m[3]])
    d = tempfile.mkdtemp(prefix='mut.')
    out = []
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        for f, old, new in edits:
            p = d + '/r/' + f
            s = open(p).read()
            if s.count(old) < 1:
                return name + ': PATTERN NOT FOUND in ' + f
            open(p, 'w').write(s.replace(old, new, 1))
        for c in checks.split():
            v = d + '/v'
            if not os.path.exists(v):
                os.makedirs(v)
                for x in ('check.py', 'engine', 'checks', 'known_findings.json'):
                    os.symlink(os.path.join(R, x), os.path.join(v, x))
            r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0,%r); import runner; runner.ROOT=%r; sys.path.insert(0,%r); sys.exit(runner.main(["check.py",%r]))' % (R + '/engine', v, R + '/checks', c)],
                               env=dict(os.environ, VERIF_REPO=d + '/r'), capture_output=True, text=True, cwd=v)
            exp = 0 if name.startswith('ok-') else 1
            lines = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            out.append('%s %s: exit %d %s %s' % ('  ' if r.returncode == exp else '!!', name + '/' + c, r.returncode, '' , (lines[0][:150] if r.returncode == exp else ' | '.join(x[:300] for x in lines[:4] + lines[-2:])) if lines else ''))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return '\n'.join(out)
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [m for m in M if not sel or any(m[0].startswith(s) for s in sel)]):
        print(r, flush=True)
