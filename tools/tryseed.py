#!/usr/bin/env python3
"""tryseed.py [--tests] [--nodemo] ID...   try planted changes in a scratch copy of /repo under /tmp/wt.N
For each: demo on the clean copy (once), patch, build, [tests], demo, the property's check."""
import sys, os, subprocess, json, shutil, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/wt.%s' % os.environ.get('WTN', '0')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    return sh("ninja -C %s/_build -j8" % WT)


def prep():
    if not os.path.isdir(WT):
        sh("mkdir -p %s && rsync -a --exclude _build /repo/ %s/ || cp -a /repo/. %s/" % (WT, WT, WT))
        shutil.rmtree(WT + '/_build', ignore_errors=True)
        r = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_LOG=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_FLAGS_RELEASE=-march=x86-64-v2 -maes -mpclmul"' % (WT, WT))
        if r.returncode:
            print(r.stdout); sys.exit(1)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build" % WT)
    r = build()
    if r.returncode:
        print(r.stdout[-2000:]); sys.exit(1)


opts = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
if not ids:
    ids = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(ROOT + '/seeded/*/patch.diff'))
prep()
env = dict(os.environ, VERIF_REPO=WT, VERIF_TIER='quick', VERIF_SEED='1')
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    res = [i, meta['property']]
    if '--nodemo' not in opts:
        r = sh("bash %s/demo.sh" % d, cwd=WT)
        res.append('clean-demo=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
    r = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd=WT)
    if r.returncode:
        print(i, 'PATCH FAILS', r.stdout); continue
    try:
        r = build()
        res.append('build=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-3000:])
        if '--tests' in opts:
            r = sh("ctest --test-dir %s/_build -j1 --timeout 120" % WT)
            res.append('tests: ' + ' '.join(l.strip() for l in r.stdout.splitlines() if 'Failed' in l or '% tests' in l))
        if '--nodemo' not in opts:
            r = sh("timeout 300 bash %s/demo.sh" % d, cwd=WT)
            res.append('demo=%d' % r.returncode)
        if '--nocheck' not in opts:
            for p in [meta['property']] + meta.get('also', []):
                r = sh("python3 %s/check.py %s" % (ROOT, p), env=env, cwd=ROOT)
                res.append('check %s=%d' % (p, r.returncode))
                if '-v' in sys.argv or '--v' in opts or r.returncode == 2:
                    print(r.stdout[-2500:])
    finally:
        sh("git checkout -q -f . && git clean -fdq -e _build", cwd=WT)
        build()
    print(' | '.join(res), flush=True)
build()
