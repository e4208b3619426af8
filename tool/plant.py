#!/usr/bin/env python3
"""plant.py sync | test ID... | refac NAME...
Development aid: validates planted bugs (and behaviour-preserving edits) in a scratch copy /tmp/wt of /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('WT', '/tmp/wt')


def sh(cmd, cwd=WT, env=None, to=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=to)
    return r.returncode, r.stdout + r.stderr


def sync():
    if not os.path.exists(WT):
        sh('cp -a /repo /tmp/wt && cd /tmp/wt && find . -name _build -maxdepth 1 -exec rm -r {} +', cwd='/tmp')
    print(sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git status --short')[1])
    print(build()[1][-200:])


def build():
    return sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DTINYTORCH_USE_CUDA=OFF -DTINYTORCH_USE_NCCL=OFF -DTINYTORCH_TEST_CUDA=OFF -DTINYTORCH_BUILD_TEST=ON '
              '-DTINYTORCH_BUILD_DEMO=OFF -DCMAKE_DISABLE_FIND_PACKAGE_BLAS=ON -DCMAKE_PROJECT_TinyTorch_INCLUDE=/opt/vp/cmake/gtest_from_apt.cmake >/dev/null && cmake --build _build -j8',
              env={'CC': '/usr/bin/gcc', 'CXX': '/usr/bin/g++'})


def check(pids):
    out = []
    for p in pids:
        rc, o = sh('python3 run.py ' + p, cwd=V, env={'TTX_REPO': WT})
        out.append((p, rc, [l for l in o.splitlines() if l.startswith('  src')][:2]))
    return out


def allp():
    return [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def test(bid, every='--all' in sys.argv):
    d = os.path.join(V, 'seeded', bid)
    prop = json.load(open(d + '/meta.json'))['property']
    if '--checkonly' not in sys.argv:
        rc, o = sh('bash %s/demo.sh' % d)
        print(bid, 'demo on clean:', rc, '' if rc == 0 else o[-600:])
    rc, o = sh('git apply %s/patch.diff' % d)
    if rc: print('PATCH FAILED', o); return
    try:
        if '--checkonly' not in sys.argv:
            rc, o = build()
            if rc: print(bid, 'BUILD FAILED', o[-2000:]); return
            rc, o = sh("ctest --test-dir _build -j8 -E '^TEST_Module\\.' --timeout 300 2>&1 | tail -15")
            print(bid, 'tests:', [l for l in o.splitlines() if 'tests passed' in l or 'Failed' in l])
            rc, o = sh('bash %s/demo.sh' % d)
            print(bid, 'demo with bug:', rc, o[-300:].strip())
        for p, rc, o in check(allp() if every else [prop]):
            if rc or p == prop: print(bid, 'check', p, 'CAUGHT' if rc == 1 else 'quiet' if rc == 0 else 'BROKEN', o)
    finally:
        sh('git checkout -q -- .')
        if '--checkonly' not in sys.argv: build()


def refac(n, full='--build' in sys.argv):
    rc, o = sh('git apply %s/refac/%s.diff' % (V, n))
    if rc: print('PATCH FAILED', n, o); return
    try:
        if full:
            rc, o = build()
            if rc: print(n, 'BUILD FAILED', o[-2000:]); return
            rc, o = sh("ctest --test-dir _build -j8 -E '^TEST_Module\\.' --timeout 300 2>&1 | tail -15")
            print(n, 'tests:', [l for l in o.splitlines() if 'tests passed' in l or 'Failed' in l])
        only = [a[2:] for a in sys.argv if a.startswith('-C')]
        r = [(p, rc, o) for p, rc, o in check(only or allp()) if rc]
        print(n, 'quiet' if not r else 'ALARM', r)
    finally:
        sh('git checkout -q -- .')


if __name__ == '__main__':
    if sys.argv[1] == 'sync': sync()
    elif sys.argv[1] == 'test':
        ids = [a for a in sys.argv[2:] if not a.startswith('-')]
        if ids == ['ALL']: ids = sorted(os.listdir(V + '/seeded'))
        for b in ids: test(b)
    elif sys.argv[1] == 'refac':
        ids = [a for a in sys.argv[2:] if not a.startswith('-')]
        if ids == ['ALL']: ids = sorted(f[:-5] for f in os.listdir(V + '/refac') if f.endswith('.diff'))
        for b in ids: refac(b)
