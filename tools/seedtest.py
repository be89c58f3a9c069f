#!/usr/bin/env python3
"""seedtest.py [-n] [ids...]: try planted changes in a scratch copy of /repo:
patch applies, builds, existing tests pass, demo 0 without / nonzero with it,
and (without -n) which exit code the property's quick check gives."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')
def build(d):
    e = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', CMAKE_GENERATOR='Ninja')
    return sh('cmake -S . -B _build -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTS=ON && ninja -C _build', d, e)
def demo(id, d):
    """the demo folder lies elsewhere"""
    t = tempfile.mkdtemp(prefix='demo-')
    shutil.copytree(os.path.join(V, 'seeded', id), t + '/x')
    for f in ('patch.diff', 'meta.json'):
        os.unlink(t + '/x/' + f)
    try:
        return sh('bash %s/x/demo.sh' % t, d, timeout=300)
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
    finally:
        shutil.rmtree(t)
def one(id, check, base):
    meta = json.load(open(os.path.join(V, 'seeded', id, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-'); d = w + '/repo'
    try:
        sh('cp -a %s %s' % (base, d))
        rc0, o0 = demo(id, base)
        shutil.rmtree(d + '/_build')
        rc, o = sh('git apply %s' % os.path.join(V, 'seeded', id, 'patch.diff'), d)
        if rc: return id, 'PATCH DOES NOT APPLY ' + o
        rc, o = build(d)
        if rc: return id, 'BUILD FAILS ' + o[-800:]
        rc, o = sh('ctest --test-dir _build -j4 --timeout 60', d)
        if rc: return id, 'TESTS FAIL ' + o[-800:]
        rc1, o1 = demo(id, d)
        msg = 'demo %d/%d' % (rc0, rc1)
        if rc0 != 0 or rc1 == 0:
            msg += ' DEMO WRONG ' + o0[-300:] + o1[-300:]
        if check:
            e = dict(os.environ, VERIF_REPO=d, VERIF_EVID=w + '/evid', VERIF_SEED='1', VERIF_TIER='quick')
            rc, o = sh('python3 bin/check.py ' + meta['property'], V, e)
            msg += ' %s %s: %s' % (meta['property'], 'CAUGHT' if rc == 1 and 'VIOLATION property=' + meta['property'] in o else 'MISSED rc=%d' % rc, o[-400:] if rc != 0 else '')
        return id, msg
    finally:
        shutil.rmtree(w, ignore_errors=True)
def main():
    a = sys.argv[1:]
    check = '-n' not in a
    ids = [x for x in a if x != '-n'] or sorted(os.listdir(os.path.join(V, 'seeded')))
    base = tempfile.mkdtemp(prefix='seedbase-') + '/repo'
    shutil.copytree('/repo', base, ignore=shutil.ignore_patterns('_build'), symlinks=True)
    rc, o = build(base)
    if rc: print(o); return
    with ThreadPoolExecutor(3) as ex:
        for id, m in ex.map(lambda i: one(i, check, base), ids):
            print(id, m, flush=True)
    shutil.rmtree(os.path.dirname(base))
main()
