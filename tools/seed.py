#!/usr/bin/env python3
"""seed.py DEFS.py [ID...]: turn planted-bug definitions into seeded/<id>/ after confirming each in a scratch copy of /repo:
it applies, builds, passes the stable tests, its demonstration passes without it and fails with it. Then run the checks of
the named property (and report which catch it). DEFS.py defines BUGS: a list of dicts id, prop, file, edits [(old, new)],
demo (C++ source, or None with sh), needs, breaks, optional flags / sh. Not used by any check."""
import json, os, subprocess, sys, runpy, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get('SEEDCOPY', '/tmp/rc')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# Run with cwd at the repository. Builds and runs the demonstration beside this file: exit 0 when the property holds on it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -O1 %s -w -I"$PWD" -I"$PWD/amtl" "$d/demo.cpp" %s -o "$t/demo" -lpthread -ldl || exit 2
timeout 200 "$t/demo"
'''
def setup():
    if not os.path.exists(COPY):
        sh('cp -a /repo %s && cp -a /opt/vp/amtl-build %s-build' % (COPY, COPY))
        # a build tree of its own
        sh('rm -rf %s/_build' % COPY)
def build_and_test():
    # The stock build configuration with /repo replaced by the copy
    bt = COPY + '-build'
    sh("sed -i 's#/repo#%s#g' %s/CMakeLists.txt" % (COPY, bt))
    r = sh('[ -f %s/_build/build.ninja ] || cmake -S %s -B %s/_build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++; ninja -C %s/_build' % (COPY, bt, COPY, COPY))
    if r.returncode: return 'build: ' + r.stdout[-1500:]
    r = sh('cd %s/_build && ctest -j8 --timeout 60' % COPY)
    if r.returncode: return 'tests: ' + ' '.join(r.stdout.split('FAILED:')[-1].split('Errors')[0].split())
    return None
def main():
    setup()
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    for b in bugs:
        if ids and b['id'] not in ids: continue
        sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (COPY, COPY, COPY))
        d = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        try:
            if b.get('demo') is not None: open(d + '/demo.cpp', 'w').write(b['demo'])
            open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO % (b.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=all'), b.get('srcs', '')))
            os.chmod(d + '/demo.sh', 0o755)
            r = sh('bash %s/demo.sh' % d, cwd=COPY, timeout=300)
            if r.returncode: raise Exception('demo fails on the unchanged tree (%d): %s' % (r.returncode, r.stdout[-1500:]))
            for f, old, new in b['edits']:
                p = os.path.join(COPY, f); s = open(p).read()
                if s.count(old) != 1: raise Exception('edit matches %d times: %r' % (s.count(old), old))
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C %s diff' % COPY).stdout
            open(d + '/patch.diff', 'w').write(diff)
            e = build_and_test()
            if e: raise Exception(e)
            r = sh('bash %s/demo.sh' % d, cwd=COPY, timeout=300)
            if r.returncode == 0: raise Exception('demo passes with the bug')
            if r.returncode == 2 and 'error:' in r.stdout: raise Exception('demo does not compile with the bug: ' + r.stdout[-1500:])
            json.dump({"property": b['prop'], "needs": b['needs'], "what_it_breaks": b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        except Exception as e:
            print('%-28s REJECTED %s' % (b['id'], e), flush=True)
            shutil.rmtree(d); continue
        if os.environ.get('NOCHECK'): print('%-28s ok' % b['id'], flush=True); continue
        r = sh('AMSYM_REPO=%s timeout 900 python3 %s/check.py %s --tier quick' % (COPY, HERE, b['prop']))
        lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'no answer', 'BROKEN', 'INCONCLUSIVE')) or 'inconclusive' in l.lower()]
        caught = r.returncode == 1 and any(l.startswith('VIOLATION property=%s' % b['prop']) for l in lines)
        print('%-28s %s %s rc=%d %s' % (b['id'], b['prop'], 'CAUGHT' if caught else 'MISSED', r.returncode, (lines or r.stdout.splitlines()[-2:])[:2]), flush=True)
    sh('git -C %s checkout -q -- .' % COPY)
main()
