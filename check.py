#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [-v]

Decides one property of /repo by symbolic execution of the real code (engine/amsym over the LLVM bitcode of a harness that
includes /repo's headers), every branch and assertion decided by an SMT solver. Exit 0: holds within the stated bounds.
Exit 1 with VIOLATION: a counterexample that reproduces on the natively built code. Anything else: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks  # noqa: E402

REPO = os.environ.get('AMSYM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
ENGINE = os.path.join(HERE, 'engine')
HARN = os.path.join(HERE, 'harness')
JOBS = int(os.environ.get('AMSYM_JOBS', '8'))
BASE = ['-std=c++17', '-fno-exceptions', '-fno-threadsafe-statics', '-I' + ENGINE, '-I' + HARN, '-I' + REPO, '-I' + REPO + '/amtl',
        '-D_GLIBCXX_ASSERTIONS', '-U_FORTIFY_SOURCE', '-w']
BC = ['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-inline', '-g', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c', '-DAMSYM_BC']
UB = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,builtin', '-fsanitize-trap=all']
DEBUG = ['-DDEBUG', '-D_DEBUG']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-fno-omit-frame-pointer']

VERBOSE = False
print_lock = threading.Lock()


def say(*a):
    with print_lock:
        print(*a, flush=True)


def run(cmd, timeout=600, env=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, errors='replace', **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout')


class Broken(Exception):
    pass


def build_engine():
    """Builds the executor and its run-time library when they are missing or older than their sources."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = sorted(os.path.join(ENGINE, f) for f in os.listdir(ENGINE))
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    stamp = os.path.join(BUILD, 'stamp')
    want = h.hexdigest()
    import fcntl
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(os.path.join(BUILD, 'amsym')):
            return
        r = run(['make', '-C', ENGINE, '-j8', 'OUT=' + BUILD], timeout=900)
        if r.returncode:
            raise Broken('engine build failed:\n' + r.stdout[-3000:] + r.stderr[-3000:])
        r = run(['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-inline', '-g', '-fno-exceptions', '-fno-threadsafe-statics', '-fno-rtti',
                 '-fno-access-control', '-fno-builtin', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c', ENGINE + '/runtime.cpp', '-o', BUILD + '/runtime.bc'])
        if r.returncode:
            raise Broken('runtime build failed:\n' + r.stderr[-3000:])
        r = run(['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-inline', '-g', '-fno-exceptions', '-fno-threadsafe-statics', '-fno-rtti',
                 '-fno-access-control', '-fno-builtin', '-w', '-emit-llvm', '-c', ENGINE + '/runtime_streams.cpp', '-o', BUILD + '/runtime_streams.bc'])
        if r.returncode:
            raise Broken('runtime build failed:\n' + r.stderr[-3000:])
        open(stamp, 'w').write(want)


class Work:
    """Scratch directory with memoised compilations."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='amsym-')
        self.memo = {}
        self.lock = threading.Lock()

    def once(self, key, fn):
        with self.lock:
            ent = self.memo.get(key)
            if ent is None:
                ent = self.memo[key] = [threading.Lock(), None, None]
        with ent[0]:
            if ent[1] is None and ent[2] is None:
                try:
                    ent[1] = fn()
                except Exception as e:  # noqa
                    ent[2] = e
        if ent[2] is not None:
            raise ent[2]
        return ent[1]

    def path(self, *parts):
        return os.path.join(self.dir, hashlib.md5(repr(parts).encode()).hexdigest()[:12] + '-' + str(parts[-1]))


W = None


def defs_of(r):
    return (['-DNDEBUG'] if r.get('ndebug') else DEBUG) + list(r.get('defs', []))


def source(r):
    """The harness, or (r['alone']) a copy of it with the one entry only."""
    if not r.get('alone'):
        return os.path.join(HARN, r['src'])

    def go():
        t = open(os.path.join(HARN, r['src'])).read()
        keep, skip = [], False
        for l in t.splitlines(True):
            m = re.match(r'ENTRY\(\s*(\w+)\s*\)', l)
            if m and m[1] != r['entry']:
                skip = l.count('{') != l.count('}')
                continue
            if not skip:
                keep.append(l)
            elif l.startswith('}'):
                skip = False
        t = ''.join(keep)
        out = W.path('src', r['src'], r['entry'], 'h.cpp')
        open(out, 'w').write(t)
        return out
    return W.once(('src', r['src'], r['entry']), go)


def models(bc):
    streams = b'ios_base' in open(bc, 'rb').read()
    return ([BUILD + '/runtime_streams.bc'] if streams else []) + [BUILD + '/runtime.bc']


def compile_bc(r):
    key = ('bc', r['src'], tuple(defs_of(r)), r.get('alone') and r['entry'])

    def go():
        out = W.path(*key, 'h.bc')
        p = run(BC + (UB if r.get('ub', True) else []) + BASE + defs_of(r) + [source(r), '-o', out])
        if p.returncode:
            raise Broken('harness %s does not compile%s:\n%s' % (r['src'], ' for the entry ' + r['entry'] if r.get('alone') else '', p.stderr[-3000:]))
        return out
    try:
        return W.once(key, go)
    except Broken:
        if r.get('alone'):
            raise
        # The code under test may have lost something that only other entries use.
        r['alone'] = True
        return compile_bc(r)


def wraps_of(src):
    t = open(os.path.join(HARN, src)).read()
    return sorted(set(re.findall(r'__wrap_(\w+)\s*\(', t)))


def compile_native(r, kind):
    """kind: gcc (ASan+UBSan), clang0 (clang -O0, pattern-initialised locals), plain0 (for valgrind), sched-asan, sched-tsan"""
    key = ('nat', r['src'], tuple(defs_of(r)), kind, r.get('alone') and r['entry'])

    def go():
        out = W.path(*key, 'exe')
        src = source(r)
        wrap = [o + w for w in wraps_of(r['src']) for o in ('-Wl,--wrap=', '-fno-builtin-')]
        if kind.startswith('sched'):
            san = 'address' if kind == 'sched-asan' else 'thread'
            bc = compile_bc(r)
            ins = W.path(*key, 'ins.bc')
            p = run([BUILD + '/amsym', '--instrument', ins, '--sanitize', san, bc] + models(bc))
            if p.returncode:
                raise Broken('instrumentation failed: ' + p.stderr[-2000:])
            obj = W.path(*key, 'n.o')
            p = run(['clang++', '-std=c++17', '-O1', '-g', '-c', '-DAMSYM_SCHED', '-w'] + (['-DAMSYM_TSAN'] if san == 'thread' else ['-DAMSYM_HOOKS']) + [ENGINE + '/native.cpp', '-o', obj])
            if p.returncode:
                raise Broken('native support build failed: ' + p.stderr[-2000:])
            p = run(['clang++', '-O1', '-g', '-w', '-fsanitize=' + san, ins, obj, '-rdynamic', '-lpthread', '-ldl', '-o', out])
        else:
            cc = {'gcc': ['g++', '-O1', '-g'] + SAN, 'clang0': ['clang++', '-O0', '-g', '-ftrivial-auto-var-init=pattern'] + SAN,
                  'plain0': ['g++', '-O0', '-g']}[kind]
            p = run(cc + BASE + defs_of(r) + wrap + [src, ENGINE + '/native.cpp', '-rdynamic', '-lpthread', '-ldl', '-o', out])
        if p.returncode:
            raise Broken('native build (%s) of %s failed:\n%s' % (kind, r['src'], p.stderr[-3000:]))
        return out
    return W.once(key, go)


def block(r, inputs, sched=None, obs=None):
    s = 'W\n'
    for k, v in r.get('params', {}).items():
        s += 'P %s %d\n' % (k, v)
    for n, h in inputs:
        s += 'I %s %s\n' % (n, h)
    if sched:
        s += 'S ' + ' '.join(map(str, sched)) + '\n'
    for o in obs or []:
        s += 'O %s\n' % o
    return s + 'E\n'


ENV = dict(os.environ, ASAN_OPTIONS='exitcode=78:allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:max_malloc_fill_size=4096:malloc_fill_byte=170:alloc_dealloc_mismatch=1:strict_string_checks=0',
           UBSAN_OPTIONS='exitcode=79:print_stacktrace=0', TSAN_OPTIONS='exitcode=66:halt_on_error=1:die_after_fork=0', LSAN_OPTIONS='detect_leaks=0')


def run_native(r, kind, mode, text, name, valgrind=False):
    exe = compile_native(r, kind)
    f = W.path(name, threading.get_ident(), 'in.txt')
    open(f, 'w').write(text)
    cmd = [exe, r['entry'], mode, f]
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=88', '--trace-children=no', '--exit-on-first-error=no'] + cmd
    if kind == 'sched-tsan':
        cmd = ['setarch', '-R'] + cmd
    p = run(cmd, timeout=400, env=ENV)
    res = re.findall(r'RESULT (\d+) (\w+) (\d+)', p.stdout)
    return [(k, int(v)) for _, k, v in res], p.stderr, f


def failed(k, v):
    return k == 'signal' or v in (77, 78, 79, 66, 88, 1)


def replay(r, v):
    """Does the counterexample reproduce on the natively built code? Returns (ok, how, stderr)."""
    text = block(r, v['inputs'], v['sched'])
    tries = []
    if r.get('sched'):
        tries = ['sched-tsan', 'sched-asan'] if v['kind'] == 'race' else ['sched-asan', 'sched-tsan']
    elif v['kind'] == 'uninit':
        tries = ['plain0', 'gcc', 'clang0']
    else:
        tries = ['gcc', 'clang0']
    err_all = ''
    for t in tries:
        try:
            res, err, _ = run_native(r, t, 'r', text, 'replay-' + r['entry'], valgrind=(t == 'plain0'))
        except Broken as e:
            err_all += str(e)
            continue
        if t == 'plain0' and 'uninitialised' in err:
            return True, t + ' under valgrind', err
        if res and failed(*res[0]):
            return True, t, err
        err_all += '[%s: %s] %s\n' % (t, res, err[-1500:])
    return False, '', err_all


def entry_covers(src, entry):
    t = open(os.path.join(HARN, src)).read()
    m = re.search(r'ENTRY\(\s*' + re.escape(entry) + r'\s*\)', t)
    if not m:
        raise Broken('no entry %s in %s' % (entry, src))
    nx = re.search(r'^ENTRY\(', t[m.end():], re.M)
    body = t[m.end():m.end() + nx.start()] if nx else t[m.end():]
    return set(re.findall(r'COVER\("([^"]+)"\)', body))


def one(r, tier, seed):
    bc = compile_bc(r)
    out = W.path('run', r['src'], r['entry'], repr(sorted(r.get('params', {}).items())), tuple(defs_of(r)), 'out.json')
    cmd = [BUILD + '/amsym', '--entry', r['entry'], bc] + models(bc) + ['--out', out, '--seed', str(seed),
           '--timeout', str(r.get('timeout', (350 if r.get('sched') else 500) if tier == 'quick' else 3000)), '--witnesses', str(r.get('witnesses', 12))]
    for k, v in r.get('params', {}).items():
        cmd += ['--param', '%s=%d' % (k, v)]
    if 'pre' in r:
        cmd += ['--preemptions', str(r['pre'])]
    if 'max_steps' in r:
        cmd += ['--max-steps', str(r['max_steps'])]
    if 'max_alloc' in r:
        cmd += ['--max-alloc', str(r['max_alloc'])]
    cmd += r.get('args', [])
    p = run(cmd, timeout=4000)
    if p.returncode or not os.path.exists(out):
        raise Broken('executor failed on %s (%s): %s' % (r['entry'], p.returncode, p.stderr[-2000:]))
    o = json.load(open(out))
    limit = 'time limit of the exploration reached'
    if r.get('sched') and o['incomplete'] == [limit] and not o['violations'] and r.get('pre', 99) > 2:
        # Too many interleavings for the time: fewer preemptions, completely, and say so.
        for pre in (3, 2):
            if pre >= r.get('pre', 99):
                continue
            c2 = list(cmd)
            c2[c2.index('--timeout') + 1] = '150' if tier == 'quick' else '1500'
            if '--preemptions' in c2:
                c2[c2.index('--preemptions') + 1] = str(pre)
            else:
                c2 += ['--preemptions', str(pre)]
            p = run(c2, timeout=4000)
            if p.returncode == 0:
                o2 = json.load(open(out))
                if limit not in o2['incomplete']:
                    o2['reduced'] = 'at most %d preemptions: the run without that bound did not finish in its time' % pre
                    o = o2
                    break
    o['run'] = r
    # native validation of sampled paths
    o['validated'] = 0
    o['native_bad'] = []
    if o['witnesses']:
        text = ''.join(block(r, w['inputs'], w['sched'], w['obs']) for w in o['witnesses'])
        kind = 'sched-asan' if r.get('sched') else 'gcc'
        res, err, _ = run_native(r, kind, 'v', text, 'val-' + r['entry'])
        for i, w in enumerate(o['witnesses']):
            if i >= len(res):
                o['native_bad'].append((w, 'native run ended early', err))
            elif res[i] == ('exit', 0):
                o['validated'] += 1
            else:
                # once more, alone: only a failure that repeats says anything about the code
                res2, err2, _ = run_native(r, kind, 'v', block(r, w['inputs'], w['sched'], w['obs']), 'val2-' + r['entry'])
                if res2 and res2[0] == ('exit', 0):
                    o['validated'] += 1
                else:
                    o['native_bad'].append((w, '%s %d' % (res2[0] if res2 else res[i]), err2 or err))
    o['replayed'] = []
    groups = {}
    for v in o['violations']:
        groups.setdefault((v['kind'], v['msg'], v['loc']), []).append(v)
    for key, vs in groups.items():
        ok = False
        for v in vs:
            ok, how, err = replay(r, v)
            if ok:
                break
        o['replayed'].append((v, ok, how, err))
    return o


def load_findings():
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    return json.load(open(p)) if os.path.exists(p) else []


def save_replay(prop, n, r, v, how, err):
    d = os.path.join(HERE, 'replays', prop, str(n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/input.txt', 'w').write(block(r, v['inputs'], v['sched']))
    json.dump({'property': prop, 'entry': r['entry'], 'harness': r['src'], 'defs': defs_of(r), 'params': r.get('params', {}), 'violation': v, 'reproduced_by': how,
               'native_output': err[-4000:]}, open(d + '/violation.json', 'w'), indent=1)
    open(d + '/replay.sh', 'w').write('#!/bin/sh\n# rebuilds the harness against the current /repo and runs it on the recorded input\nexec python3 %s/check.py %s --replay %s\n' % (HERE, prop, d))
    os.chmod(d + '/replay.sh', 0o755)
    return d


def do_replay(prop, d):
    global W
    j = json.load(open(d + '/violation.json'))
    build_engine()
    W = Work()
    try:
        r = next((x for x in checks.PROPS[prop]['runs'] if x['entry'] == j['entry'] and x['src'] == j['harness'] and defs_of(x) == j['defs']), None)
        r = dict(r, params=j['params'])
        ok, how, err = replay(r, j['violation'])
        say(err[-3000:])
        say('reproduced (%s)' % how if ok else 'does not reproduce')
        return 1 if ok else 0
    finally:
        shutil.rmtree(W.dir, ignore_errors=True)


def main():
    global W, VERBOSE
    av = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    prop = None
    while av:
        a = av.pop(0)
        if a == '--tier':
            tier = av.pop(0)
        elif a == '--only':
            only = av.pop(0)
        elif a == '-v':
            VERBOSE = True
        elif a == '--setup':
            build_engine()
            return 0
        elif a == '--replay':
            return do_replay(prop, av.pop(0))
        else:
            prop = a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = checks.PROPS[prop]
    runs = []
    for r in P['runs']:
        if r.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        if r.get('tier') == 'quick-only' and tier != 'quick':
            continue
        r = dict(r)
        if tier == 'thorough' and 'thorough' in r:
            r.update({k: v for k, v in r['thorough'].items() if k != 'params'})
            if 'params' in r['thorough']:
                r['params'] = dict(r.get('params', {}), **r['thorough']['params'])
        if only and r['entry'] != only:
            continue
        runs.append(r)
    shutil.rmtree(os.path.join(HERE, 'replays', prop), ignore_errors=True)
    broken = []
    outs = []
    try:
        build_engine()
        W = Work()
    except Broken as e:
        say('check %s: %s' % (prop, e))
        return 2
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = {ex.submit(one, r, tier, seed): r for r in sorted(runs, key=lambda r: -r.get('weight', 1))}
            for f in cf.as_completed(fs):
                try:
                    o = f.result()
                    outs.append(o)
                    if VERBOSE:
                        s = o['stats']
                        say('  %s%s: paths %d killed %d queries %d solver %.1fs wall %.1fs validated %d/%d viol %d %s' % (
                            o['entry'], (' release ' if o['run'].get('ndebug') else ' debug ') + str(o['run'].get('params', '')), s['paths'], s['killed'], s['queries'], s['solver_ms'] / 1000, s['wall_s'], o['validated'], len(o['witnesses']), len(o['violations']), o['incomplete'] or ''))
                except Broken as e:
                    broken.append(str(e))
                except Exception as e:  # noqa
                    import traceback
                    broken.append('internal: ' + traceback.format_exc())
    finally:
        if os.environ.get('AMSYM_KEEP'):
            say('kept', W.dir)
        else:
            shutil.rmtree(W.dir, ignore_errors=True)
    outs.sort(key=lambda o: (o['entry'], repr(o['run'].get('params'))))
    findings = [f for f in load_findings() if f['property'] == prop and f['status'] == 'known']
    nviol = 0
    lines = []
    inconcl = []
    known_seen = set()
    for o in outs:
        r = o['run']
        for v, ok, how, err in o['replayed']:
            kf = next((f for f in findings if f['entry'] == o['entry'] and re.search(f['match'], v['kind'] + ': ' + v['msg'] + ' at ' + v['loc'])), None)
            if kf:
                if kf['id'] not in known_seen:
                    known_seen.add(kf['id'])
                    say('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
                continue
            if ok:
                nviol += 1
                d = save_replay(prop, nviol, r, v, how, err)
                lines.append('VIOLATION property=%s replay=%s' % (prop, d))
                say('%s [%s] %s at %s\n    reproduced natively by %s; inputs %s' % (o['entry'], v['kind'], v['msg'], v['loc'], how, v['inputs'][:12]))
            else:
                inconcl.append('%s: [%s] %s at %s did not reproduce natively: %s' % (o['entry'], v['kind'], v['msg'], v['loc'], err[-800:]))
                if VERBOSE:
                    say(json.dumps(v, indent=1)[:3000])
        for w, what, err in o['native_bad']:
            if what in ('exit 75', 'exit 76', 'exit 2', 'native run ended early'):
                inconcl.append('%s: executor and native run differ (%s): %s inputs %s' % (o['entry'], what, err[-600:], w['inputs'][:12]))
            else:
                nviol += 1
                v = {'kind': 'native', 'msg': 'a sampled path fails natively: ' + what, 'loc': o['entry'], 'trace': [], 'sched': w['sched'], 'inputs': w['inputs']}
                d = save_replay(prop, nviol, r, v, 'native validation', err)
                lines.append('VIOLATION property=%s replay=%s' % (prop, d))
                say('%s fails natively on a sampled path (%s): %s\n   inputs %s' % (o['entry'], what, err[-1200:], w['inputs'][:12]))
        if not o['violations'] and not o['native_bad']:
            miss = entry_covers(r['src'], o['entry']) - set(o['covers']) - set(r.get('nocover', []))
            if miss:
                inconcl.append('%s: not reached: %s' % (o['entry'], ', '.join(sorted(miss))))
        if not r.get('finding'):
            for i in o['incomplete']:
                if not (o['violations'] and 'configured number' in i):
                    inconcl.append('%s: %s' % (o['entry'], i))
    tot = {}
    for o in outs:
        for k, v in o['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k in ('max_query_ms', 'rss_mb', 'threads', 'wall_s') else tot.get(k, 0) + v
    fns = sorted(set(f for o in outs for f in o['functions']))
    samples = []
    for o in outs:
        for w in o['witnesses'][:2]:
            samples.append({'entry': o['entry'], 'params': o['run'].get('params', {}), 'inputs': w['inputs'][:40], 'schedule': w['sched'][:60], 'observations': w['obs'][:12]})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0) + tot.get('killed', 0)),
            'transitions': int(tot.get('instructions', 0)),
            'traces_validated_against_impl': sum(o['validated'] for o in outs),
            'samples': samples[:24],
            'exhaustive': not inconcl and not broken,
            'explanation': 'states: paths of the real code explored symbolically, each standing for all inputs that satisfy its path condition; transitions: LLVM instructions executed symbolically; '
                           'traces_validated: sampled paths whose concrete inputs were run on the natively built code with equal observations and no sanitizer report.',
            'functions_encoded': fns, 'functions_encoded_count': len(fns),
            'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''),
            'solver_queries': int(tot.get('queries', 0)), 'solver_unsat': int(tot.get('unsat', 0)), 'solver_sat': int(tot.get('sat', 0)), 'solver_unknown': int(tot.get('unknown', 0)),
            'solver_cache_hits': int(tot.get('cache_hits', 0)), 'decided_by_model_reuse': int(tot.get('model_hits', 0)), 'solver_portfolio_queries': int(tot.get('portfolio', 0)),
            'solver_time_s': round(tot.get('solver_ms', 0) / 1000, 2), 'slowest_query_ms': tot.get('max_query_ms', 0),
            'assertions_evaluated': int(tot.get('asserts', 0)), 'assertions_with_symbolic_operands': int(tot.get('symbolic_asserts', 0)),
            'schedule_points': int(tot.get('schedule_points', 0)), 'threads': int(tot.get('threads', 1)),
            'entries': [{'entry': o['entry'], 'params': o['run'].get('params', {}), 'defs': defs_of(o['run']), 'paths': o['stats']['paths'], 'cut_by_assumption_or_violation': o['stats']['killed'],
                         'queries': o['stats']['queries'], 'solver_ms': o['stats']['solver_ms'], 'wall_s': o['stats']['wall_s'], 'reached': o['covers'], **({'reduced_bound': o['reduced']} if 'reduced' in o else {})} for o in outs],
            'inconclusive': inconcl[:10] + broken[:5],
        },
        'assumptions': P.get('assumptions', []) + checks.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for b in broken:
        say('check %s: %s' % (prop, b))
    for i in inconcl:
        say('inconclusive: ' + i)
    for l in sorted(set(lines)):
        say(l)
    say('%s %s: %d runs, %d paths, %d queries, %.1f s solver, %.1f s wall, %d traces validated, %d violations' % (
        prop, tier, len(outs), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_ms', 0) / 1000, time.time() - t0, sum(o['validated'] for o in outs), nviol))
    if nviol:
        return 1
    if broken or inconcl:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
