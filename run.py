#!/usr/bin/env python3
"""Driver of all checks:  run.py <property id> [--tier quick|thorough] [--replay FILE]

Builds the VISR libraries the check needs (AddressSanitizer, asserts active) and
the check itself from /repo's current working tree, runs the generated-input
search and writes evidence/<id>.json.

exit 0: held on everything explored;  exit 1: VIOLATION line printed;
exit 2: no answer (the tree does not build, or the environment failed).
"""
import argparse, fcntl, filecmp, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(BUILD, 'src')
BIN = os.path.join(BUILD, 'bin')
PYBIN = os.path.join(BUILD, 'pybin')
PYTHON = '/usr/bin/python3'
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def mirror():
    """Content-compared copy of the sources: files whose content is unchanged keep
    their time stamp, changed ones get a new one (so ninja can never be stale)."""
    keep = set()
    for top in ('3rd', 'cmake_modules', 'config', 'resources', 'src', 'CMakeLists.txt', 'LICENSE.md', 'Readme.md',
                'ChangeLog.txt', 'Contributors.md', 'doc'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            copy(p, os.path.join(SRC, top), keep)
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = [x for x in dirs if x not in ('.git', '__pycache__', '_build')]
            if top == 'doc':
                files = [f for f in files if f == 'CMakeLists.txt' or f.endswith('.in') or f.endswith('.txt')]
            rel = os.path.relpath(d, REPO)
            for f in files:
                copy(os.path.join(d, f), os.path.join(SRC, rel, f), keep)
    for d, dirs, files in os.walk(SRC):
        for f in files:
            q = os.path.join(d, f)
            if q not in keep:
                os.unlink(q)


def copy(a, b, keep):
    keep.add(b)
    if not os.path.exists(a):
        return  # dangling link
    if os.path.exists(b) and os.path.getsize(a) == os.path.getsize(b) and filecmp.cmp(a, b, shallow=False):
        return
    os.makedirs(os.path.dirname(b), exist_ok=True)
    shutil.copyfile(a, b)


def build(target, python=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        env = dict(os.environ, CC='gcc', CXX='g++', LANG='C.UTF-8', CCACHE_DISABLE='1')
        for v in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS', 'MAKEFLAGS'):
            env.pop(v, None)
        flags = '-O0 -g0 -fPIC -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS' if python else '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address'
        top = PYBIN if python else BIN
        cfg = ['cmake', '-S', SRC, '-B', top, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
               '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=' + flags, '-DCMAKE_C_FLAGS_RELWITHDEBINFO=' + flags,
               '-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF', '-DCMAKE_CXX_FLAGS=-Wno-error -w', '-DCMAKE_C_FLAGS=-Wno-error -w',
               '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DBUILD_TESTING=OFF',
               '-DBUILD_STANDALONE_APPLICATIONS=OFF', '-DBUILD_DOCUMENTATION=OFF', '-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON']
        if python:
            cfg += ['-DBUILD_PYTHON_BINDINGS=ON', '-DPYTHON_EXECUTABLE=' + PYTHON, '-DBUILD_INSTALL_SHARED_LIBRARIES=ON',
                    '-DBUILD_INSTALL_STATIC_LIBRARIES=OFF',
                    '-DCMAKE_PROJECT_INCLUDE=' + os.path.join(VERIF, 'harness', 'inject_py.cmake')]
        else:
            cfg += ['-DBUILD_PYTHON_BINDINGS=OFF', '-DBUILD_INSTALL_SHARED_LIBRARIES=OFF', '-DBUILD_INSTALL_STATIC_LIBRARIES=ON',
                    '-DCMAKE_PROJECT_INCLUDE=' + os.path.join(VERIF, 'harness', 'inject.cmake')]
        stamp = os.path.join(top, 'verif_config')
        want = '\n'.join(cfg)
        if not (os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(os.path.join(top, 'build.ninja'))):
            shutil.rmtree(top, ignore_errors=True)
            r = subprocess.run(cfg, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log(r.stdout[-4000:])
                return False
            open(stamp, 'w').write(want)
        r = subprocess.run(['ninja', '-C', top] + target, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # once more, serially: an out-of-memory kill of a compiler is not a compile error
            r = subprocess.run(['ninja', '-C', top, '-j2'] + target, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
        if r.returncode:
            err = [l for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l][:25]
            log('\n'.join(err) or r.stdout[-3000:])
            return False
        return True


def locked_mirror():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1')
    ap.add_argument('--replay')
    ap.add_argument('--scale', default='1')
    ap.add_argument('--sub', default='')
    ap.add_argument('--wall', default='')
    a = ap.parse_args()
    if a.setup:
        # optional warm-up; every check builds what it needs by itself
        mods = sorted({m for c in CHECKS.values() for m in c.get('modules', [])})
        hosts = sorted(c['embedded'] for c in CHECKS.values() if 'embedded' in c)
        return 0 if build(['verif_all']) and build([m + SUFFIX for m in mods] + hosts, True) else 2
    chk = CHECKS[a.property]
    t0 = time.time()
    out = os.path.join(BUILD, 'run', a.property)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if not (a.replay and os.path.abspath(a.replay) == os.path.join(out, f)):
            os.unlink(os.path.join(out, f))
    seed = str(abs(int(a.seed)) if a.seed.lstrip('-').isdigit() else sum(map(ord, a.seed)))
    py = 'python' in chk or 'embedded' in chk  # Python code, or a C++ program that runs Python code
    if not (build([m + SUFFIX for m in chk['modules']] + [chk[k] for k in ('embedded',) if k in chk], True)
            if py and chk['modules'] else build([chk['binary']]) if not py else locked_mirror()):
        log('no answer: the tree does not build')
        return 2
    tb = time.time() - t0
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=77:abort_on_error=0:detect_container_overflow=0:'
                           'allocator_may_return_null=0:max_allocation_size_mb=4096:print_legend=0:'
                           'max_malloc_fill_size=65536:detect_stack_use_after_return=0')
    env['VERIF_REPO'] = REPO
    if py:
        # libstdc++ as well: the interceptor of __cxa_throw has to find it when the process starts
        asan = ':'.join(os.path.realpath(subprocess.run(['gcc', '-print-file-name=' + n], stdout=subprocess.PIPE, text=True)
                                         .stdout.strip()) for n in ('libasan.so', 'libstdc++.so'))
        for v in list(env):
            if v.startswith('PYTHON'):
                env.pop(v)
        env.update(PYTHONPATH=os.pathsep.join([os.path.join(PYBIN, 'python'), os.path.join(VERIF, 'harness', 'py')]),
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', VERIF_SRC=SRC,
                   PYTHONMALLOC='malloc')
        if chk['modules'] and 'python' in chk:
            env['LD_PRELOAD'] = asan
        cmd = ([PYTHON, os.path.join(VERIF, 'harness', 'py', chk['python'])] if 'python' in chk else
               [os.path.join(PYBIN, 'checks', chk['embedded'])])
    else:
        cmd = [os.path.join(BIN, 'checks', chk['binary'])]
    cmd += ['--property', a.property, '--tier', a.tier, '--seed', seed, '--out', out,
           '--scale', a.scale, '--wall', a.wall or str(chk.get('wall', {}).get(a.tier, 120 if a.tier == 'quick' else 600))]
    if a.sub:
        cmd += ['--sub', a.sub]
    if a.replay:
        cmd += ['--replay', os.path.abspath(a.replay)]
    r = subprocess.run(cmd, env=env, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    log(r.stdout.rstrip())
    if a.replay:
        return r.returncode
    try:
        res = json.load(open(os.path.join(out, 'result.json')))
    except Exception as e:
        log('no answer: the check did not finish:', e, 'status', r.returncode)
        return 2
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        if line.startswith('KNOWN-FINDING: property=%s ' % a.property):
            log(line.rstrip())
    ev = {'property': a.property, 'tier': a.tier, 'seed': int(seed), 'level': 'exploration',
          'coverage': {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'],
                       'rule': res['rule'], 'samples': res['samples'] or ['(none)'], 'planned': res['planned'],
                       'sub_checks': res['subs'], 'labels': res['labels']},
          'assumptions': [('gcc 13, -O1, asserts active, AddressSanitizer; one CPU type (x86-64)' if not py else
                           'gcc 13, -O0, asserts active, AddressSanitizer, Python 3.12; one CPU type (x86-64)' if chk['modules'] else
                           'Python 3.12 and numpy, no compiled code'),
                          'sampled, not exhaustive: bounds and distributions are in DESIGN.md'] + res['assumptions'] +
                         ([res['trouble']] if res['trouble'] else []),
          'wall_s': round(time.time() - t0, 1), 'violations': res['violations']}
    ev['coverage']['build_s'] = round(tb, 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w'), indent=1)
    log('build %.1f s, total %.1f s' % (tb, time.time() - t0))
    if r.returncode == 1 and res['violations']:
        return 1
    return 0 if r.returncode == 0 else 2


if __name__ == '__main__':
    sys.exit(main())
