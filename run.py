#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs one check.

  run.py build                       build only
  run.py check C01 quick|thorough    run one check (exit 0 held, 1 VIOLATION)
  run.py replay FILE                 run a replay file once, verbosely
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
CC, CXX, OBJCOPY = '/usr/bin/clang-18', '/usr/bin/clang++-18', '/usr/bin/objcopy'
for n in ('CC', 'CXX'):
    if not os.path.exists(globals()[n]):
        globals()[n] = {'CC': 'clang', 'CXX': 'clang++'}[n]

LIBFLAGS = ('-O0 -g -w -fno-pie -fno-builtin -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores '
            '-fno-zero-initialized-in-bss -fno-common -fsanitize-address-use-after-return=never -mllvm -asan-use-private-alias=1').split()
HFLAGS = '-O1 -g1 -w -std=c++17 -fno-pie'.split()
RENAMES = {n: 'sim_' + n for n in '''malloc calloc realloc free reallocarray memalign posix_memalign strdup strndup malloc_usable_size
 memcpy memmove memset strlen strnlen strcmp strncmp memcmp memchr strchr strrchr strcpy strncpy strcat strncat snprintf vsnprintf sprintf
 time clock clock_gettime rand random srand'''.split()}
RENAMES.update({'aligned_alloc': 'sim_aligned_alloc', 'pthread_mutex_lock': 'sim_mutex_lock', 'pthread_mutex_unlock': 'sim_mutex_unlock',
                '__asan_memcpy': 'sim_asan_memcpy', '__asan_memmove': 'sim_asan_memmove', '__asan_memset': 'sim_asan_memset',
                'bcmp': 'sim_bcmp'})
for kind in ('load', 'store', 'exp_load', 'exp_store'):
    for sz in ('1', '2', '4', '8', '16', '_n'):
        RENAMES['__asan_report_%s%s' % (kind, sz)] = 'sim_asan_report_%s%s' % (kind, sz)

class BuildError(Exception):
    pass

WIN_UNUSABLE = []       # what the compiler said, if the Windows module does not compile against sim/win

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]

def lib_sources():
    srcs = []
    for d in ('data', 'encode', 'hash', 'mem', 'misc'):
        srcs += sorted(glob.glob(os.path.join(REPO, d, '*.c')))
    srcs += sorted(glob.glob(os.path.join(REPO, 'win32', '*.c')))
    return srcs

def includes(src, dirs, seen=None):
    """The headers src includes by name, recursively (system headers aside)."""
    seen = set() if seen is None else seen
    for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', open(src, errors='replace').read(), re.M):
        for d in [os.path.dirname(src)] + dirs:
            f = os.path.normpath(os.path.join(d, m.group(1)))
            if os.path.isfile(f):
                if f not in seen:
                    seen.add(f); includes(f, dirs, seen)
                break
    return seen

def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    dirs = [REPO, SIM, os.path.join(SIM, 'win')] + [os.path.join(REPO, d) for d in ('data', 'encode', 'hash', 'mem', 'misc', 'win32')]
    deps = lambda src: sorted(includes(src, dirs))
    hsrc = [x for x in sorted(glob.glob(os.path.join(SIM, '*.cpp'))) if not x.endswith('/large.cpp')]
    jobs, objs = [], []
    ren = os.path.join(BUILD, 'renames')
    with open(ren, 'w') as f:
        for k, v in RENAMES.items():
            f.write('%s %s\n' % (k, v))
    def libjob(src, flags, out):
        tmp = out + '.tmp%d.o' % os.getpid()
        sh([CC] + LIBFLAGS + flags + ['-c', usable(src), '-o', tmp])
        sh([OBJCOPY, '--redefine-syms=' + ren, '--rename-section', '.data=libdata', tmp])
        os.rename(tmp, out)
    # The Windows module may use a part of the Windows API the stand-in headers lack. That must not take the verdict
    # away from the checks of everything else, which then go on with a copy of the module made when this was written.
    def usable(src):
        if '/win32/' in src:
            r = subprocess.run([CC, '-w', '-fsyntax-only', '-DCRE_TEST', '-I', REPO, '-I', SIM, '-I', os.path.join(SIM, 'win'), '-I', os.path.join(REPO, 'win32'), src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            alt = os.path.join(SIM, 'fallback', os.path.basename(src))
            if r.returncode != 0 and os.path.exists(alt):
                WIN_UNUSABLE.append(r.stdout[-1500:])
                return alt
        return src
    def hjob(src, out, cc, flags):
        tmp = out + '.tmp%d.o' % os.getpid()
        sh([cc] + flags + ['-c', src, '-o', tmp])
        os.rename(tmp, out)
    units = [(s, []) for s in lib_sources()] + [(os.path.join(SIM, 'shim.c'), [])]
    if os.path.exists(os.path.join(SIM, 'winshim.c')):
        units.append((os.path.join(SIM, 'winshim.c'), []))
    for src, fl in units:
        name = os.path.relpath(src, '/').replace('/', '_')
        flags = ['-DCRE_TEST', '-I', REPO, '-I', SIM] + fl
        if '/win32/' in src or src.endswith('winshim.c'):
            flags += ['-I', os.path.join(SIM, 'win'), '-I', os.path.join(REPO, 'win32')]
        key = digest([src] + deps(src), flags, LIBFLAGS, RENAMES)
        out = os.path.join(BUILD, '%s-%s.o' % (name, key))
        if usable(src) != src:
            out = out[:-2] + '-fallback.o'
        objs.append(out)
        if not os.path.exists(out):
            jobs.append((libjob, (src, flags, out)))
    # Uninstrumented copies, for inputs of several GiB (see sim/extra.cpp).
    # -fwrapv so that a counter which overflows does so in a defined way.
    for src in [os.path.join(REPO, x) for x in ('hash/crc32.c', 'hash/fnv1a.c', 'encode/base64.c', 'encode/hex.c')]:
        key = digest([src] + deps(src), 'fast3')
        out = os.path.join(BUILD, 'fast_%s-%s.o' % (os.path.basename(src), key))
        objs.append(out)
        def fastjob(src, out):
            tmp = out + '.tmp%d.o' % os.getpid()
            sh([CC, '-O2', '-fwrapv', '-g', '-w', '-fno-pie', '-I', REPO, '-c', src, '-o', tmp])
            syms = [l.split()[-1] for l in sh(['/usr/bin/nm', '-g', '--defined-only', tmp]).splitlines() if l.strip()]
            sh([OBJCOPY] + ['--redefine-sym=%s=fast_%s' % (x, x) for x in syms] + [tmp])
            os.rename(tmp, out)
        if not os.path.exists(out):
            jobs.append((fastjob, (src, out)))
    # Copies named big_*, on the allocator of sim/large.cpp (see there).
    bigsrc = [u[0] for u in units if '/encode/' not in u[0] and '/hash/' not in u[0]]
    large = os.path.join(SIM, 'large.cpp')
    key = digest([large] + bigsrc + sum((deps(x) for x in bigsrc + [large]), []), 'big2', HFLAGS)
    bigout = os.path.join(BUILD, 'big-%s.o' % key)
    objs.append(bigout)
    def bigjob(out):
        d = tempfile.mkdtemp(prefix='big-', dir=BUILD)
        try:
            inc = ['-I', REPO, '-I', SIM, '-I', os.path.join(SIM, 'win'), '-I', os.path.join(REPO, 'win32')]
            with open(d + '/alloc', 'w') as f:
                for n in 'malloc calloc realloc free reallocarray strdup strndup'.split() + ['sim_Interlocked' + x for x in 'Increment Decrement Exchange CompareExchange ExchangeAdd'.split()]:
                    f.write('%s big_%s\n' % (n, n))
            os_ = []
            for i, src in enumerate(bigsrc):
                o = '%s/%d.o' % (d, i); os_.append(o)
                sh([CC, '-O1', '-g1', '-w', '-fno-pie', '-fno-builtin', '-fno-common', '-fstack-protector-all', '-DCRE_TEST'] + inc + ['-c', usable(src), '-o', o])
                sh([OBJCOPY, '--redefine-syms=' + d + '/alloc', o])
            syms = set()
            for o in os_:
                syms |= {l.split()[-1] for l in sh(['/usr/bin/nm', '-g', '--defined-only', o]).splitlines() if len(l.split()) == 3}
            with open(d + '/syms', 'w') as f:
                f.write(''.join('%s big_%s\n' % (x, x) for x in sorted(syms)))
            o = d + '/large.o'; os_.append(o)
            sh([CXX] + HFLAGS + inc + ['-c', large, '-o', o])
            for o in os_:
                sh([OBJCOPY, '--redefine-syms=' + d + '/syms', o])
            sh(['/usr/bin/ld', '-r', '-o', d + '/all.o'] + os_)
            os.rename(d + '/all.o', out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if not os.path.exists(bigout):
        jobs.append((bigjob, (bigout,)))
    for src in hsrc:
        name = os.path.basename(src)
        flags = HFLAGS + ['-I', REPO, '-I', SIM, '-I', os.path.join(SIM, 'win')]
        key = digest([src] + deps(src), flags)
        out = os.path.join(BUILD, '%s-%s.o' % (name, key))
        objs.append(out)
        if not os.path.exists(out):
            jobs.append((hjob, (src, out, CXX, flags)))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for fut in [ex.submit(f, *a) for f, a in jobs]:
            fut.result()
    key = digest([], objs)
    exe = os.path.join(BUILD, 'sim-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        sh([CXX, '-fsanitize=address', '-no-pie', '-o', tmp] + objs + ['-lpthread'])
        os.rename(tmp, exe)
        # keep the cache small
        cur = set(objs) | {exe}
        for p in glob.glob(os.path.join(BUILD, '*.o')) + glob.glob(os.path.join(BUILD, 'sim-*')):
            if p not in cur and time.time() - os.path.getmtime(p) > 3600:
                try: os.unlink(p)
                except OSError: pass
    lock.close()
    return exe


# --------------------------------------------------------------------- checks
RULE = ('A case is one simulated run: a plan (configuration, operations with arguments and per-allocation fault masks, scheduling '
        'slices) drawn from PRNG(seed, property, run index) and executed from a clean simulated process. It counts as non-trivial when at least two '
        'operations ran and the model state moved, an operation met an injected fault, or a task was preempted inside library code; '
        'distinct ones are told apart by the digest of everything the run observed (results, contents, schedule, allocation counts), in a 2^24-bit hash set.')
REAL = {
 'C01': 'data/buffer.c, data/buffer.h', 'C02': 'data/buffer.c, data/buffer.h (STACK and ARRAY/ARRAY_PTR inline functions and macros)',
 'C03': 'data/htable.c, data/list.h', 'C04': 'data/rbtree.c', 'C05': 'data/list.h', 'C06': 'data/value.c', 'C07': 'data/value.c',
 'C08': 'data/value.c', 'C09': 'data/*, mem/*, win32/memstream.c', 'C10': 'mem/memchunk.c', 'C11': 'mem/malloca.h', 'C12': 'misc/cmdline.c',
 'C13': 'data/*, encode/*, hash/*, mem/*, misc/cmdline.c', 'C14': 'data/*', 'C15': 'win32/memstream.c', 'C16': 'win32/memstream.c',
 'C17': 'data/*, mem/memchunk.c, win32/memstream.c', 'C18': 'hash/fnv1a.c', 'C19': 'encode/base64.c', 'C20': 'encode/hex.c', 'C21': 'hash/crc32.c',
 'C22': 'data/value.c', 'C24': 'data/buffer.c, data/htable.c, data/value.c, mem/memchunk.c',
}
COMMON_STUBS = ['C heap (malloc family): simulated heap with redzones, quarantine and fault plan', 'string/memory builtins: checked replacements',
                'threads: cooperative tasks switched only at basic-block boundaries chosen by the seeded scheduler']
WIN_STUBS = ['Windows headers, Interlocked operations and resource loading: win/ stand-ins (no Windows here)']

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            m = re.match(r'finding: property=(\S+) replay=(\S+) class=(\S+) (.*)', line)
            if m: out.append(m.groups())
    return out

def run_replay(exe, path):
    r = subprocess.run([exe, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
    m = re.search(r'^VIOLATED class (\S+) digest (\d+): (.*)$', r.stdout, re.M)
    return r.returncode, (m.group(1), m.group(3)) if m else None, r.stdout

def save_replay(pid, src):
    d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    dst = os.path.join(d, '%s-%s.simplan' % (pid, h))
    shutil.copyfile(src, dst)
    return dst

def read_result(path):
    res, faults = {}, {}
    for line in open(path, errors='replace'):
        k, _, v = line.rstrip('\n').partition(' ')
        if k == 'fault':
            n, _, name = v.partition(' '); faults[name] = faults.get(name, 0) + int(n)
        else:
            res[k] = v
    return res, faults

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or max(2, min(16, os.cpu_count() or 4))
    try:
        exe = build()
    except BuildError as e:
        print('BUILD FAILED (no verdict):\n%s' % e); return 2
    if WIN_UNUSABLE:
        print('note: win32/ does not compile against the stand-in headers:\n%s' % WIN_UNUSABLE[0])
        if REAL[pid] == 'win32/memstream.c':
            print('no verdict'); return 2
    build_s = time.time() - t0
    runs = {}
    for l in subprocess.run([exe, 'props'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        a = l.split(); runs[a[0]] = (int(a[1]), int(a[2]))
    if pid not in runs:
        print('unknown property %s' % pid); return 2
    tn = 1 if tier == 'thorough' else 0
    nruns = int(os.environ.get('VERIF_RUNS', '0')) or runs[pid][tn]
    deadline, shrink_s = (600, 90) if tn else (150, 40)
    violations = []          # (class, message, replay)
    findings = []
    # 1. schedules and fault traces that violated this property once
    regress = sorted(glob.glob(os.path.join(HERE, 'regress', pid + '-*.simplan')))
    for p in regress:
        rc, v, _ = run_replay(exe, p)
        if v: violations.append((v[0], v[1], save_replay(pid, p)))
        elif rc not in (0, 1): print('regression trace %s gave no verdict (%d)' % (p, rc)); return 2
    for kp, path, cls, what in known():
        if kp != pid: continue
        rc, v, _ = run_replay(exe, os.path.join(HERE, path))
        if v and v[0] == cls: findings.append(what); print('KNOWN-FINDING: property=%s %s' % (pid, what))
    # 2. seeded search
    tmp = tempfile.mkdtemp(prefix='simsearch-')
    res, faults, samples = {}, {}, []
    try:
        ex = subprocess.Popen([exe, 'extra', pid, str(seed), str(tn)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if not violations:
            r = subprocess.run([exe, 'search', pid, str(seed), str(nruns), str(tn), str(workers), str(deadline), tmp, str(shrink_s)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode not in (0, 1):
                print('search gave no verdict (%d): %s' % (r.returncode, r.stdout[-2000:])); return 2
            res, faults = read_result(os.path.join(tmp, 'result.txt'))
            if r.returncode == 1:
                violations.append((res.get('class', '?'), res.get('message', ''), save_replay(pid, os.path.join(tmp, 'replay.simplan'))))
            if int(res.get('det_bad', 0)):
                print('warning: %s of %s re-executed runs differed' % (res['det_bad'], res['det_checked']))
        ex_out = ex.communicate()[0]
        extra_info = [l[5:] for l in ex_out.splitlines() if l.startswith('info ')]
        if ex.returncode == 1:
            f = os.path.join(tmp, 'extra.simplan')
            open(f, 'w').write('extra %s %d %d\n%s' % (pid, seed, tn, ex_out))
            m = re.search(r'^violated (\S+): (.*)$', ex_out, re.M)
            violations.append((m.group(1) if m else 'extra', m.group(2) if m else ex_out[-300:], save_replay(pid, f)))
        elif ex.returncode not in (0, 3):
            print('note: the scenario with large objects gave no verdict (%d)' % ex.returncode)
        # the same runs in two more processes must come to the same
        nd = 24
        dg = [subprocess.run([exe, 'digests', pid, str(seed), str(nd), str(tn)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace').stdout.splitlines() for _ in range(2)] if not violations else [[], []]
        xdiff = sum(a != b for a, b in zip(*dg)) + abs(len(dg[0]) - len(dg[1]))
        if xdiff: print('warning: %d of %d runs differ between processes' % (xdiff, nd))
        for i in (0, 7, 11):
            s = subprocess.run([exe, 'plan', pid, str(seed), str(i), str(tn)], stdout=subprocess.PIPE, text=True).stdout
            samples.append(s if len(s) < 1500 else s[:1500] + '...')
    finally:
        if ex.poll() is None: ex.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    I = lambda k: int(float(res.get(k, 0)))
    ss = float(res.get('search_s', 0)) or 1e-9
    wall = time.time() - t0
    inj = {'planned allocation failure': I('fail_planned'), 'allocation refused by simulated memory limit': I('fail_quota'), 'oversized allocation refused': I('fail_oversize')}
    inj.update(faults)
    cov = {
        'evaluations': I('runs') + len(regress), 'distinct_nontrivial': I('distinct_nontrivial'), 'rule': RULE, 'samples': samples,
        'simulated_runs': I('runs'), 'seed_first_run': 0, 'seed_last_run': max(0, nruns - 1), 'runs_per_hour': int(I('runs') / ss * 3600), 'workers': workers,
        'operations': I('ops'), 'operations_that_met_a_fault': I('faulted_ops'),
        'simulated_time_steps': I('steps'), 'simulated_time_unit': 'basic blocks of library code executed (the library reads no clock)',
        'task_switches': I('switches'), 'preemptions_inside_library_code': I('preempt_in_op'), 'library_allocations': I('allocations'),
        'faults_injected': {k: v for k, v in inj.items() if v},
        'distinct_interleavings': I('distinct_schedules'), 'interleaving_measure': 'hash of the full sequence of (task, steps) scheduling decisions, 2^24-bit set',
        'distinct_states': I('distinct_states'), 'state_measure': 'hash of the abstract model state after each operation, 2^24-bit set',
        'library_edges_covered': I('edges_covered'), 'library_edges_total': I('edges_total'),
        'runs_not_judged': I('skipped'), 'runs_re_executed_for_determinism': I('det_checked'), 'runs_that_differed': I('det_bad'),
        'runs_compared_between_processes': len(dg[0]), 'runs_that_differed_between_processes': xdiff,
        'regression_traces_replayed': len(regress), 'extra_scenarios': extra_info,
        'ran_real_code': REAL[pid], 'ran_stub': COMMON_STUBS + (WIN_STUBS if 'win32' in REAL[pid] else []),
        'search_seconds': round(ss, 2), 'build_seconds': round(build_s, 2),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['Library built with clang 18 at -O0 on x86-64; tasks are switched at basic-block boundaries and at atomic operations, so hardware memory reordering is not simulated.',
                          'Seeded search: a violation which needs a history the generator did not draw is not found.'],
          'wall_s': round(wall, 2), 'violations': len(violations)}
    evdir = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence')); os.makedirs(evdir, exist_ok=True)
    p = os.path.join(evdir, pid + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    for cls, msg, rp in violations:
        print('%s: %s' % (cls, msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if violations: return 1
    print('held: %s, %d runs (%d distinct non-trivial), %d operations, %.1f s' % (pid, I('runs'), I('distinct_nontrivial'), I('ops'), wall))
    return 0

def replay(path):
    try:
        exe = build()
    except BuildError as e:
        print(e); return 2
    first = open(path).readline().split()
    if first and first[0] == 'extra':
        return subprocess.run([exe, 'extra'] + first[1:4]).returncode
    return subprocess.run([exe, 'replay', path]).returncode

if __name__ == '__main__':
    a = sys.argv[1:]
    if a == ['build']:
        try:
            print(build())
        except BuildError as e:
            print(e); sys.exit(2)
    elif len(a) == 3 and a[0] == 'check' and a[2] in ('quick', 'thorough'):
        sys.exit(check(a[1], a[2]))
    elif len(a) == 2 and a[0] == 'replay':
        sys.exit(replay(a[1]))
    else:
        print(__doc__); sys.exit(2)
