#!/usr/bin/env python3
"""Builds the monitors a property needs from /repo's working tree, runs them, judges and records what they observed.

check.py Cxx [--tier quick|thorough]     decide one property (exit 0 held / 1 with a VIOLATION line / 2 could not check)
check.py --replay FILE                   run one recorded violation again
check.py --setup                         check that the tools work
check.py --list                          what each property runs"""
import array, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', VERIF + '/build')
NPROC = max(2, os.cpu_count() or 2)
sys.path.insert(0, VERIF)
from plan import BINS, CHECKS, RULES, ASSUME  # noqa: E402

LIBDEF = ['-DBOOST_ATOMIC_SOURCE', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_NO_LIB', '-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41']


GRACE = 60  # seconds the remaining runs get once a violation is known


class BuildError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', stdin=subprocess.DEVNULL)
    if p.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), '\n'.join(p.stdout.splitlines()[:40])[:6000]))
    return p.stdout


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in (REPO + '/include', REPO + '/src', VERIF + '/crt', VERIF + '/common', VERIF + '/native'):
            for f in sorted(glob.glob(root + '/**', recursive=True)):
                if os.path.isfile(f):
                    h.update(f.encode() + b'\0' + open(f, 'rb').read())
        h.update(open(VERIF + '/check.py', 'rb').read())
        _tree = h.hexdigest()
    return _tree


def inc():
    return ['-I' + REPO + '/include', '-I' + REPO + '/src']


class Cpus:
    """Processors handed out to runs, so that really concurrent runs do not crowd each other out."""
    def __init__(self, n):
        self.n, self.free, self.cv = n, n, threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            self.cv.wait_for(lambda: self.free >= k)
            self.free -= k
        return k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


CPUS = Cpus(NPROC)


def build(name, pool):
    """Compiles and links one binary; returns its path. Cached by the contents of everything that goes into it."""
    b = BINS[name]
    key = hashlib.sha256((tree_hash() + json.dumps(b, sort_keys=True)).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    tmp = d + '.%d.%d' % (os.getpid(), threading.get_ident())
    os.makedirs(tmp, exist_ok=True)
    cxx, std, opt = b.get('cxx', 'g++'), b.get('std', 'c++17'), b.get('opt', '-O1').split()
    lflags, flags = b.get('lflags', '').split(), b.get('flags', '').split()
    src = VERIF + '/' + b['src']
    try:
        if b['kind'] == 'crt':
            ts = ['-fsanitize=thread'] + (['--param=tsan-distinguish-volatile=1', '-Wno-tsan'] if cxx == 'g++' else ['-mllvm', '-tsan-distinguish-volatile=1'])
            base = [cxx, '-std=' + std] + opt + ['-g1', '-w', '-fno-pie'] + ts + inc() + LIBDEF
            base += ['-include', VERIF + '/' + b['pre']] if b.get('pre') else []
            lp = base + lflags
            jobs = [(lp + ['-c', REPO + '/src/lock_pool.cpp', '-o', tmp + '/lp.o'], 'lp'),
                    (base + lflags + ['-msse', '-msse2', '-c', REPO + '/src/find_address_sse2.cpp', '-o', tmp + '/f2.o'], 'f2'),
                    (base + lflags + ['-msse', '-msse2', '-msse3', '-mssse3', '-msse4.1', '-c', REPO + '/src/find_address_sse41.cpp', '-o', tmp + '/f4.o'], 'f4'),
                    (base + flags + ['-c', src, '-o', tmp + '/drv.o'], 'drv'),
                    (['g++', '-std=c++17', '-O2', '-g1', '-w', '-fno-pie', '-c', VERIF + '/crt/crt.cpp', '-o', tmp + '/crt.o'], 'crt')]
            for f in [pool.submit(run, j[0]) for j in jobs]:
                f.result()
            red = '--redefine-syms=' + VERIF + '/crt/redefine.txt'
            run(['objcopy', red, '--rename-section', '.bss=libbss', '--rename-section', '.data=libdata', '--rename-section', '.data.rel.local=libdata', '--rename-section', '.data.rel=libdata', tmp + '/lp.o'])
            for o in ('f2', 'f4', 'drv'):
                run(['objcopy', red, tmp + '/%s.o' % o])
            run(['g++', '-no-pie'] + [tmp + '/%s.o' % o for o in ('lp', 'f2', 'f4', 'drv', 'crt')] + ['-o', tmp + '/' + name, '-pthread'])
        else:
            base = [cxx, '-std=' + std] + opt + ['-w'] + b.get('g', '-g1').split() + inc() + LIBDEF
            base += ['-include', VERIF + '/' + b['pre']] if b.get('pre') else []
            objs = []
            futs = []
            if b.get('lib', True):
                for s, o, f in (('lock_pool.cpp', 'lp', []), ('find_address_sse2.cpp', 'f2', ['-msse', '-msse2']), ('find_address_sse41.cpp', 'f4', ['-msse', '-msse2', '-msse3', '-mssse3', '-msse4.1'])):
                    futs.append(pool.submit(run, base + lflags + f + ['-c', REPO + '/src/' + s, '-o', tmp + '/%s.o' % o]))
                    objs.append(tmp + '/%s.o' % o)
            if b.get('libsec'):
                futs.pop(0).result()
                run(['objcopy', '--rename-section', '.bss=libbss', '--rename-section', '.data=libdata', '--rename-section', '.data.rel.local=libdata', '--rename-section', '.data.rel=libdata', tmp + '/lp.o'])
            for i, s in enumerate([b['src']] + b.get('more', [])):
                futs.append(pool.submit(run, base + flags + ['-c', VERIF + '/' + s, '-o', tmp + '/d%d.o' % i]))
                objs.append(tmp + '/d%d.o' % i)
            for f in futs:
                f.result()
            run([cxx] + opt + lflags + b.get('ld', '').split() + objs + ['-o', tmp + '/' + name, '-pthread'] + b.get('libs', '').split())
        for o in glob.glob(tmp + '/*.o'):
            os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


class Result:
    def __init__(self):
        self.stats, self.violations, self.inconclusive, self.runs, self.errors = [], [], [], 0, []
        self.hashes = set()
        self.lock = threading.Lock()
        self.stop = False
        self.kf = []
        self.decided = 0  # when the first violation that is not a known finding was seen

    def add(self, v):
        self.violations.append(v)
        if not self.decided and known(self.kf, v) is None:
            self.decided = time.time()


def environment(env=None):
    e = dict(os.environ)
    e.update(env or {})
    e['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 suppress_equal_stacks=1'
    e['ASAN_OPTIONS'] = 'detect_leaks=0 exitcode=66 detect_stack_use_after_return=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1 exitcode=66'
    return e


def execute(exe, name, args, timeout, env, res, hashes=True, wrap=(), cpus=1):
    k = CPUS.take(cpus)
    try:
        execute1(exe, name, args, timeout, env, res, hashes, wrap)
    finally:
        CPUS.give(k)


def execute1(exe, name, args, timeout, env, res, hashes, wrap):
    hf = os.path.join(BUILD, 'h.%d.%d' % (os.getpid(), threading.get_ident()))
    cmd = list(wrap) + [exe] + args
    e = environment(env)
    for attempt in (0, 1):
        if res.stop or (res.decided and time.time() > res.decided + GRACE):
            return
        p = subprocess.Popen(cmd + (['--hashes', hf] if hashes else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=BUILD, start_new_session=True)
        timed_out = False
        end = time.time() + timeout
        while True:
            try:
                out, _ = p.communicate(timeout=max(0.1, min(5, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                timed_out = time.time() >= end
                late = res.decided and time.time() > res.decided + GRACE  # the answer is known: what is stuck need not be waited for
                if not timed_out and not late:
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                out, _ = p.communicate()
                if late and not timed_out:
                    return
                break
        out = out.decode('utf-8', 'replace')
        m = re.search(r'^CRT-VIOLATION (\{.*\})\s*$', out, re.M)
        with res.lock:
            res.runs += 1
            if m:
                try:
                    v = json.loads(m.group(1))
                except ValueError:
                    v = {'message': m.group(1)}
                v.update(bin=name, args=args, wrap=list(wrap), output=out[:20000])
                res.add(v)
                return
            if p.returncode == 0 and not timed_out:
                for l in re.findall(r'^CRT-STATS (\{.*\})\s*$', out, re.M):
                    s = json.loads(l)
                    s['bin'] = name
                    res.stats.append(s)
                if os.path.exists(hf):
                    a = array.array('Q')
                    with open(hf, 'rb') as fh:
                        a.frombytes(fh.read())
                    os.unlink(hf)
                    if len(res.hashes) < 6000000:
                        res.hashes.update(a)
                return
        what = 'timeout after %d s' % timeout if timed_out else 'exit status %s' % p.returncode
        if not timed_out and p.returncode not in (3, 4) and (p.returncode < 0 or p.returncode == 66):
            with res.lock:  # killed by a signal or stopped by a sanitizer
                sig = -p.returncode
                if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP) or p.returncode == 66:
                    res.add({'kind': 'crash', 'message': what + ': ' + ' / '.join([x for x in out.splitlines() if x.strip()][:6])[:600], 'bin': name, 'args': args, 'wrap': list(wrap), 'output': out[:20000]})
                    return
    with res.lock:
        res.inconclusive.append('%s %s: %s (twice): %s' % (name, ' '.join(args), what, out[-300:].replace('\n', ' / ')))


def known_findings(pid):
    r = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                r.append((re.compile(m.group(2)), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return r


def known(kf, v):
    sig = '%s %s %s %s' % (v.get('bin', ''), v.get('scenario', ''), v.get('kind', ''), v.get('message', ''))
    for r, text in kf:
        if r.search(sig):
            return text
    return None


def check(pid, tier, seed):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    jobs = CHECKS[pid]
    budget = 780 if tier == 'quick' else 3600 * 3
    res = Result()
    res.kf = kf = known_findings(pid)
    names = []
    for j in jobs:
        if j['bin'] not in names and (tier == 'thorough' or not j.get('thorough')):
            names.append(j['bin'])
    cpool, lpool, rpool = ThreadPoolExecutor(NPROC), ThreadPoolExecutor(4 * NPROC), ThreadPoolExecutor(NPROC)
    futs = {}
    for n in names:
        futs[n] = lpool.submit(build, n, cpool)
    t_build = [0.0]
    waiters = []

    def go(j):
        exe = futs[j['bin']].result()
        t_build[0] = max(t_build[0], time.time() - t0)
        it = j.get('iters')
        if it is not None:
            it = it if tier == 'quick' else it * j.get('deep', 25)
        shards = j.get('shards', 1) if tier == 'quick' else max(j.get('shards', 1), j.get('deep_shards', NPROC) if it is not None else 1)
        fs = []
        for s in range(shards):
            a = list(j.get('args', []))
            if it is not None:
                a += ['--iters', str(it)]
            if shards > 1:
                a += ['--shard', '%d/%d' % (s, shards)]
            sd = seed
            a += ['--seed', str(sd)]
            to = j.get('timeout', 330) * (1 if tier == 'quick' else 12)
            fs.append(rpool.submit(execute, exe, j['bin'], a, to, j.get('env'), res, j.get('hashes', True), j.get('wrap', ()), j.get('cpus', 1)))
        for f in fs:
            f.result()

    try:
        waiters = [lpool.submit(go, j) for j in jobs if tier == 'thorough' or not j.get('thorough')]
        for w in waiters:
            w.result(timeout=max(1, budget - (time.time() - t0)))
    except BuildError as e:
        log(str(e))
        res.stop = True
        print('ERROR: could not build the monitors for %s' % pid)
        return 2
    except TimeoutError:
        res.stop = True
        res.inconclusive.append('time budget used up')
    # ---- judge
    new, old = [], []
    for v in res.violations:
        text = known(kf, v)
        if text is None:
            new.append(v)
        else:
            old.append(text)
    for t in [x[1] for x in kf]:
        if t in old:
            print('KNOWN-FINDING: property=%s %s' % (pid, t))
    total = {}
    per_bin = {}
    samples = []
    for s in res.stats:
        for k, v in s.items():
            if isinstance(v, int) and not isinstance(v, bool):
                total[k] = total.get(k, 0) + v
        per_bin[s['bin']] = per_bin.get(s['bin'], 0) + s.get('execs', 0)
        for x in s.get('samples', [])[:2]:
            if len(samples) < 16:
                samples.append('%s: %s' % (s['bin'], x))
    cov = {'evaluations': total.get('execs', 0), 'distinct_nontrivial': len(res.hashes), 'rule': RULES[pid], 'samples': samples or ['none'],
           'executions_per_binary': per_bin, 'observed': {k: v for k, v in sorted(total.items()) if k not in ('execs', 'distinct') and v}, 'process_runs': res.runs, 'build_wall_s': round(t_build[0], 1)}
    if res.inconclusive:
        cov['inconclusive'] = res.inconclusive[:10]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': ASSUME.get(pid, []) + ASSUME['all'], 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    for l in res.inconclusive:
        log('inconclusive:', l)
    if new:
        os.makedirs(BUILD + '/replay', exist_ok=True)
        seen = set()
        for v in new:
            key = (v.get('bin'), v.get('scenario'), v.get('kind'))
            if key in seen or len(seen) > 5:
                continue
            seen.add(key)
            f = BUILD + '/replay/%s-%d.json' % (pid, len(seen))
            json.dump(v, open(f, 'w'), indent=1)
            print('%s [%s %s] %s' % (v.get('bin'), v.get('scenario', ''), v.get('kind', ''), v.get('message', '')[:700]))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if not res.stats:
        log('nothing ran to completion')
        return 2
    print('OK property=%s executions=%d distinct=%d wall=%.0fs (build %.0fs)' % (pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, t_build[0]))
    return 0


def replay(f):
    v = json.load(open(f))
    os.makedirs(BUILD, exist_ok=True)
    exe = build(v['bin'], ThreadPoolExecutor(NPROC))
    a = [x for x in v['args']]
    if v.get('scenario') and 'exec' in v:
        for o in ('--shard', '--only'):
            if o in a:
                i = a.index(o)
                del a[i:i + 2]
        a += ['--only', v['scenario'], '--exec', str(v['exec']), '--trace']
    print('+', exe, ' '.join(a))
    rc = 0
    for _ in range(30 if BINS[v['bin']]['src'] == 'native/stress.cpp' else 1):  # real concurrency does not repeat exactly
        rc = subprocess.run(v.get('wrap', []) + [exe] + a, env=environment()).returncode
        if rc:
            break
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return replay(a[1])
    if a[:1] == ['--list']:
        for p in sorted(CHECKS):
            print(p)
            for j in CHECKS[p]:
                print('   ', j['bin'], ' '.join(j.get('args', [])), j.get('iters', ''), BINS[j['bin']]['src'])
        return 0
    if a[:1] == ['--setup']:
        for t in ('g++', 'clang++', 'objcopy'):
            if not shutil.which(t):
                print('missing', t)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        print('ok')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    return check(a[0], tier, int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
