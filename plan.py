"""What is built and what each property runs. Iteration counts bound the quick tier; the thorough tier multiplies them by
'deep' (default 25) and splits them over all cores."""

BINS = {}
CHECKS = {}
RULES = {}
ASSUME = {'all': []}


def crt(name, src, **kw):
    BINS[name] = dict(kind='crt', src='crt/' + src, **kw)


def nat(name, src, **kw):
    BINS[name] = dict(kind='native', src='native/' + src, **kw)


# ---------------------------------------------------------------- controlled runtime, all operations
for g in (1, 2, 3, 4):
    crt('ops_gcc_%d' % g, 'ops_main.cpp', cxx='g++', flags='-DGROUP=%d' % g)
    crt('ops_clang_%d' % g, 'ops_main.cpp', cxx='clang++', flags='-mcx16 -DGROUP=%d' % g)
    crt('ops_arch_%d' % g, 'ops_main.cpp', cxx='g++', flags='-mcx16 -DGROUP=%d' % g, pre='common/archonly.hpp')
    crt('ops_fb_%d' % g, 'ops_main.cpp', cxx='g++', flags='-DNO_IPC -DBOOST_ATOMIC_FORCE_FALLBACK -DGROUP=%d' % g)


def ops(cfgs, scen, iters, shards=2, **kw):
    r = []
    for c in cfgs:
        for s in scen:
            r.append(dict(bin='ops_' + c, args=['--only', s], iters=iters, shards=shards, **kw))
    return r


GC = ['gcc_1', 'gcc_2', 'gcc_3', 'gcc_4', 'clang_1', 'clang_2', 'clang_3', 'clang_4']
FB = ['fb_1', 'fb_2', 'fb_3', 'fb_4']
CHECKS['C01'] = ops(GC, ['lin_lockfree'], 40000)
CHECKS['C02'] = ops(['gcc_3', 'gcc_4'] + FB, ['lin_locked'], 40000)
CHECKS['C06'] = ops(GC + ['fb_1', 'fb_2', 'fb_3', 'arch_1', 'arch_2', 'arch_3', 'arch_4'], ['mp', 'mpwait'], 24000)
CHECKS['C07'] = ops(GC + ['fb_1', 'fb_3'], ['sb', 'iriw'], 24000)
CHECKS['C08'] = ops(GC + ['fb_1'], ['mpfence', 'mpwaitfence', 'fence_sb'], 20000)

# ---------------------------------------------------------------- controlled runtime, waiting and notifying
L0 = '-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0'  # a single internal lock: every object shares it
for g in (1, 2, 3):
    crt('w_gcc_%d' % g, 'waits.cpp', cxx='g++', flags='-DGROUP=%d' % g)
    crt('w_clang_%d' % g, 'waits.cpp', cxx='clang++', flags='-mcx16 -DGROUP=%d' % g)
    # no futex system call: pthread mutexes and condition variables
    crt('w_pt_%d' % g, 'waits.cpp', cxx='g++', flags='-DGROUP=%d' % g, pre='crt/nofutex.h')
for g in (1, 2):
    crt('w_fb_%d' % g, 'waits.cpp', cxx='g++', flags='-DNO_IPC -DBOOST_ATOMIC_FORCE_FALLBACK -DGROUP=%d' % g)
    crt('w_l0_%d' % g, 'waits.cpp', cxx='g++', flags='-DNO_IPC -DGROUP=%d' % g, lflags=L0)
    crt('w_ptc_%d' % g, 'waits.cpp', cxx='clang++', flags='-DNO_IPC -DGROUP=%d' % g, lflags='-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT', pre='crt/nofutex.h')
crt('w_ptl_1', 'waits.cpp', cxx='g++', flags='-DNO_IPC -DGROUP=1', lflags=L0, pre='crt/nofutex.h')
# older systems: no absolute futex waits, or only on the monotonic clock; condition variables with certain or without CLOCK_MONOTONIC
crt('w_old_1', 'waits.cpp', cxx='g++', flags='-DGROUP=1', pre='crt/oldfutex.h')
crt('w_old_3', 'waits.cpp', cxx='clang++', flags='-mcx16 -DGROUP=3', pre='crt/oldfutex.h')
crt('w_nort_1', 'waits.cpp', cxx='g++', flags='-DGROUP=1', pre='crt/nortfutex.h')
crt('w_ptm_1', 'waits.cpp', cxx='g++', flags='-DGROUP=1', pre='crt/nofutex_mono.h')
crt('w_ptn_1', 'waits.cpp', cxx='g++', flags='-DGROUP=1', pre='crt/nofutex_nomono.h')
crt('w_fbl_1', 'waits.cpp', cxx='g++', flags='-DNO_IPC -DBOOST_ATOMIC_FORCE_FALLBACK -DGROUP=1', lflags=L0)
crt('w_sse2_1', 'waits.cpp', cxx='clang++', flags='-DNO_IPC -DGROUP=1', lflags=L0 + ' -UBOOST_ATOMIC_USE_SSE41')
crt('w_nosse_1', 'waits.cpp', cxx='g++', flags='-DNO_IPC -DGROUP=1', lflags=L0 + ' -UBOOST_ATOMIC_USE_SSE41 -UBOOST_ATOMIC_USE_SSE2')


def waits(cfgs, scen, iters, shards=1, **kw):
    return [dict(bin='w_' + c, args=['--only', s], iters=iters, shards=shards, **kw) for c in cfgs.split() for s in scen.split()]


ALLW = 'gcc_1 gcc_2 gcc_3 clang_1 clang_2 clang_3 fb_1 fb_2 pt_1 pt_2 ptc_1 l0_1 l0_2'
OLDW = 'old_1 old_3 nort_1 ptm_1 ptn_1'
CHECKS['C09'] = waits(ALLW, 'wake wake_one', 60000) + waits(OLDW, 'wake', 12000)
CHECKS['C10'] = waits(ALLW, 'ret', 100000) + waits(ALLW, 'wake', 10000) + waits(OLDW, 'ret', 15000)
CHECKS['C11'] = waits(ALLW + ' pt_3', 'timed extreme', 100000) + waits(OLDW, 'timed extreme', 20000)
CHECKS['C12'] = waits('l0_1 l0_2 ptl_1 fbl_1 sse2_1 nosse_1 gcc_1 gcc_2 clang_2', 'many many_step', 48000, 2)
CHECKS['C13'] = waits('gcc_3 clang_3 pt_3', 'ipc', 200000, 4)
CHECKS['C14'] = waits('gcc_1 gcc_2 l0_1 l0_2 ptl_1 fbl_1 clang_1', 'oom', 100000, 2)
CHECKS['C15'] = waits('gcc_1 gcc_2 l0_1 l0_2 ptl_1 fbl_1 clang_1', 'mem mem_seq mem_exit', 40000, 2)
CHECKS['C16'] = waits('gcc_1 gcc_2 clang_1 fb_1 fb_2 l0_1 l0_2 pt_1 ptc_1 ptl_1 fbl_1', 'progress', 80000, 2)
CHECKS['C02'] += waits('l0_1 fbl_1 ptl_1', 'progress', 10000, 2)
CHECKS['C19'] = waits('gcc_1 gcc_2 clang_1 fb_1 fb_2 ptc_1', 'claims', 20000)

# ---------------------------------------------------------------- native: single-stepped code
FB_H = ' -DNO_IPC -DBOOST_ATOMIC_FORCE_FALLBACK'
for g in (1, 2, 3, 4):
    nat('step_gcc_%d' % g, 'step.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g, libsec=True)
    nat('step_clang_%d' % g, 'step.cpp', cxx='clang++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g, libsec=True)
    nat('step_fb_%d' % g, 'step.cpp', cxx='g++', opt='-O2', flags=FB_H + ' -DGROUP=%d' % g, libsec=True)
for g in (1, 2):
    nat('step_arch_%d' % g, 'step.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g, pre='common/archonly.hpp', libsec=True)
    nat('step_sync_%d' % g, 'step.cpp', cxx='clang++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g, pre='common/synconly.hpp', libsec=True)
for g in (1, 2, 3, 4):  # operands that are compile-time constants; without flag outputs of assembly statements
    nat('step_k_%d' % g, 'step.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DOPS_CONST -DOPS_STATIC -DGROUP=%d' % g, libsec=True)
    nat('step_knf_%d' % g, 'step.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DOPS_CONST -DOPS_STATIC -U__GCC_ASM_FLAG_OUTPUTS__ -DGROUP=%d' % g, libsec=True)
    nat('step_nf_%d' % g, 'step.cpp', cxx='clang++', opt='-O2', flags='-mcx16 -U__GCC_ASM_FLAG_OUTPUTS__ -DGROUP=%d' % g, pre='common/archonly.hpp', libsec=True)
nat('step_gcc11_1', 'step.cpp', cxx='g++', std='c++11', opt='-O1', flags='-DGROUP=1', libsec=True)
for g, cxx in ((3, 'g++'), (4, 'clang++')):  # 16-byte loads and stores through vector registers
    nat('step_avx_%d' % g, 'step.cpp', cxx=cxx, std='c++20', opt='-O3', flags='-mcx16 -mavx -DOPS_STATIC -DGROUP=%d' % g, libsec=True)
    nat('stress_avx_%d' % g, 'stress.cpp', cxx=cxx, opt='-O2', flags='-mcx16 -mavx -DGROUP=%d' % g)
    nat('sem_avx_%d' % (7 - g), 'sem.cpp', cxx=cxx, opt='-O3', flags='-mcx16 -mavx -DGROUP=%d' % (7 - g))
nat('step_gcc20_4', 'step.cpp', cxx='g++', std='gnu++20', opt='-O3', flags='-mcx16 -mavx -DGROUP=4', libsec=True)


def step(cfgs, scen, iters, shards=2, **kw):
    return [dict(bin='step_' + c, args=['--only', s], iters=iters, shards=shards, **kw) for c in cfgs.split() for s in scen.split()]


STEP8 = 'gcc_1 gcc_2 gcc_3 gcc_4 clang_1 clang_2 clang_3 clang_4'
CHECKS['C01'] += step(STEP8 + ' arch_1 sync_1 avx_3 avx_4', 'atomic interfere', 1000, 2) + step('k_1 k_2 k_3 k_4 knf_1 knf_2 knf_3 knf_4 nf_1 nf_2 nf_3 nf_4', 'atomic', 1300, 1)
CHECKS['C06'] += step(STEP8 + ' k_1 k_2 k_3 k_4 knf_1 knf_2 knf_3 knf_4 nf_1 nf_3 sync_1 avx_3 avx_4', 'order', 2500, 1)
CHECKS['C08'] += step('gcc_1 clang_1 gcc11_1 arch_1 nf_1 sync_1', 'fences', 3000, 1)
CHECKS['C18'] = step(STEP8 + ' arch_1 sync_1 fb_1 fb_4 avx_3 avx_4', 'neighbours', 3000, 2) + step('gcc_1 gcc_4 clang_4', 'atomic', 1000, 1) + step(STEP8 + ' arch_1 sync_1', 'interfere', 700, 1)
CHECKS['C19'] += step(STEP8 + ' fb_1 gcc20_4', 'claims', 1000, 1) + step('gcc_1 gcc_2 gcc_3 gcc_4 clang_1', 'interfere', 1000, 2)

# ---------------------------------------------------------------- native: results against exact arithmetic
for g in (1, 2, 3, 4):
    nat('sem_gcc_%d' % g, 'sem.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g)
    nat('sem_clang_%d' % g, 'sem.cpp', cxx='clang++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g)
    nat('sem_o0_%d' % g, 'sem.cpp', cxx='g++', std='c++11', opt='-O0', flags='-DGROUP=%d' % g)
    nat('sem_c0_%d' % g, 'sem.cpp', cxx='clang++', std='c++11', opt='-O0', flags='-DGROUP=%d' % g)
    nat('sem_fb_%d' % g, 'sem.cpp', cxx='g++', std='c++20', opt='-O3', flags='-mavx' + FB_H + ' -DGROUP=%d' % g)
    nat('sem_k1_%d' % g, 'sem.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DCONSTS=1 -DOPS_ORDERS=0 -DGROUP=%d' % g)
    nat('sem_k2_%d' % g, 'sem.cpp', cxx='clang++', std='c++20', opt='-O2', flags='-mcx16 -DCONSTS=2 -DOPS_ORDERS=0 -DGROUP=%d' % g)
    nat('sem_nf_%d' % g, 'sem.cpp', cxx='clang++', opt='-O2', flags='-mcx16 -U__GCC_ASM_FLAG_OUTPUTS__ -DGROUP=%d' % g, pre='common/archonly.hpp')
    nat('sem_knf_%d' % g, 'sem.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DCONSTS=1 -DOPS_ORDERS=0 -U__GCC_ASM_FLAG_OUTPUTS__ -DGROUP=%d' % g)
for g in (1, 2):
    nat('sem_arch_%d' % g, 'sem.cpp', cxx='g++', opt='-O3', flags='-mcx16 -DGROUP=%d' % g, pre='common/archonly.hpp')
    nat('sem_sync_%d' % g, 'sem.cpp', cxx='clang++', opt='-O1', flags='-mcx16 -DGROUP=%d' % g, pre='common/synconly.hpp')


def sem(cfgs, scen, iters, shards=1, **kw):
    return [dict(bin='sem_' + c, args=['--only', s], iters=iters, shards=shards, **kw) for c in cfgs.split() for s in scen.split()]


CHECKS['C03'] = sem('gcc_1 gcc_2 gcc_3 clang_1 clang_2 clang_3 o0_1 o0_2 fb_1 fb_2 k1_1 k1_2 k2_1 k2_2 arch_1 sync_1 nf_1 nf_2 knf_1 knf_2 avx_3', 'int', 200000)
CHECKS['C04'] = sem('gcc_3 gcc_4 clang_3 clang_4 o0_3 o0_4 fb_3 fb_4 k1_3 k2_3 avx_3 avx_4', 'fp', 200000)
CHECKS['C05'] = sem('gcc_1 gcc_2 gcc_3 gcc_4 clang_1 clang_2 clang_3 clang_4 fb_3 fb_4 o0_3 o0_4 arch_1 sync_1 nf_1 nf_3 avx_3 avx_4', 'cas', 200000)

# ---------------------------------------------------------------- native: initialisation and layout
for n, kw in (('gcc0', dict(cxx='g++', std='c++11', opt='-O0')), ('gcc20', dict(cxx='g++', std='gnu++20', opt='-O2', flags='-mcx16 -mavx')), ('clang0', dict(cxx='clang++', std='gnu++11', opt='-O0')),
              ('clang20', dict(cxx='clang++', std='c++20', opt='-O2', flags='-mcx16')), ('fb', dict(cxx='g++', std='c++17', opt='-O2', flags=FB_H))):
    nat('layout_' + n, 'layout.cpp', more=['native/layout2.cpp'], **kw)
CHECKS['C20'] = [dict(bin='layout_' + n, iters=600, shards=2) for n in ('gcc0', 'gcc20', 'clang0', 'clang20', 'fb')]
CHECKS['C19'] += [dict(bin='layout_' + n, args=['--only', 'claims']) for n in ('gcc0', 'gcc20', 'clang0', 'clang20', 'fb')]
CHECKS['C18'] += [dict(bin='layout_' + n, args=['--only', 'types'], iters=200) for n in ('gcc20', 'clang20', 'fb')]
for c in ('C05', 'C18'):
    CHECKS[c] += [dict(bin='layout_' + n, args=['--only', k], iters=300) for n in ('gcc20', 'clang20', 'fb') for k in ('hostile', 'exotic')]
CHECKS['C18'] += sem('gcc_1 gcc_2 gcc_3 gcc_4 clang_1 clang_2 clang_3 clang_4 arch_1 arch_2 sync_1 fb_3 k1_1 k1_3 nf_1 avx_3 avx_4', 'reach', 30000)

# ---------------------------------------------------------------- native: real concurrency
for g in (1, 2, 3, 4):
    nat('stress_gcc_%d' % g, 'stress.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g)
    nat('stress_clang_%d' % g, 'stress.cpp', cxx='clang++', opt='-O3', flags='-mcx16 -DGROUP=%d' % g)
    nat('stress_fb_%d' % g, 'stress.cpp', cxx='g++', opt='-O2', flags=FB_H + ' -DGROUP=%d' % g)
for g in (1, 2):
    nat('stress_arch_%d' % g, 'stress.cpp', cxx='g++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g, pre='common/archonly.hpp')
    nat('stress_sync_%d' % g, 'stress.cpp', cxx='clang++', opt='-O2', flags='-mcx16 -DGROUP=%d' % g, pre='common/synconly.hpp')
nat('stress_gcc_0', 'stress.cpp', cxx='g++', opt='-O2', flags='-mcx16')
nat('stress_clang_0', 'stress.cpp', cxx='clang++', opt='-O2', flags='-mcx16')
nat('stress_fb_0', 'stress.cpp', cxx='g++', opt='-O2', flags=FB_H)
nat('stress_l0_0', 'stress.cpp', cxx='g++', opt='-O2', flags='-DNO_IPC', lflags=L0)
nat('stress_fbl_0', 'stress.cpp', cxx='clang++', opt='-O2', flags=FB_H, lflags=L0)
nat('stress_pt_0', 'stress.cpp', cxx='g++', opt='-O2', flags='-mcx16', pre='crt/nofutex.h')
nat('stress_ptl_0', 'stress.cpp', cxx='g++', opt='-O2', flags='-DNO_IPC', lflags=L0 + ' -DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT', pre='crt/nofutex.h')
nat('stress_nosse_0', 'stress.cpp', cxx='g++', opt='-O2', flags='-DNO_IPC', lflags=L0 + ' -UBOOST_ATOMIC_USE_SSE41 -UBOOST_ATOMIC_USE_SSE2')
nat('stress_sse2_0', 'stress.cpp', cxx='g++', opt='-O2', flags='-DNO_IPC', lflags=L0 + ' -UBOOST_ATOMIC_USE_SSE41')


def stress(cfgs, scen, iters, shards=1, cpus=2, **kw):
    return [dict(bin='stress_' + c, args=['--only', s], iters=iters, shards=shards, cpus=cpus, hashes=True, **kw) for c in cfgs.split() for s in scen.split()]


S8 = 'gcc_1 gcc_2 gcc_3 gcc_4 clang_1 clang_2 clang_3 clang_4'
CHECKS['C01'] += stress(S8 + ' arch_1 arch_2 sync_1 sync_2 avx_3 avx_4', 'lin_lockfree', 3000, cpus=4)
CHECKS['C02'] += stress('gcc_3 gcc_4 clang_3 fb_1 fb_2 fb_3 fb_4', 'lin_locked', 1500, cpus=4)
CHECKS['C07'] += stress(S8 + ' arch_1 arch_2 sync_1 fb_1 avx_3 avx_4', 'sb', 3000, cpus=2)
CHECKS['C08'] += stress('gcc_1 clang_1 gcc_3 fb_1 sync_1', 'fence_sb', 4000, cpus=2)
CHECKS['C09'] += stress('gcc_0 clang_0 fb_0 l0_0 fbl_0 pt_0 ptl_0', 'storm', 400, cpus=4)
CHECKS['C10'] += stress('gcc_0 clang_0 fb_0 l0_0 pt_0 ptl_0', 'storm_timed', 400, cpus=4)
CHECKS['C11'] += stress('gcc_0 clang_0 fb_0 pt_0 ptl_0', 'timed', 120, cpus=1)
CHECKS['C12'] += stress('l0_0 fbl_0 ptl_0 nosse_0 sse2_0 gcc_0', 'many', 300, cpus=4)
CHECKS['C12'] += stress('l0_0 fbl_0 ptl_0 nosse_0 sse2_0', 'crowd', 40, cpus=4)
CHECKS['C09'] += stress('gcc_0 fb_0 l0_0 ptl_0', 'crowd', 40, cpus=4)
CHECKS['C13'] += stress('gcc_0 clang_0 pt_0', 'ipc', 600, cpus=3)
CHECKS['C13'] += stress('gcc_0 clang_0', 'ipc_kill', 300, cpus=4)
CHECKS['C16'] += stress('fb_0 l0_0 fbl_0 ptl_0', 'storm', 200, cpus=4)

# ---------------------------------------------------------------- sanitizers
ASAN = dict(opt='-O1', g='-g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all', ld='-fsanitize=address,undefined')
TSAN = dict(cxx='clang++', opt='-O1', g='-g1 -fsanitize=thread', ld='-fsanitize=thread')
for n, cxx in (('g', 'g++'), ('c', 'clang++')):
    nat('stress_a%s_0' % n, 'stress.cpp', cxx=cxx, flags='-mcx16', **ASAN)
    nat('stress_a%sl_0' % n, 'stress.cpp', cxx=cxx, flags='-DNO_IPC', lflags=L0, **ASAN)
    nat('layout_a' + n, 'layout.cpp', more=['native/layout2.cpp'], cxx=cxx, flags='-mcx16', **ASAN)
    for g in (1, 2, 3, 4):
        nat('sem_a%s_%d' % (n, g), 'sem.cpp', cxx=cxx, flags='-mcx16 -DGROUP=%d' % g, **ASAN)
    for g in (1, 3):
        nat('stress_a%s_%d' % (n, g), 'stress.cpp', cxx=cxx, flags='-mcx16 -DGROUP=%d' % g, **ASAN)
nat('stress_afb_1', 'stress.cpp', cxx='g++', flags=FB_H + ' -DGROUP=1', **ASAN)
nat('sem_afb_1', 'sem.cpp', cxx='clang++', flags=FB_H + ' -DGROUP=1', **ASAN)
nat('stress_t_0', 'stress.cpp', flags='-mcx16', **TSAN)
nat('stress_tl_0', 'stress.cpp', flags=FB_H, lflags=L0, **TSAN)
nat('stress_tptl_0', 'stress.cpp', flags='-DNO_IPC', lflags=L0, pre='crt/nofutex.h', **TSAN)
nat('stress_t_3', 'stress.cpp', flags='-mcx16 -DGROUP=3', **TSAN)
nat('stress_tfb_1', 'stress.cpp', flags=FB_H + ' -DGROUP=1', **TSAN)
nat('stress_tfb_2', 'stress.cpp', flags=FB_H + ' -DGROUP=2', **TSAN)
VG = ['valgrind', '-q', '--error-exitcode=66', '--fair-sched=yes']
nat('stress_v_0', 'stress.cpp', cxx='g++', opt='-O1', flags='-mcx16', lflags=L0)
nat('sem_v_3', 'sem.cpp', cxx='g++', opt='-O1', flags='-mcx16 -DGROUP=3')
nat('sem_v_4', 'sem.cpp', cxx='g++', opt='-O1', flags='-mcx16 -DGROUP=4')
CHECKS['C17'] = stress('ag_0 ac_0 agl_0 acl_0', 'storm storm_timed many', 150, cpus=4) + stress('ag_0 ac_0', 'timed', 30) + stress('ag_0', 'ipc', 60)
CHECKS['C17'] += stress('t_0 tl_0 tptl_0', 'storm storm_timed many', 60, cpus=4) + stress('t_3 tfb_1 tfb_2', 'lin_locked', 600, cpus=4) + stress('t_0', 'timed', 20)
CHECKS['C17'] += stress('ag_1 ag_3 ac_1 ac_3', 'lin_lockfree', 400, cpus=4) + stress('ag_3 ac_3 afb_1', 'lin_locked', 200, cpus=4)
CHECKS['C17'] += sem('ag_1 ag_2 ag_3 ag_4 ac_1 ac_2 ac_3 ac_4 afb_1', 'int fp cas', 60000)
CHECKS['C17'] += [dict(bin='layout_a' + n, iters=200) for n in 'gc']
CHECKS['C17'] += stress('v_0', 'storm storm_timed', 20, wrap=VG, deep=10) + stress('v_0', 'many timed', 6, wrap=VG, deep=10) + sem('v_3 v_4', 'int fp cas', 8000, wrap=VG, deep=10)
CHECKS['C17'] += waits('gcc_1 l0_1 ptl_1 fbl_1 clang_2', 'many oom mem mem_exit progress', 6000) + ops(['gcc_1', 'gcc_3', 'clang_4', 'fb_2'], ['mp', 'mpwait', 'lin_locked', 'lin_lockfree'], 5000, 1)

# ---------------------------------------------------------------- scenarios of related properties, briefly: a breach shows wherever it is looked for
CHECKS['C02'] += ops(['gcc_1', 'gcc_2', 'clang_3'], ['lin_locked'], 10000, 1) + step('fb_1 fb_4', 'neighbours', 300, 1)
CHECKS['C03'] += step('gcc_1 gcc_2 gcc_3 clang_1 clang_2 clang_3 arch_1', 'interfere', 400, 1) + ops(['gcc_1', 'clang_2'], ['lin_lockfree'], 8000, 1)
CHECKS['C04'] += step('gcc_2 gcc_3 gcc_4 clang_2 clang_3 clang_4 avx_3', 'interfere', 400, 1) + ops(['gcc_3', 'clang_2'], ['lin_lockfree'], 8000, 1) + ops(['fb_2', 'fb_3'], ['lin_locked'], 8000, 1)
CHECKS['C05'] += step('gcc_1 gcc_2 gcc_3 gcc_4 clang_1 clang_3 arch_1 sync_1 nf_1', 'interfere', 400, 1) + ops(['gcc_3', 'clang_4'], ['lin_lockfree'], 8000, 1) + ops(['fb_3'], ['lin_locked'], 8000, 1)
CHECKS['C09'] += waits('l0_1 fbl_1 ptl_1 nosse_1', 'many', 6000) + waits('gcc_3', 'ipc', 20000) + stress('gcc_0 l0_0', 'storm_timed', 100, cpus=4)
CHECKS['C10'] += waits('l0_1 fbl_1 ptl_1', 'many', 6000) + waits('gcc_3 pt_3', 'ret', 20000) + stress('gcc_0 fb_0', 'storm', 100, cpus=4)
CHECKS['C11'] += waits('gcc_1 fb_1 ptl_1', 'progress', 6000) + stress('l0_0 ptl_0', 'storm_timed', 60, cpus=4)
CHECKS['C12'] += waits('l0_1 l0_2 ptl_1 fbl_1', 'wake wake_one', 10000)
CHECKS['C13'] += waits('gcc_3 clang_3 pt_3', 'wake ret timed extreme', 12000) + step('gcc_2 gcc_4 clang_4', 'interfere', 400, 1) + sem('gcc_1 gcc_2 gcc_3 gcc_4', 'int cas', 20000)
CHECKS['C14'] += waits('l0_1 ptl_1', 'progress mem', 6000)
CHECKS['C15'] += waits('gcc_1 l0_1 ptl_1', 'oom many', 8000) + stress('agl_0 ag_0', 'storm many', 60, cpus=4)
CHECKS['C16'] += waits('fb_1 l0_1 ptl_1', 'oom many timed wake', 8000) + waits('pt_1', 'wake', 8000)
CHECKS['C19'] += step('clang_2 clang_3 clang_4 arch_1 avx_3 avx_4', 'interfere', 500, 1)
CHECKS['C20'] += sem('gcc_1 gcc_2 gcc_3 gcc_4 clang_1 clang_3', 'int fp cas', 20000)

_sch = ' A controlled execution is one seeded schedule of the real code at single-access granularity (random, preemption-bounded or PCT-like by execution number) with stale values for relaxed reads; it is distinct by the hash of results and schedule.'
_step = ' A stepped execution runs one operation of the native code instruction by instruction (hardware single stepping), with another agent acting at a chosen instruction boundary; it is distinct by operation, boundary and what was observed.'
_nat = ' A native burst runs the same operations on really concurrent threads started at one time stamp; it is distinct by the results of all its operations.'
_sem = 'A case is one operation of one wrapper on one value type with special or random stored value and operands; distinct by operation and results.'
RULES['C01'] = 'Histories of 2-4 threads with 1-4 operations each out of the table of all operations and memory orders, on lock-free objects: results and final value must be explained by one order of the operations (respecting real time where stamps exist).' + _sch + _step + _nat
RULES['C02'] = 'As C01 on objects that use the internal locks (any size and alignment, forced fallback, a single shared lock), with unrelated operations, waits and notifications on the same lock.' + _sch + _nat
RULES['C03'] = _sem + ' Integral, pointer, enum, bool and flag types; constant operands in separate builds.'
RULES['C04'] = _sem + ' Floating-point types with infinities, NaNs, signed zeros, denormals and rounding cases.'
RULES['C05'] = _sem + ' Every compare_exchange form and order pair; padded types have random padding in object, expected and desired; weak forms are retried.'
RULES['C06'] = 'Message passing: plain data, a releasing operation, an acquiring operation (or wait) whose result proves that it read the release, then the data must be there; release/acquire chosen among all operations and orders, with and without a chain of read-modify-writes. Non-trivial when the data was consumed.' + _sch + ' In stepped executions the plain stores must have happened when the releasing operation takes effect and the plain loads must not have happened before the acquiring one does.'
RULES['C07'] = 'Store buffering and IRIW over two objects with every pair of seq_cst operations: outcomes without a common order never occur.' + _sch + _nat
RULES['C08'] = 'Message passing with relaxed operations and fences, store buffering with seq_cst fences.' + _sch + _nat + ' Stepped executions watch on which side of a thread or signal fence the plain accesses happen.'
_w = ' Waiters use every wait function, clock and memory order; spurious wakeups, EINTR, clock jumps and late wakeups are injected; an execution is distinct by schedule and object kind.'
RULES['C09'] = '1-5 waiters on an object, one change and a notification at any point, bystanders on the same lock: at quiescence no notified waiter may be blocked.' + _w + ' Native rings pass a token through waits and notifications.'
RULES['C10'] = 'Waiters and writers that change the value back and forth; every result is compared with the history of values held during the call.' + _w
RULES['C11'] = 'Deadlines from the past to the ends of the representable range on every clock; the time at which a timeout is reported, and the number of calls after the deadline, are checked in virtual time and on the real clocks.' + _w
RULES['C12'] = '2-12 objects sharing a lock with 1-4 waiters each, waits beginning, ending and timing out in random order; each notification must wake the waiters of its object and disturb no other.' + _w + ' Native runs block up to 100 threads.'
RULES['C13'] = 'The same memory at two addresses (controlled) or in up to four processes (native) with waits, timed waits and notifications through both, and sums of all operations.' + _w
RULES['C14'] = 'Every subset of allocations fails by random choice or from a chosen one on; the wait contract is checked as in C09-C11 and service must recover.' + _w
RULES['C15'] = 'Memory held by the library is counted at every allocation and release over long sequences of waits, and at and after exit-time cleanup; use after release, double release and leaks are reported by the runtime.' + _w
RULES['C16'] = 'Contending lock-based operations, waits and throwing clocks on few locks with interrupted futex calls: every thread finishes, no lock is held afterwards.' + _w
RULES['C17'] = 'Executions of the native drivers under AddressSanitizer and UndefinedBehaviorSanitizer (gcc and clang), ThreadSanitizer (operations whose plain look-ahead reads it misreads left out) and memcheck, and controlled executions with vector-clock race detection on every access. Any report is a violation.'
RULES['C18'] = 'Objects of every kind surrounded by watched bytes, another agent changing neighbours at every instruction boundary, inaccessible pages on both sides, and non-modifying operations and reference copies compared before and after.' + _step
RULES['C19'] = 'Every wrapper and type: claims compared with each other and, instruction by instruction, with whether the internal locks are touched; a signal handler runs an operation on the same object at every boundary.' + _step
RULES['C20'] = 'Objects in static, automatic, dynamic, member and array storage in two translation units; values before dynamic initialisation, after construction, through every access path; distinct by object and context.'
TECH = {}
NOTE = {}
_t = 'runtime monitoring: controlled scheduling of the instrumented real code (seeded schedules, weak-memory read choices, vector-clock race detection) with '
TECH['C01'] = _t + 'an offline linearizability checker'
TECH['C02'] = _t + 'an offline linearizability checker'
TECH['C06'] = _t + 'a message-passing oracle over every release/acquire pair of operations'
TECH['C07'] = _t + 'store-buffering and IRIW oracles over every seq_cst operation'
TECH['C08'] = _t + 'message-passing and store-buffering oracles around fences'
_w = 'runtime monitoring: controlled scheduling of the instrumented real code in virtual time with injected faults (spurious wakeups, EINTR, clock jumps, failed allocations) and '
TECH['C09'] = _w + 'an online lost-wakeup monitor (every notified waiter returns; quiescence with a pending waiter is a violation)'
TECH['C10'] = _w + 'an oracle that compares results of waits with the recorded history of values'
TECH['C11'] = _w + 'deadline monitors (no early timeout, no call after the deadline, extreme deadlines)'
TECH['C12'] = _w + 'lost-wakeup and interference monitors over many objects that share a lock'
TECH['C13'] = _w + 'wakeup and visibility monitors over two mappings of the same memory'
TECH['C14'] = _w + 'wakeup and result monitors under failed allocations'
TECH['C15'] = _w + 'a monitor of the memory held by the library'
TECH['C16'] = _w + 'deadlock and progress monitors'
_s = 'runtime monitoring: the native code executed one machine instruction at a time with '
TECH['C18'] = _s + 'watched neighbouring bytes, guard pages, and reference/value monitors'
TECH['C19'] = _s + 'a watch on the internal lock pool, operations run inside a signal handler at every instruction boundary, and a monitor comparing macros, constants and members'
TECH['C03'] = 'runtime monitoring: differential monitor of every operation against exact arithmetic on special and random values, over compilers, optimization levels, language versions and backends'
TECH['C04'] = TECH['C03']
TECH['C05'] = TECH['C03'] + ', with padding-aware and spurious-failure-aware oracles'
TECH['C17'] = 'runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, ThreadSanitizer, memcheck and the controlled runtime\'s own race detector over operations, waits, allocation failures and exit-time use'
TECH['C20'] = 'runtime monitoring: monitors of initial values before dynamic initialization, of placement in every context, and of agreement between translation units and between access paths'
for p in TECH:
    NOTE[p] = 'Explores a bounded number of seeded schedules and inputs; trusts the runtime in /verif/crt.'
