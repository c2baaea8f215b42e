#include "crt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <unordered_map>
#include <algorithm>
#include <set>
#include <map>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>

extern "C" char _end[];
extern "C" { extern char __start_libbss[] __attribute__((weak)); extern char __stop_libbss[] __attribute__((weak));
extern char __start_libdata[] __attribute__((weak)); extern char __stop_libdata[] __attribute__((weak)); }
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace crt {

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t up;
stats st; options opt;

static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f; long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

// ------------------------------------------------------------------------------------------------ random numbers
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? u32((next() >> 32) * n >> 32) : 0; } bool pct(unsigned p) { return p && below(100) < p; } bool permille(unsigned p) { return p && below(1000) < p; } };
static Rng rs, rh; // scheduler / memory model randomness; harness randomness

// ------------------------------------------------------------------------------------------------ views
struct View
{
    std::vector<u32> vc, ts;
    void clear() { vc.clear(); ts.clear(); }
    static void j(std::vector<u32>& a, std::vector<u32> const& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) if (a[i] < b[i]) a[i] = b[i]; }
    void join(View const& o) { j(vc, o.vc); j(ts, o.ts); }
    void join_ts(View const& o) { j(ts, o.ts); }
    u32 t(size_t l) const { return l < ts.size() ? ts[l] : 0; }
    void set(size_t l, u32 v) { if (ts.size() <= l) ts.resize(l + 8, 0); ts[l] = v; }
    u32 c(size_t f) const { return f < vc.size() ? vc[f] : 0; }
};
struct Msg { u32 ts; u8 val[16]; View rel; int by; };
struct Loc
{
    up addr; u32 size; u32 id; u32 next_ts; u32 last_sc; bool live; bool dirty;
    std::vector<Msg> h;
};

struct EhG { void* a; unsigned b; };
enum State { RUN, FUTEX, SLEEP, COND, MUTEX, DONE };
struct Fiber;
static void post_call(Fiber* f);
struct Fiber
{
    int id; State state; void* sp; u8* stack; void (*fn)(void*); void* arg; char const* name; char const* lab;
    View v, relf, acqp; View pend_rel; up pend_loc; bool has_pend;
    EhG eh; int err;
    // waiting
    up key; u32 bitset; bool has_deadline; int clk; int64_t deadline; int wake_result; // 0 woken, 1 timeout, 2 spurious/EINTR
    up mutex_key; up futex_addr;
    u64 futex_calls, clock_calls, lib_acc; bool watching; int watch_clk; int64_t watch_t; u64 post_calls; up first_lib;
    int prio; u64 delayed_until; u64 ran_at;
};
static Fiber* fib[max_fibers + 1]; static int nfib = 0; // index 0 = main
static int cur = 0; static void* main_sp;
static policy pol; static bool active = false, fair = false, faults_on = true; static u64 step = 0, fair_start = 0, stamp_ctr = 0, seq_ctr = 0, sched_hash_v = 0;
static u64 max_len_seen = 200;
static int64_t vtime = 0; static std::map<int, int64_t> clock_off;
static View mainv; static View G; // G.ts: view of seq_cst fences
static std::vector<Loc*> locs; static std::vector<Loc*> live_locs; static std::vector<Loc*> loc_pool; static std::unordered_map<up, Loc*> loc_at; // by canonical 8-byte granule
static const size_t STK = 256 * 1024;
static std::string scen_name, driver_name; static u64 exec_no;
static std::string hashes_file; static std::set<u64> distinct_set; static u64 distinct_overflow = 0; static std::map<std::string, u64> metrics; static std::vector<std::string> samples;
struct Range { up a, n; }; static std::vector<Range> ignored; struct Alias { up a, b, n; }; static std::vector<Alias> aliases;

static inline View& curview() { return cur ? fib[cur]->v : mainv; }
static inline up canon(up p) { for (auto& x : aliases) if (p - x.b < x.n) return p - x.b + x.a; return p; }
static inline bool is_ignored(up p) { for (auto& r : ignored) if (p - r.a < r.n) return true; return false; }
static inline bool own_stack(up p) { return cur && p - up(fib[cur]->stack) < STK; }
static bool any_stack(up p) { for (int i = 1; i <= nfib; ++i) if (p - up(fib[i]->stack) < STK) return true; return false; }
static up heap_lo; static up heap_span() { return up(sbrk(0)) - heap_lo; } // glibc heap: exception objects, harness containers

// ------------------------------------------------------------------------------------------------ event ring
struct Ev { u64 step; int fiber; char const* what; up addr; u32 size; u64 val; int mo; void* pc; char const* lab; char text[96]; };
static Ev ring[4096]; static u64 ring_n = 0;
static Ev& ev(char const* what, up addr = 0, u32 size = 0, u64 val = 0, int mo = -1, void* pc = nullptr)
{
    Ev& e = ring[ring_n++ % 4096]; e.step = step; e.fiber = cur; e.what = what; e.addr = addr; e.size = size; e.val = val; e.mo = mo; e.pc = pc; e.lab = cur ? fib[cur]->lab : ""; e.text[0] = 0;
    return e;
}
static char const* mos(int m) { static char const* n[] = { "rlx", "con", "acq", "rel", "a_r", "sc" }; return m >= 0 && m < 6 ? n[m] : ""; }
void note(char const* fmt, ...) { Ev& e = ev("note"); va_list ap; va_start(ap, fmt); vsnprintf(e.text, sizeof e.text, fmt, ap); va_end(ap); }
static char const* stn(State s) { static char const* n[] = { "runnable", "futex-wait", "sleeping", "cond-wait", "mutex-wait", "done" }; return n[s]; }
std::string deadlock_state()
{
    std::string r; char b[256];
    for (int i = 1; i <= nfib; ++i) { Fiber* f = fib[i]; snprintf(b, sizeof b, " [fiber %d %s (%s): %s%s]", i, f->name, f->lab, stn(f->state), f->state == FUTEX && f->has_deadline ? " timed" : ""); if (f->state != DONE) r += b; }
    return r;
}
void fail(char const* kind, char const* fmt, ...)
{
    active = false;
    char msg[2048]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    for (char* p = msg; *p; ++p) if (*p == '"' || *p == '\\' || *p == '\n') *p = '\'';
    printf("CRT-VIOLATION {\"driver\":\"%s\",\"scenario\":\"%s\",\"kind\":\"%s\",\"seed\":%llu,\"exec\":%llu,\"fiber\":%d,\"label\":\"%s\",\"message\":\"%s\"}\n",
        driver_name.c_str(), scen_name.c_str(), kind, (unsigned long long)opt.seed, (unsigned long long)exec_no, cur, cur ? fib[cur]->lab : "main", msg);
    printf("fibers:%s\n", deadlock_state().c_str());
    u64 n = ring_n < 4096 ? ring_n : 4096; u64 show = opt.trace ? n : (n < 150 ? n : 150);
    printf("last %llu events (step fiber[label] event):\n", (unsigned long long)show);
    for (u64 i = ring_n - show; i < ring_n; ++i)
    {
        Ev& e = ring[i % 4096];
        printf("  %6llu f%d[%s] %s", (unsigned long long)e.step, e.fiber, e.lab ? e.lab : "", e.what);
        if (e.text[0]) printf(" %s", e.text); if (e.addr) printf(" @%llx/%u", (unsigned long long)e.addr, e.size);
        if (e.addr) printf(" val=%llx", (unsigned long long)e.val); if (e.mo >= 0) printf(" %s", mos(e.mo)); if (e.pc) printf(" pc=%p", e.pc);
        printf("\n");
    }
    fflush(stdout); _exit(1);
}

// ------------------------------------------------------------------------------------------------ race detection
struct Cell { u8 fiber; u8 mask; u8 kind; u32 clock; void* pc; }; // kind: 0 read, 1 write, 2 atomic load, 3 atomic write
struct Gran { up key; u32 gen; u8 n; Cell c[6]; };
static const u32 GT = 1 << 15; static Gran* gt; static u32 gen = 1;
static char const* kname(int k) { static char const* n[] = { "plain read", "plain write", "atomic load", "atomic write" }; return n[k]; }
static Gran* gran(up key)
{
    u32 i = u32(mix(key)) & (GT - 1);
    for (int k = 0; k < 64; ++k, i = (i + 1) & (GT - 1)) { if (gt[i].gen != gen) { gt[i].gen = gen; gt[i].key = key; gt[i].n = 0; return &gt[i]; } if (gt[i].key == key) return &gt[i]; }
    return nullptr;
}
static void race_granule(up g, u8 mask, u8 kind, void* pc)
{
    Gran* r = gran(g); if (!r) return;
    View& v = curview(); u32 myc = v.c(cur); int w = 0; bool dup = false;
    for (int i = 0; i < r->n; ++i)
    {
        Cell c = r->c[i];
        bool overlap = c.mask & mask; bool conflict = overlap && ((c.kind | kind) & 1) && !(c.kind >= 2 && kind >= 2);
        bool ordered = c.fiber == cur || c.clock <= v.c(c.fiber);
        if (conflict && !ordered)
            fail("data-race", "%s of 0x%llx by fiber %d (%s) pc %p races with %s by fiber %d (%s, %s) pc %p", kname(kind), (unsigned long long)g, cur, fib[cur]->name, pc, kname(c.kind), (int)c.fiber,
                c.fiber ? fib[c.fiber]->name : "main", c.fiber ? fib[c.fiber]->lab : "", c.pc);
        if (c.fiber == cur && c.mask == mask && c.kind == kind) { c.clock = myc; c.pc = pc; dup = true; r->c[w++] = c; continue; }
        if (ordered && kind == 1 && !(c.mask & ~mask)) continue; // superseded
        r->c[w++] = c;
    }
    r->n = w;
    if (!dup) { if (r->n == 6) { memmove(&r->c[0], &r->c[1], sizeof(Cell) * 5); r->n = 5; } Cell& c = r->c[r->n++]; c.fiber = cur; c.mask = mask; c.kind = kind; c.clock = myc; c.pc = pc; }
}
static void race_access(up p, size_t n, u8 kind, void* pc)
{
    if (!pol.race_check || !cur) return;
    p = canon(p);
    while (n) { up g = p & ~up(7); unsigned o = p - g; unsigned k = std::min<size_t>(8 - o, n); race_granule(g, u8(((1u << k) - 1) << o), kind, pc); p += k; n -= k; }
}
static void race_forget(up p, size_t n) { p = canon(p); for (up g = p & ~up(7); g < p + n; g += 8) { Gran* r = gran(g); if (r) r->n = 0; } }

// ------------------------------------------------------------------------------------------------ allocation
struct Blk { size_t n; bool lib; bool live; void* freed_pc; };
static u8* arena; static const size_t ARENA = 64 << 20; static size_t arena_top = 0; static std::map<up, Blk> blks; static std::map<size_t, std::vector<up> > reuse;
static int64_t live_bytes = 0, live_blocks = 0, max_live = 0; static u64 fail_mask = 0; static unsigned fail_pct_v = 0; static bool reuse_on = false;
static std::vector<exit_fn> exit_fns;
void fail_allocs(u64 m) { fail_mask = m; } void fail_allocs_pct(unsigned p) { fail_pct_v = p; }
int64_t lib_live_bytes() { return live_bytes; } int64_t lib_live_blocks() { return live_blocks; } int64_t lib_max_live_bytes() { return max_live; }
std::vector<exit_fn>& lib_atexit() { return exit_fns; }
static inline bool in_arena(up p) { return arena && p - up(arena) < ARENA; }
static void* lib_alloc(size_t align, size_t n)
{
    ++st.allocs; ev("alloc", 0, u32(n));
    bool f = fail_mask & 1; fail_mask >>= 1; if (fail_pct_v && faults_on && !fair && rs.pct(fail_pct_v)) f = true;
    if (f) { ++st.alloc_fail; note("allocation of %zu bytes fails", n); return nullptr; }
    if (align < 16) align = 16;
    up p = 0;
    if (reuse_on) { auto& v = reuse[n]; for (size_t i = 0; i < v.size(); ++i) if (!(v[i] & (align - 1))) { p = v[i]; v.erase(v.begin() + i); break; } }
    if (!p) { arena_top = (arena_top + 64 + align - 1) & ~(align - 1); if (arena_top + n + 64 > ARENA) { printf("CRT-ERROR arena exhausted\n"); fflush(stdout); _exit(3); } p = up(arena) + arena_top; arena_top += n; }
    blks[p] = Blk{ n, true, true, nullptr }; live_bytes += n; ++live_blocks; if (live_bytes > max_live) max_live = live_bytes;
    race_forget(p, n); memset((void*)p, 0xa5, n);
    return (void*)p;
}
static void drop_locs(up p, size_t n);
static void lib_free(void* ptr, void* pc)
{
    up p = up(ptr); auto it = blks.find(p); ev("free", p, it == blks.end() ? 0 : u32(it->second.n), 0, -1, pc);
    if (it == blks.end()) fail("bad-free", "free of %p, which is not an allocated block", ptr);
    if (!it->second.live) fail("double-free", "block %p freed twice", ptr);
    race_access(p, it->second.n, 1, pc); drop_locs(p, it->second.n);
    for (int i = 1; i <= nfib; ++i) if (fib[i]->state == FUTEX && fib[i]->futex_addr - p < it->second.n) fail("use-after-free", "block %p freed while fiber %d waits on a futex inside it", ptr, i);
    it->second.live = false; it->second.freed_pc = pc; live_bytes -= it->second.n; --live_blocks; memset(ptr, 0xfd, it->second.n);
    if (reuse_on) reuse[it->second.n].push_back(p);
}
static void check_arena(up p, size_t n, void* pc, bool w)
{
    auto it = blks.upper_bound(p);
    if (it != blks.begin()) { --it; if (p + n <= it->first + it->second.n) { if (!it->second.live) fail("use-after-free", "%s of %zu bytes at %p (offset %zu of a freed block of %zu bytes) pc %p", w ? "write" : "read", n, (void*)p, size_t(p - it->first), it->second.n, pc); return; } }
    fail("heap-out-of-bounds", "%s of %zu bytes at %p outside any allocated block, pc %p", w ? "write" : "read", n, (void*)p, pc);
}
bool in_lib_static(void const* q) { up p = up(q); return (__start_libbss && p - up(__start_libbss) < size_t(__stop_libbss - __start_libbss)) || (__start_libdata && p - up(__start_libdata) < size_t(__stop_libdata - __start_libdata)); }
static std::vector<u8> snap_bss, snap_data;

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void crt_switch(void** save, void* to);
__asm__(".text\n.globl crt_switch\n.type crt_switch,@function\ncrt_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n");
static void switch_to(int to)
{
    int from = cur; if (from == to) return;
    EhG* g = (EhG*)__cxxabiv1::__cxa_get_globals();
    if (from) { fib[from]->eh = *g; fib[from]->err = errno; }
    cur = to;
    if (to) { *g = fib[to]->eh; errno = fib[to]->err; } else { g->a = nullptr; g->b = 0; }
    void** save = from ? &fib[from]->sp : &main_sp; void* target = to ? fib[to]->sp : main_sp;
    crt_switch(save, target);
}
static void scan();
static void fiber_main()
{
    Fiber* f = fib[cur];
    f->fn(f->arg);
    f = fib[cur]; scan();
    mainv.join(f->v); f->state = DONE; ev("done");
    ++sched_hash_v;
    switch_to(0);
    abort();
}
int spawn(void (*fn)(void*), void* arg, char const* name)
{
    if (nfib >= max_fibers) { printf("CRT-ERROR too many fibers\n"); fflush(stdout); _exit(3); }
    int id = ++nfib;
    if (!fib[id]) { fib[id] = new Fiber(); u8* s = (u8*)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(s, 4096, PROT_NONE); fib[id]->stack = s + 4096; }
    Fiber* f = fib[id]; u8* stk = f->stack; *f = Fiber(); f->stack = stk; f->id = id; f->fn = fn; f->arg = arg; f->name = name; f->lab = ""; f->state = RUN;
    f->v = curview(); if (f->v.vc.size() <= size_t(id)) f->v.vc.resize(id + 1, 0); f->v.vc[id]++;
    View& p = curview(); if (p.vc.size() <= size_t(cur)) p.vc.resize(cur + 1, 0); p.vc[cur]++;
    f->prio = int(rs.below(1 << 20)) + 1000;
    u64* sp = (u64*)(stk + STK); *--sp = 0; *--sp = (u64)&fiber_main; for (int i = 0; i < 6; ++i) *--sp = 0; --sp; ((u32*)sp)[0] = 0x1f80; ((u32*)sp)[1] = 0x037f;
    f->sp = sp; f->eh.a = nullptr; f->eh.b = 0;
    return id;
}
bool finished(int f) { return fib[f]->state == DONE; }
bool blocked(int f) { return fib[f]->state == FUTEX || fib[f]->state == COND || fib[f]->state == MUTEX; }
int self() { return cur; }
u64 schedule_hash() { return sched_hash_v; }
bool in_fair_phase() { return fair; }
void set_faults(bool on) { faults_on = on; }
u32 rnd(u32 n) { return rh.below(n); }
u64 stamp() { return ++stamp_ctr; }
void label(char const* t) { if (cur) fib[cur]->lab = t; }
u64 futex_calls() { return fib[cur]->futex_calls; } u64 clock_calls() { return fib[cur]->clock_calls; } u64 lib_accesses() { return cur ? fib[cur]->lib_acc : 0; }
static void post_call(Fiber* f) { if (f->watching && vnow(f->watch_clk) >= f->watch_t) ++f->post_calls; }
void watch_deadline(int clk, int64_t t) { if (!cur) return; Fiber* f = fib[cur]; f->watching = clk >= 0; f->watch_clk = clk; f->watch_t = t; f->post_calls = 0; }
uint64_t post_deadline_calls() { return cur ? fib[cur]->post_calls : 0; }
void reset_first_lib() { if (cur) fib[cur]->first_lib = 0; } void const* first_lib() { return cur ? (void const*)fib[cur]->first_lib : nullptr; }
void register_atomic(void volatile* p, size_t n);
void hb_acquire_all() { for (int i = 1; i <= nfib; ++i) if (i != cur) { curview().join(fib[i]->v); if (cur) { fib[i]->v.vc[i]++; } } }

// ------------------------------------------------------------------------------------------------ time
static const int64_t MONO0 = 1000000LL * 1000000000LL, REAL0 = 1700000000LL * 1000000000LL;
int64_t vnow(int c)
{
    int64_t off = 0; auto it = clock_off.find(c); if (it != clock_off.end()) off = it->second;
    return (c == CLOCK_REALTIME ? REAL0 : MONO0) + vtime + off;
}
void set_clock_offset(int c, int64_t ns) { clock_off[c] = ns; }
void advance_offset(int c, int64_t ns) { clock_off[c] += ns; }
void advance(int64_t ns) { vtime += ns; }
static bool due(Fiber* f) { return f->has_deadline && (f->clk == -1 ? vtime : vnow(f->clk)) >= f->deadline; }

// ------------------------------------------------------------------------------------------------ scheduler
enum { S_RANDOM, S_PCT, S_DELAY, S_STICKY, S_RR };
static int sched_kind; static std::vector<u64> change_points; static int low_prio; static u64 delay_at; static int delay_left;
static bool (*on_q)() = nullptr;
static inline bool can_run(Fiber* f) { return f->state == RUN; }
static void wake(Fiber* f, int result) { f->state = RUN; f->wake_result = result; f->key = 0; }
// Chooses the next fiber to run, waking sleepers/timeouts as needed. Returns 0 when nothing can run.
static int choose(bool cur_runnable)
{
    if (step > pol.step_limit && !fair) { fair = true; fair_start = step; ++st.limit_hits; }
    if (fair && step - fair_start > pol.fair_steps) fail("no-progress", "the execution did not finish within %u steps plus %u steps of fair scheduling without faults:%s", pol.step_limit, pol.fair_steps, deadlock_state().c_str());
    for (;;)
    {
        int cand[max_fibers], n = 0;
        for (int i = 1; i <= nfib; ++i)
        {
            Fiber* f = fib[i];
            if (f->state == SLEEP && due(f)) wake(f, 0);
            if ((f->state == FUTEX || f->state == COND) && due(f)) { if (fair || rs.below(4) == 0) { ++st.timeouts; ev("timeout-fires", f->key, 0, i); wake(f, 1); } }
            if (can_run(f)) cand[n++] = i;
        }
        if (n == 0)
        {
            // advance virtual time to the earliest deadline
            int64_t best = INT64_MAX; Fiber* bf = nullptr;
            for (int i = 1; i <= nfib; ++i) { Fiber* f = fib[i]; if (f->state != DONE && f->state != RUN && f->has_deadline) { __int128 d = (__int128)f->deadline - (f->clk == -1 ? vtime : vnow(f->clk)); if (d < 0) d = 0; if (d < best) { best = int64_t(d); bf = f; } } }
            if (!bf) return 0;
            if (best > (int64_t)40 * 365 * 86400 * 1000000000LL) return 0; // a deadline this far away never comes
            vtime += best;
            if (bf->state == SLEEP) wake(bf, 0); else { ++st.timeouts; ev("timeout-fires", bf->key, 0, bf->id); wake(bf, 1); }
            continue;
        }
        if (n == 1) return cand[0];
        int kind = fair ? S_RR : sched_kind;
        switch (kind)
        {
        case S_RR: { int k = 0; for (int i = 1; i < n; ++i) if (fib[cand[i]]->ran_at < fib[cand[k]]->ran_at) k = i; return cand[k]; }
        case S_PCT: { int k = 0; for (int i = 1; i < n; ++i) if (fib[cand[i]]->prio > fib[cand[k]]->prio) k = i; return cand[k]; }
        case S_DELAY: { int m = 0; int c2[max_fibers]; for (int i = 0; i < n; ++i) if (fib[cand[i]]->delayed_until <= step) c2[m++] = cand[i]; if (m == 0) return cand[rs.below(n)]; if (cur_runnable && rs.below(100) < 60) for (int i = 0; i < m; ++i) if (c2[i] == cur) return cur; return c2[rs.below(m)]; }
        case S_STICKY: if (cur_runnable && rs.below(100) < 85) return cur; return cand[rs.below(n)];
        default: if (cur_runnable && rs.below(100) < 35) return cur; return cand[rs.below(n)];
        }
    }
}
static void spurious_wakes()
{
    if (!faults_on || fair || !pol.spurious_permille || !rs.permille(pol.spurious_permille)) return;
    int c[max_fibers], n = 0; for (int i = 1; i <= nfib; ++i) if (fib[i]->state == FUTEX || fib[i]->state == COND) c[n++] = i;
    if (n) { int i = c[rs.below(n)]; ++st.spurious; ev("spurious-wake", fib[i]->key, 0, i); wake(fib[i], 2); }
}
static void scan();
static void schedule(bool runnable)
{
    if (cur) scan();
    ++step; ++st.steps; vtime += pol.step_ns;
    if (cur) fib[cur]->ran_at = step;
    if (!fair && faults_on && pol.timejump_permille && rs.permille(pol.timejump_permille)) { ++st.time_jumps; vtime += rs.below(u32(std::min<int64_t>(pol.timejump_max, 2000000000))); }
    spurious_wakes();
    if (sched_kind == S_PCT) for (u64 cp : change_points) if (cp == step && cur) fib[cur]->prio = --low_prio;
    if (sched_kind == S_DELAY && delay_left && step >= delay_at && cur) { fib[cur]->delayed_until = step + 5 + rs.below(rs.below(2) ? 40 : 600); --delay_left; delay_at = step + rs.below(100); }
    if (runnable && sched_kind == S_PCT && rs.below(400) == 0 && cur) fib[cur]->prio = --low_prio; // spinning fibers must not starve the rest
    int next = choose(runnable);
    sched_hash_v = mix(sched_hash_v * 31 + next + 1);
    if (next != cur) { ++st.switches; if (next == 0) { switch_to(0); } else switch_to(next); }
}
static inline void point() { if (cur && active) schedule(true); }
void yield() { point(); }

void run(bool (*q)())
{
    on_q = q; active = true;
    for (;;)
    {
        mainv.vc.resize(std::max<size_t>(mainv.vc.size(), 1), 0); mainv.vc[0]++;
        ++step; int next = choose(false);
        if (next) { switch_to(next); continue; }
        for (int i = 1; i <= nfib; ++i) mainv.join(fib[i]->v);
        bool all = true; for (int i = 1; i <= nfib; ++i) if (fib[i]->state != DONE) all = false;
        ++st.quiescent;
        if (on_q) { active = true; if (on_q()) { active = true; continue; } }
        if (all) break;
        fail("deadlock", "no thread can run and no timeout is pending:%s", deadlock_state().c_str());
    }
    active = false;
    if (step > max_len_seen) max_len_seen = std::min<u64>(step, 5000); else max_len_seen = (max_len_seen * 15 + step) / 16;
}

void begin(policy const& p, u64 seed)
{
    pol = p; active = false; fair = false; faults_on = true; step = 0; stamp_ctr = 0; vtime = 0; clock_off.clear(); sched_hash_v = 0; nfib = 0; cur = 0; ring_n = 0;
    rs.s = seed * 0x9e3779b97f4a7c15ULL + 1; rh.s = mix(seed + 77);
    for (int i = 0; i < 4; ++i) rs.next();
    mainv.clear(); G.clear(); mainv.vc.resize(1, 1); ++gen;
    for (auto* l : locs) { l->h.clear(); loc_pool.push_back(l); } locs.clear(); live_locs.clear(); loc_at.clear();
    blks.clear(); reuse.clear(); arena_top = 0; live_bytes = live_blocks = max_live = 0; fail_mask = 0; fail_pct_v = 0; exit_fns.clear(); reuse_on = rs.below(3) == 0;
    if (__start_libbss) memcpy(__start_libbss, snap_bss.data(), snap_bss.size());
    if (__start_libdata) memcpy(__start_libdata, snap_data.data(), snap_data.size());
    static const int kinds[] = { S_RANDOM, S_PCT, S_DELAY, S_STICKY, S_PCT, S_DELAY, S_RANDOM, S_STICKY };
    sched_kind = p.sched >= 0 ? p.sched : kinds[rs.below(8)];
    u32 L = 4u << rs.below(8); change_points.clear(); int d = 1 + rs.below(4); for (int i = 0; i < d; ++i) change_points.push_back(1 + rs.below(L)); low_prio = 500;
    delay_at = rs.below(L); delay_left = 1 + rs.below(3);
    ++st.execs;
}

// ------------------------------------------------------------------------------------------------ locations
static void add_msg(Loc* l, u8 const* val, View const& rel, int by)
{
    Msg m; m.ts = l->next_ts++; memcpy(m.val, val, l->size); m.rel = rel; m.by = by;
    l->h.push_back(std::move(m)); if (l->h.size() > 6) l->h.erase(l->h.begin());
}
static void drop_loc(Loc* l)
{
    l->live = false; live_locs.erase(std::find(live_locs.begin(), live_locs.end(), l));
    for (up g = l->addr & ~up(7); g < l->addr + l->size; g += 8) { auto it = loc_at.find(g); if (it != loc_at.end() && it->second == l) loc_at.erase(it); }
    // other locations may share the granule
    for (auto* o : live_locs) for (up g = o->addr & ~up(7); g < o->addr + o->size; g += 8) loc_at[g] = o;
}
static void drop_locs(up p, size_t n)
{
    if (live_locs.empty()) return; p = canon(p);
    for (size_t i = 0; i < live_locs.size();) { Loc* l = live_locs[i]; if (l->addr < p + n && p < l->addr + l->size) drop_loc(l); else ++i; }
}
// plain write over a location: its history ends here (the new contents are picked up at the next access)
static void plain_over(up p, size_t n)
{
    if (live_locs.empty()) return; p = canon(p);
    bool maybe = false; for (up g = p & ~up(7); g < p + n; g += 8) if (loc_at.find(g) != loc_at.end()) { maybe = true; break; }
    if (!maybe) return;
    for (auto* l : live_locs) if (l->addr < p + n && p < l->addr + l->size) l->dirty = true;
}
static Loc* new_loc(up a, u32 size, View const& rel)
{
    Loc* l; if (!loc_pool.empty()) { l = loc_pool.back(); loc_pool.pop_back(); } else l = new Loc();
    l->addr = a; l->size = size; l->id = u32(locs.size()); l->next_ts = 1; l->last_sc = 0; l->live = true; l->dirty = false; l->h.clear();
    locs.push_back(l); live_locs.push_back(l); for (up g = a & ~up(7); g < a + size; g += 8) loc_at[g] = l;
    add_msg(l, (u8*)a, rel, cur);
    return l;
}
static void clean(Loc* l) { if (l->dirty) { l->dirty = false; l->h.clear(); add_msg(l, (u8*)l->addr, View(), cur); } }
static void asm_change(Loc* l)
{
    ++st.asm_changes; Fiber* f = cur ? fib[cur] : nullptr; View& v = curview();
    View rel = l->h.back().rel;
    if (f && f->has_pend && f->pend_loc - l->addr < l->size) { rel.join(f->pend_rel); f->has_pend = false; } else if (f) rel.join(f->relf);
    if (f) f->acqp.join(l->h.back().rel);
    v.set(l->id, l->next_ts); rel.set(l->id, l->next_ts); l->last_sc = l->next_ts;
    u64 x = 0; memcpy(&x, (void*)l->addr, std::min<u32>(8, l->size)); ev("asm-rmw", l->addr, l->size, x);
    add_msg(l, (u8*)l->addr, rel, cur); race_access(l->addr, l->size, 3, nullptr);
    if (v.vc.size() <= size_t(cur)) v.vc.resize(cur + 1, 0); v.vc[cur]++;
}
static void sc_fence(View& v);
static void scan()
{
    if (pol.asm_scan) for (size_t i = 0; i < live_locs.size(); ++i)
    {
        Loc* l = live_locs[i]; if (l->dirty) continue;
        u8* m = (u8*)l->addr; Msg& b = l->h.back(); bool same;
        switch (l->size) { case 1: same = *m == b.val[0]; break; case 2: same = !memcmp(m, b.val, 2); break; case 4: same = *(u32*)m == *(u32*)b.val; break; case 8: same = *(u64*)m == *(u64*)b.val; break; default: same = !memcmp(m, b.val, l->size); }
        if (!same) { asm_change(l); sc_fence(curview()); }
    }
    Fiber* f = cur ? fib[cur] : nullptr;
    if (f && f->has_pend) // the annotated operation did not change the value
    {
        auto it = loc_at.find(f->pend_loc & ~up(7)); if (it == loc_at.end()) { f->has_pend = false; return; }
        Loc* l = it->second; clean(l); asm_change(l); --st.asm_changes; f->has_pend = false;
    }
}
static Loc* find_loc(up a, u32 size)
{
    for (int guard = 0; guard < 8; ++guard)
    {
        Loc* hit = nullptr;
        for (up g = a & ~up(7); g < a + size && !hit; g += 8) { auto it = loc_at.find(g); if (it != loc_at.end()) hit = it->second; }
        if (hit && !(hit->addr < a + size && a < hit->addr + hit->size)) { hit = nullptr; for (auto* l : live_locs) if (l->addr < a + size && a < l->addr + l->size) { hit = l; break; } }
        else if (!hit) { }
        if (!hit) return new_loc(a, size, View());
        if (hit->addr <= a && a + size <= hit->addr + hit->size) { clean(hit); return hit; }
        // grow: start a new, larger location
        View rel = hit->dirty ? View() : hit->h.back().rel; up lo = std::min(a, hit->addr), hi = std::max(a + size, hit->addr + hit->size);
        for (;;) { bool again = false; for (auto* l : live_locs) if (l->addr < hi && lo < l->addr + l->size) { if (!l->dirty) rel.join(l->h.back().rel); lo = std::min(lo, l->addr); hi = std::max(hi, l->addr + l->size); drop_loc(l); again = true; break; } if (!again) break; }
        if (hi - lo > 16) { printf("CRT-ERROR overlapping atomic accesses span %zu bytes\n", size_t(hi - lo)); fflush(stdout); _exit(3); }
        new_loc(lo, u32(hi - lo), rel);
    }
    printf("CRT-ERROR find_loc\n"); fflush(stdout); _exit(3);
}
static void sc_fence(View& v)
{
    v.join_ts(G); for (auto* l : live_locs) if (l->last_sc > v.t(l->id)) v.set(l->id, l->last_sc);
    G.join_ts(v);
}
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void tick(View& v) { if (v.vc.size() <= size_t(cur)) v.vc.resize(cur + 1, 0); v.vc[cur]++; }

static bool direct(up a, void* pc, bool w, size_t n, bool& skip_race)
{
    skip_race = false;
    if (in_lib_static((void*)a)) { ++st.lib_accesses; if (cur) { fib[cur]->lib_acc++; if (!fib[cur]->first_lib) fib[cur]->first_lib = a; } }
    if (!active || !cur) return true;
    if (own_stack(a)) return true;
    if (is_ignored(a)) return true;
    if (in_arena(a)) check_arena(a, n, pc, w);
    return false;
}
// entry of every atomic access made by a fiber; returns null when memory is to be accessed directly
static Loc* enter(void volatile* p, u32 size, bool w, void* pc)
{
    up a = up(p); bool sr;
    if (!active && !cur) { return nullptr; }
    if (direct(a, pc, w, size, sr)) return nullptr;
    if (a % size != 0 && size <= 8) fail("misaligned-atomic", "atomic access of %u bytes at %p is not aligned, pc %p", size, (void*)a, pc);
    ++st.atomics;
    point();
    a = canon(a);
    Loc* l = find_loc(a, size);
    race_access(a, size, w ? 3 : 2, pc);
    return l;
}
static void do_load(Loc* l, up a, void* out, u32 size, int mo, void* pc)
{
    Fiber* f = fib[cur]; View& v = f->v;
    u32 lo = v.t(l->id); if (mo == 5) { lo = std::max(lo, l->last_sc); lo = std::max(lo, G.t(l->id)); }
    size_t i = l->h.size() - 1;
    if (faults_on && !fair && i > 0 && pol.stale_pct && rs.pct(pol.stale_pct))
    {
        size_t first = i; while (first > 0 && l->h[first - 1].ts >= lo) --first;
        if (first < i) { i = first + rs.below(u32(i - first + 1)); if (i + 1 < l->h.size()) ++st.stale_reads; }
    }
    Msg& m = l->h[i];
    memcpy(out, m.val + (a - l->addr), size);
    if (v.t(l->id) < m.ts) v.set(l->id, m.ts);
    if (acq(mo)) v.join(m.rel); else f->acqp.join(m.rel);
    u64 x = 0; memcpy(&x, out, std::min<u32>(8, size)); ev(i + 1 < l->h.size() ? "load(stale)" : "load", a, size, x, mo, pc);
}
static void do_store(Loc* l, up a, void const* val, u32 size, int mo, bool rmw, void* pc)
{
    Fiber* f = fib[cur]; View& v = f->v; u32 ts = l->next_ts;
    if (rmw) { Msg& m = l->h.back(); if (v.t(l->id) < m.ts) v.set(l->id, m.ts); if (acq(mo)) v.join(m.rel); else f->acqp.join(m.rel); }
    v.set(l->id, ts);
    View r; if (rmw) r = l->h.back().rel;
    if (rel(mo)) r.join(v); else r.join(f->relf);
    u8 buf[16]; memcpy(buf, l->h.back().val, l->size); memcpy(buf + (a - l->addr), val, size);
    memcpy((void*)a, val, size);
    add_msg(l, buf, r, cur); if (mo == 5) l->last_sc = ts;
    tick(v);
    u64 x = 0; memcpy(&x, val, std::min<u32>(8, size)); ev(rmw ? "rmw" : "store", a, size, x, mo, pc);
}
template<class T> static T a_load(void volatile* p, int mo, void* pc)
{
    Loc* l = enter(p, sizeof(T), false, pc); T r;
    if (!l) { memcpy(&r, (void*)p, sizeof(T)); return r; }
    do_load(l, canon(up(p)), &r, sizeof(T), mo, pc); return r;
}
template<class T> static void a_store(void volatile* p, T v, int mo, void* pc)
{
    Loc* l = enter(p, sizeof(T), true, pc);
    if (!l) { memcpy((void*)p, &v, sizeof(T)); if (active) plain_over(up(p), sizeof(T)); return; }
    do_store(l, canon(up(p)), &v, sizeof(T), mo, false, pc);
}
template<class T, class F> static T a_rmw(void volatile* p, F f, int mo, void* pc)
{
    Loc* l = enter(p, sizeof(T), true, pc); T old; memcpy(&old, (void*)p, sizeof(T)); T n = f(old);
    if (!l) { memcpy((void*)p, &n, sizeof(T)); if (active) plain_over(up(p), sizeof(T)); return old; }
    do_store(l, canon(up(p)), &n, sizeof(T), mo, true, pc); return old;
}
template<class T> static bool a_cas(void volatile* p, T* e, T d, int mo, int fmo, bool weak, void* pc)
{
    Loc* l = enter(p, sizeof(T), false, pc); T old; memcpy(&old, (void*)p, sizeof(T));
    if (!l) { if (old == *e) { memcpy((void*)p, &d, sizeof(T)); if (active) plain_over(up(p), sizeof(T)); return true; } *e = old; return false; }
    bool eq = old == *e;
    if (eq && weak && faults_on && !fair && rs.pct(pol.weakfail_pct)) { ++st.weakfails; eq = false; }
    if (eq) { race_access(up(p), sizeof(T), 3, pc); do_store(l, canon(up(p)), &d, sizeof(T), mo, true, pc); return true; }
    // failure: a load of the latest value
    Fiber* f = fib[cur]; Msg& m = l->h.back(); if (f->v.t(l->id) < m.ts) f->v.set(l->id, m.ts);
    if (acq(fmo)) f->v.join(m.rel); else f->acqp.join(m.rel);
    u64 x = 0; memcpy(&x, &old, std::min<size_t>(8, sizeof(T))); ev("cas-fail", up(p), sizeof(T), x, fmo, pc);
    *e = old; return false;
}
static void plain(up a, size_t n, bool w, void* pc, bool vol = false)
{
    bool sr;
    if (in_lib_static((void*)a)) { ++st.lib_accesses; if (cur) { fib[cur]->lib_acc++; if (!fib[cur]->first_lib) fib[cur]->first_lib = a; } }
    if (!active || !cur) { if (w && active) plain_over(a, n); return; }
    if (own_stack(a)) return;
    if (is_ignored(a) || a - up(&errno) < 4 || (a - heap_lo < heap_span())) return;
    if (in_arena(a)) check_arena(a, n, pc, w);
    ++st.plain;
    if (!live_locs.empty() && loc_at.count(canon(a) & ~up(7))) scan();
    if (pol.plain_switch_pct && rs.pct(pol.plain_switch_pct)) point();
    if (!vol) race_access(a, n, w ? 1 : 0, pc);
    if (w) plain_over(a, n);
    (void)sr;
}

void register_atomic(void volatile* p, size_t n) { find_loc(canon(up(p)), u32(n)); }

// ------------------------------------------------------------------------------------------------ blocking
static int block(State s, up key, bool dl, int clk, int64_t deadline)
{
    Fiber* f = fib[cur]; f->state = s; f->key = key; f->has_deadline = dl; f->clk = clk; f->deadline = deadline; f->wake_result = -1;
    schedule(false);
    f->has_deadline = false;
    return f->wake_result;
}
void sleep_ns(int64_t ns) { if (!cur) return; block(SLEEP, 0, true, -1, vtime + (ns < 1 ? 1 : ns)); }

static up futex_key(up addr, bool priv) { return priv ? (addr << 1) : ((canon(addr) << 1) | 1); }
static int wake_n(up key, unsigned n, u32 bitset)
{
    int c[max_fibers], k = 0; for (int i = 1; i <= nfib; ++i) if (fib[i]->state == FUTEX && fib[i]->key == key && (fib[i]->bitset & bitset)) c[k++] = i;
    int w = 0; while (k && unsigned(w) < n) { int i = rs.below(k); wake(fib[c[i]], 0); ++w; ++st.futex_woken; c[i] = c[--k]; }
    return w;
}
static int64_t ts_ns(struct timespec const* t) { __int128 x = (__int128)t->tv_sec * 1000000000 + t->tv_nsec; return x > INT64_MAX ? INT64_MAX : int64_t(x); }
static long sim_futex(u32* addr, int op, u32 val, void* timeout, u32* addr2, u32 val3, void* pc)
{
    if (!active || !cur) { // main context: only wakeups make sense
        int cmd0 = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME); if (active && cmd0 == FUTEX_WAKE) return wake_n(futex_key(up(addr), op & FUTEX_PRIVATE_FLAG), val, ~0u); return 0; }
    Fiber* f = fib[cur]; ++f->futex_calls; post_call(f); scan();
    if (in_lib_static(addr)) { ++st.lib_accesses; f->lib_acc++; }
    bool priv = op & FUTEX_PRIVATE_FLAG; bool rt = op & FUTEX_CLOCK_REALTIME; int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    up key = futex_key(up(addr), priv);
    static const int stale[] = { 0, ETIMEDOUT, EINTR, EAGAIN }; errno = stale[rs.below(4)]; // as left by an earlier call: a successful call does not set it
    if (up(addr) & 3) { errno = EINVAL; return -1; }
    point();
    switch (cmd)
    {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET:
    {
        if (in_arena(up(addr))) check_arena(up(addr), 4, pc, false);
        if (cmd == FUTEX_WAIT_BITSET && (pol.old_kernel == 1 || (pol.old_kernel == 2 && rt))) { ev("futex-wait ENOSYS", up(addr), 4, val, -1, pc); ++st.nosys; errno = ENOSYS; return -1; }
        ++st.futex_waits; struct timespec* t = (struct timespec*)timeout;
        u32 bits = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u; if (!bits) { errno = EINVAL; return -1; }
        if (t && (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) { ev("futex-wait EINVAL", up(addr), 4, val, -1, pc); errno = EINVAL; return -1; }
        bool expired = t && (cmd == FUTEX_WAIT ? ts_ns(t) <= 0 : vnow(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC) >= ts_ns(t));
        if (faults_on && !fair && !expired && rs.pct(pol.eintr_pct)) { ev("futex-wait EINTR", up(addr), 4, val, -1, pc); errno = EINTR; return -1; }
        if (*(u32 volatile*)addr != val) { ev("futex-wait EAGAIN", up(addr), 4, val, -1, pc); errno = EAGAIN; return -1; }
        bool dl = t; int clk = -1; int64_t d = 0;
        if (t) { int64_t x = ts_ns(t); if (cmd == FUTEX_WAIT) { clk = -1; d = x > INT64_MAX - vtime ? INT64_MAX : vtime + x; } else { clk = rt ? CLOCK_REALTIME : CLOCK_MONOTONIC; d = x; } }
        ev(dl ? "futex-wait timed, blocks" : "futex-wait blocks", up(addr), 4, val, -1, pc); ++st.futex_blocked;
        f->bitset = bits; f->futex_addr = up(addr);
        int r = block(FUTEX, key, dl, clk, d); f->futex_addr = 0;
        ev(r == 0 ? "futex-wait woken" : r == 1 ? "futex-wait timed out" : "futex-wait spurious", up(addr), 4, 0);
        if (r == 0) return 0; if (r == 1) { errno = ETIMEDOUT; return -1; } if (rs.below(2)) return 0; errno = EINTR; return -1;
    }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET:
    { ++st.futex_wakes; int n = wake_n(key, val > 0x7fffffffu ? 0 : val, cmd == FUTEX_WAKE_BITSET ? val3 : ~0u); ev("futex-wake", up(addr), 4, n, -1, pc); return n; }
    case FUTEX_REQUEUE: case FUTEX_CMP_REQUEUE:
    {
        ++st.futex_requeues; if (cmd == FUTEX_CMP_REQUEUE && *(u32 volatile*)addr != val3) { errno = EAGAIN; return -1; }
        if (up(addr2) & 3) { errno = EINVAL; return -1; }
        int n = wake_n(key, val, ~0u); u32 lim = u32(up(timeout)); up k2 = futex_key(up(addr2), priv);
        int c[max_fibers], k = 0; for (int i = 1; i <= nfib; ++i) if (fib[i]->state == FUTEX && fib[i]->key == key) c[k++] = i;
        u32 m = 0; while (k && m < lim) { int i = rs.below(k); fib[c[i]]->key = k2; fib[c[i]]->futex_addr = up(addr2); ++m; ++st.requeued; c[i] = c[--k]; }
        ev("futex-requeue", up(addr), 4, m, -1, pc); return n + m;
    }
    default: ev("futex ENOSYS", up(addr), 4, cmd, -1, pc); errno = ENOSYS; return -1;
    }
}

// ------------------------------------------------------------------------------------------------ process wide
static uint64_t parse_u(char const* s) { return strtoull(s, nullptr, 0); }
void set_exec(u64 n) { exec_no = n; }
u64 exec_seed() { u64 h = opt.seed; for (char c : scen_name) h = mix(h * 131 + u8(c)); return mix(h + exec_no * 0x9e3779b97f4a7c15ULL); }
static volatile u64 wd_step, wd_exec; static volatile int wd_same;
static void on_signal(int sig, siginfo_t* si, void*)
{
    if (sig == SIGPROF) // CPU time, so a loaded machine does not matter
    {
        if (!active || !cur) { wd_same = 0; return; }
        if (wd_step == st.steps && wd_exec == exec_no) { if (++wd_same >= 10) fail("stuck", "an operation (%s) used 10 s of CPU time without reaching a scheduling point or returning", fib[cur]->lab); } else { wd_step = st.steps; wd_exec = exec_no; wd_same = 0; }
        return;
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; sigaction(sig, &sa, nullptr);
    fail("crash", "signal %d at address %p", sig, si->si_addr);
}
void setup(int argc, char** argv, char const* driver)
{
    driver_name = driver;
    if (!getenv("CRT_REEXEC")) { setenv("CRT_REEXEC", "1", 1); int p = personality(0xffffffff); if (p >= 0 && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*)"0"; };
        if (a == "--seed") opt.seed = parse_u(val()); else if (a == "--iters") opt.iters = parse_u(val()); else if (a == "--shard") { std::string s = val(); opt.shard = atoi(s.c_str()); opt.shards = atoi(s.c_str() + s.find('/') + 1); }
        else if (a == "--only") opt.only = val(); else if (a == "--trace") opt.trace = true; else if (a == "--exec") opt.exec = strtoll(val(), nullptr, 0); else if (a == "--prop") opt.prop = val(); else if (a == "--hashes") hashes_file = val();
        else { printf("CRT-ERROR unknown option %s\n", a.c_str()); _exit(3); }
    }
    { static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
      for (int g : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF }) sigaction(g, &sa, nullptr); struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = 1; it.it_interval.tv_usec = it.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &it, nullptr); }
    gt = (Gran*)mmap(nullptr, sizeof(Gran) * GT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena = (u8*)mmap((void*)0x200000000000ULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (__start_libbss) snap_bss.assign(__start_libbss, __stop_libbss); if (__start_libdata) snap_data.assign(__start_libdata, __stop_libdata);
    heap_lo = up(_end); setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
}
void set_scenario(char const* n) { scen_name = n; max_len_seen = 200; }
bool selected(char const* n) { if (opt.only.empty()) return true; return opt.only.back() == '*' ? !strncmp(n, opt.only.c_str(), opt.only.size() - 1) : opt.only == n; }
void count_distinct(u64 h) { if (distinct_set.size() < 400000) distinct_set.insert(h); else ++distinct_overflow; }
void add_metric(char const* n, u64 v) { metrics[n] += v; }
void sample(char const* fmt, ...) { if (samples.size() >= 6) return; char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); for (char* p = b; *p; ++p) if (*p == '"' || *p == '\\' || *p == '\n') *p = '\''; samples.push_back(b); }
void alias_range(void* a, void* b, size_t n) { aliases.push_back(Alias{ up(a), up(b), n }); }
void ignore_harness_data()
{
    extern char start[] __asm__("data_start"), end[] __asm__("_end"); std::vector<Range> h; if (__start_libbss) h.push_back(Range{ up(__start_libbss), size_t(__stop_libbss - __start_libbss) }); if (__start_libdata) h.push_back(Range{ up(__start_libdata), size_t(__stop_libdata - __start_libdata) });
    if (h.size() == 2 && h[0].a > h[1].a) std::swap(h[0], h[1]);
    up a = up(start); for (auto& r : h) { if (r.a > a) ignored.push_back(Range{ a, size_t(r.a - a) }); a = r.a + r.n; } ignored.push_back(Range{ a, size_t(up(end) - a) });
}
void ignore_range(void const* p, size_t n) { ignored.push_back(Range{ up(p), n }); }
int finish()
{
    if (!hashes_file.empty()) { std::vector<u64> v(distinct_set.begin(), distinct_set.end()); if (FILE* f = fopen(hashes_file.c_str(), "wb")) { if (!v.empty()) fwrite(v.data(), 8, v.size(), f); fclose(f); } }
    printf("CRT-STATS {\"driver\":\"%s\"", driver_name.c_str());
#define F(x) printf(",\"" #x "\":%llu", (unsigned long long)st.x)
    F(execs); F(steps); F(switches); F(atomics); F(stale_reads); F(plain); F(futex_waits); F(futex_blocked); F(futex_wakes); F(futex_woken); F(futex_requeues); F(requeued); F(timeouts); F(spurious); F(weakfails); F(time_jumps);
    F(asm_changes); F(quiescent); F(allocs); F(alloc_fail); F(clock_reads); F(sleeps); F(mutex_blocked); F(limit_hits); F(fences); F(lib_accesses); F(nosys);
#undef F
    printf(",\"distinct\":%llu", (unsigned long long)distinct_set.size());
    for (auto& m : metrics) printf(",\"m_%s\":%llu", m.first.c_str(), (unsigned long long)m.second);
    printf(",\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", samples[i].c_str()); printf("]}\n");
    fflush(stdout); return 0;
}

// ------------------------------------------------------------------------------------------------ simulated pthread mutex / condvar
struct Mtx { int owner; }; struct Cnd { int clk; }; static std::map<up, Mtx> mtxs; static std::map<up, Cnd> cnds;
} // namespace crt

using namespace crt;
#define PC __builtin_return_address(0)

extern "C" {
// ---- clocks, sleeping, futex
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (!active || !cur) { if (active) { int64_t n = vnow(c); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; } return raw_syscall(SYS_clock_gettime, c, (long)t) ? -1 : 0; }
    ++st.clock_reads; ++fib[cur]->clock_calls; point(); post_call(fib[cur]); vtime += 20;
    int64_t n = vnow(c); int64_t s = n / 1000000000, ns = n % 1000000000; if (ns < 0) { ns += 1000000000; --s; } t->tv_sec = s; t->tv_nsec = ns; ev("clock", 0, 0, n); return 0;
}
int nanosleep(struct timespec const* a, struct timespec*)
{
    if (!active || !cur) return (int)raw_syscall(SYS_nanosleep, (long)a, 0);
    ++st.sleeps; ++fib[cur]->futex_calls; post_call(fib[cur]); scan(); ev("nanosleep", 0, 0, a->tv_nsec); int64_t n = ts_ns(a); if (n < 1) n = 1; block(SLEEP, 0, true, -1, vtime + n); return 0;
}
int clock_nanosleep(clockid_t, int, struct timespec const* a, struct timespec*) { if (!active || !cur) return 0; ++st.sleeps; ++fib[cur]->futex_calls; block(SLEEP, 0, true, -1, vtime + ts_ns(a)); return 0; }
int usleep(useconds_t u) { if (active && cur) { ++st.sleeps; ++fib[cur]->futex_calls; block(SLEEP, 0, true, -1, vtime + u * 1000LL); } return 0; }
int sched_yield() noexcept { if (active && cur) point(); return 0; }
long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex) return sim_futex((u32*)a, (int)b, (u32)c, (void*)d, (u32*)e, (u32)f, PC);
    long r = raw_syscall(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = int(-r); return -1; } return r;
}

// ---- allocation by the library (calls made by fibers) via link-time wrapping
void* crt_malloc(size_t n) { if (active && cur) return lib_alloc(16, n); return ::malloc(n); }
void* crt_calloc(size_t a, size_t b) { if (active && cur) { void* p = lib_alloc(16, a * b); if (p) memset(p, 0, a * b); return p; } return ::calloc(a, b); }
int crt_posix_memalign(void** p, size_t al, size_t n) { if (active && cur) { void* q = lib_alloc(al, n); if (!q) return ENOMEM; *p = q; return 0; } return ::posix_memalign(p, al, n); }
void* crt_aligned_alloc(size_t al, size_t n) { if (active && cur) return lib_alloc(al, n); return ::aligned_alloc(al, n); }
void crt_free(void* p) { if (!p) return; if (in_arena(up(p))) { lib_free(p, PC); return; } ::free(p); }
int crt_atexit(void (*f)()) { if (active && cur) { exit_fns.push_back(f); return 0; } return ::atexit(f); }

// ---- pthread primitives (pthread backend only; linked with --wrap)
// guards of function-local statics: byte 0 is set when initialised, byte 1 while an initialisation is in progress
int crt_guard_acquire(u8* g)
{
    for (;;) { if (a_rmw<u8>(g, [](u8 x) { return x; }, 2, __builtin_return_address(0))) return 0; if (!g[1]) { g[1] = 1; return 1; } if (!cur) { fprintf(stderr, "recursive static initialisation\n"); abort(); } yield(); }
}
void crt_guard_release(u8* g) { a_store<u8>(g, 1, 3, __builtin_return_address(0)); g[1] = 0; }
void crt_guard_abort(u8* g) { g[1] = 0; }
int crt_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active || !cur) return 0; if (in_lib_static(m)) { fib[cur]->lib_acc++; if (!fib[cur]->first_lib) fib[cur]->first_lib = up(m); } scan(); point();
    while (mtxs[up(m)].owner) { if (mtxs[up(m)].owner == cur) fail("deadlock", "mutex locked recursively"); ++st.mutex_blocked; block(MUTEX, up(m), false, 0, 0); }
    mtxs[up(m)].owner = cur; Loc* l = find_loc(up(m), 8); u8 b[16] = {}; (void)b; fib[cur]->v.join(l->h.back().rel); ev("mutex-lock", up(m)); return 0;
}
int crt_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!active || !cur) return 0; if (in_lib_static(m)) { fib[cur]->lib_acc++; if (!fib[cur]->first_lib) fib[cur]->first_lib = up(m); } scan(); point(); if (mtxs[up(m)].owner) return EBUSY;
    mtxs[up(m)].owner = cur; Loc* l = find_loc(up(m), 8); fib[cur]->v.join(l->h.back().rel); ev("mutex-trylock", up(m)); return 0;
}
static void mtx_release(pthread_mutex_t* m)
{
    if (mtxs[up(m)].owner != cur) fail("bad-unlock", "mutex unlocked by a thread that does not own it");
    mtxs[up(m)].owner = 0; Loc* l = find_loc(up(m), 8); l->h.back().rel.join(fib[cur]->v); if (fib[cur]->v.vc.size() <= size_t(cur)) fib[cur]->v.vc.resize(cur + 1, 0); fib[cur]->v.vc[cur]++;
    for (int i = 1; i <= nfib; ++i) if (fib[i]->state == MUTEX && fib[i]->key == up(m)) wake(fib[i], 0);
}
int crt_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active || !cur) return 0; scan(); ev("mutex-unlock", up(m)); mtx_release(m); point(); return 0; }
int crt_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { mtxs[up(m)].owner = 0; return 0; }
int crt_pthread_mutex_destroy(pthread_mutex_t* m) { if (mtxs[up(m)].owner) fail("bad-destroy", "mutex destroyed while locked"); mtxs.erase(up(m)); return 0; }
static std::map<up, int> attr_clk;
int crt_pthread_condattr_init(pthread_condattr_t* a) { attr_clk[up(a)] = CLOCK_REALTIME; return 0; }
int crt_pthread_condattr_destroy(pthread_condattr_t* a) { attr_clk.erase(up(a)); return 0; }
int crt_pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { attr_clk[up(a)] = c; return 0; }
int crt_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { cnds[up(c)].clk = a ? attr_clk[up(a)] : CLOCK_REALTIME; return 0; }
int crt_pthread_cond_destroy(pthread_cond_t* c) { for (int i = 1; i <= nfib; ++i) if (fib[i]->state == COND && fib[i]->key == up(c)) fail("bad-destroy", "condition variable destroyed with waiters"); cnds.erase(up(c)); return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool dl, int clk, struct timespec const* t)
{
    if (!active || !cur) return 0; scan(); ++st.futex_waits; fib[cur]->futex_calls++; post_call(fib[cur]);
    if (dl && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) return EINVAL;
    point(); ev("cond-wait", up(c)); mtx_release(m); ++st.futex_blocked;
    int r = block(COND, up(c), dl, clk, dl ? ts_ns(t) : 0);
    while (mtxs[up(m)].owner) { ++st.mutex_blocked; block(MUTEX, up(m), false, 0, 0); }
    mtxs[up(m)].owner = cur; Loc* l = find_loc(up(m), 8); fib[cur]->v.join(l->h.back().rel);
    return r == 1 ? ETIMEDOUT : 0;
}
static int cclk(pthread_cond_t* c) { auto it = cnds.find(up(c)); return it == cnds.end() ? CLOCK_REALTIME : it->second.clk; }
int crt_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0, nullptr); }
int crt_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t) { return cond_wait(c, m, true, cclk(c), t); }
int crt_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, struct timespec const* t) { return cond_wait(c, m, true, k, t); }
static int cond_sig(pthread_cond_t* c, bool all)
{
    if (!active || !cur) return 0; scan(); point(); ++st.futex_wakes; int x[max_fibers], k = 0; for (int i = 1; i <= nfib; ++i) if (fib[i]->state == COND && fib[i]->key == up(c)) x[k++] = i;
    ev(all ? "cond-broadcast" : "cond-signal", up(c), 0, k);
    if (all) for (int i = 0; i < k; ++i) wake(fib[x[i]], 0); else if (k) wake(fib[x[rs.below(k)]], 0); return 0;
}
int crt_pthread_cond_signal(pthread_cond_t* c) { return cond_sig(c, false); }
int crt_pthread_cond_broadcast(pthread_cond_t* c) { return cond_sig(c, true); }

// ---- tsan runtime interface
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define RW(N) \
void __tsan_read##N(void* p) { plain(up(p), N, false, PC); } void __tsan_write##N(void* p) { plain(up(p), N, true, PC); } \
void __tsan_unaligned_read##N(void* p) { plain(up(p), N, false, PC); } void __tsan_unaligned_write##N(void* p) { plain(up(p), N, true, PC); } \
void __tsan_read_write##N(void* p) { plain(up(p), N, true, PC); } void __tsan_unaligned_read_write##N(void* p) { plain(up(p), N, true, PC); } \
void __tsan_volatile_read##N(void* p) { plain(up(p), N, false, PC, true); } void __tsan_volatile_write##N(void* p) { plain(up(p), N, true, PC, true); } \
void __tsan_unaligned_volatile_read##N(void* p) { plain(up(p), N, false, PC, true); } void __tsan_unaligned_volatile_write##N(void* p) { plain(up(p), N, true, PC, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { plain(up(p), n, false, PC); } void __tsan_write_range(void* p, unsigned long n) { plain(up(p), n, true, PC); }
void* __tsan_memcpy(void* d, void const* s, size_t n) { if (n) { plain(up(s), n, false, PC); plain(up(d), n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, size_t n) { if (n) { plain(up(s), n, false, PC); plain(up(d), n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) plain(up(d), n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo)
{
    if (!active || !cur) return; scan(); ++st.fences; point(); Fiber* f = fib[cur]; ev("fence", 0, 0, 0, mo);
    if (acq(mo)) { f->v.join(f->acqp); if (pol.asm_reads) for (auto* l : live_locs) { clean(l); f->v.join(l->h.back().rel); } }
    if (mo == 5) sc_fence(f->v);
    if (rel(mo)) { f->relf = f->v; tick(f->v); }
}
void __tsan_atomic_signal_fence(int) {}
// annotations around inline assembly operations
void __tsan_acquire(void* p) { if (!active || !cur || own_stack(up(p)) || is_ignored(up(p))) return; scan(); up a = canon(up(p)); auto it = loc_at.find(a & ~up(7)); if (it == loc_at.end()) return; Loc* l = it->second; clean(l); fib[cur]->v.join(l->h.back().rel); sc_fence(fib[cur]->v); ev("annot-acquire", a); }
void __tsan_release(void* p) { if (!active || !cur || own_stack(up(p)) || is_ignored(up(p))) return; scan(); point(); up a = canon(up(p)); if (loc_at.find(a & ~up(7)) == loc_at.end()) new_loc(a, 1, View()); Fiber* f = fib[cur]; f->has_pend = true; f->pend_loc = a; f->pend_rel = f->v; sc_fence(f->v); ev("annot-release", a); }
#define AT(N, T) \
T __tsan_atomic##N##_load(T const volatile* p, int mo) { return a_load<T>((void volatile*)p, mo, PC); } \
void __tsan_atomic##N##_store(T volatile* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
T __tsan_atomic##N##_exchange(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T) { return v; }, mo, PC); } \
T __tsan_atomic##N##_fetch_add(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o + v); }, mo, PC); } \
T __tsan_atomic##N##_fetch_sub(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o - v); }, mo, PC); } \
T __tsan_atomic##N##_fetch_and(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o & v); }, mo, PC); } \
T __tsan_atomic##N##_fetch_or(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o | v); }, mo, PC); } \
T __tsan_atomic##N##_fetch_xor(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o ^ v); }, mo, PC); } \
T __tsan_atomic##N##_fetch_nand(T volatile* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(~(o & v)); }, mo, PC); } \
bool __tsan_atomic##N##_compare_exchange_strong(T volatile* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, false, PC); } \
bool __tsan_atomic##N##_compare_exchange_weak(T volatile* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, true, PC); } \
T __tsan_atomic##N##_compare_exchange_val(T volatile* p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, false, PC); return e; }
typedef unsigned __int128 u128;
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
#pragma GCC diagnostic ignored "-Wpedantic"
AT(128, u128)
} // extern "C"

// ---- operator new/delete of the instrumented objects (redirected with objcopy --redefine-sym): calls made by fibers are the library's
extern "C" {
void* crt_new(size_t n) { if (active && cur) { void* p = lib_alloc(16, n); if (!p) throw std::bad_alloc(); return p; } void* p = ::malloc(n ? n : 1); if (!p) abort(); return p; }
void* crt_new_nt(size_t n, std::nothrow_t const&) { if (active && cur) return lib_alloc(16, n); return ::malloc(n ? n : 1); }
void* crt_new_al(size_t n, size_t a) { if (active && cur) { void* p = lib_alloc(a, n); if (!p) throw std::bad_alloc(); return p; } void* p = nullptr; if (::posix_memalign(&p, a < 8 ? 8 : a, n)) abort(); return p; }
void* crt_new_al_nt(size_t n, size_t a, std::nothrow_t const&) { if (active && cur) return lib_alloc(a, n); void* p = nullptr; return ::posix_memalign(&p, a < 8 ? 8 : a, n) ? nullptr : p; }
void crt_del(void* p) { crt_free(p); }
// memory functions called by instrumented code (gcc does not instrument these calls)
void* crt_memcpy(void* d, void const* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* crt_memmove(void* d, void const* s, size_t n) { return __tsan_memmove(d, s, n); }
void* crt_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
int crt_memcmp(void const* a, void const* b, size_t n) { if (n) { plain(up(a), n, false, PC); plain(up(b), n, false, PC); } return memcmp(a, b, n); }
}

// further names the redirections use
extern "C" {
void* crt_new_x1(size_t n) { return crt_new(n); }
void* crt_new_nt_x1(size_t n, std::nothrow_t const& t) { return crt_new_nt(n, t); }
void crt_del_x1(void* p) { crt_free(p); }
void crt_del_x2(void* p) { crt_free(p); }
void crt_del_x3(void* p) { crt_free(p); }
void crt_del_x4(void* p) { crt_free(p); }
void crt_del_x5(void* p) { crt_free(p); }
void crt_del_x6(void* p) { crt_free(p); }
void crt_del_x7(void* p) { crt_free(p); }
}
