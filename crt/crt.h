// Controlled runtime ("crt"): replaces the ThreadSanitizer runtime, the futex system call, clocks, sleeping,
// allocation and (for the pthread backend) mutexes/condition variables under the real Boost.Atomic code, so that
// every atomic operation, futex call and (optionally) plain access is a scheduling point of a seeded scheduler,
// loads may return any value the C++ memory model allows (view based, modification order = execution order, no load
// buffering), plain accesses are race checked with vector clocks, and time is virtual. Everything runs on one OS
// thread as fibers; an execution is a function of (driver, seed, scenario, execution number).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <new>

namespace crt {

constexpr int max_fibers = 64;

struct policy
{
    unsigned stale_pct = 0;        // chance (percent) that a load considers an older permitted value
    unsigned weakfail_pct = 0;     // spurious failure of compare_exchange_weak
    unsigned spurious_permille = 0;// spurious wakeup / EINTR of some blocked futex or condition wait, per scheduling point
    unsigned eintr_pct = 0;        // a wait call returns EINTR immediately without sleeping
    unsigned old_kernel = 0;       // 1: FUTEX_WAIT_BITSET is not implemented (ENOSYS), 2: only not with FUTEX_CLOCK_REALTIME
    unsigned plain_switch_pct = 0; // scheduling points at plain accesses to non-stack memory
    unsigned timejump_permille = 0;// random forward jump of virtual time at a scheduling point
    int64_t timejump_max = 1000000;
    unsigned step_ns = 10;         // virtual time per scheduling point
    bool asm_scan = true;          // look for changes made by inline assembly
    bool asm_reads = false;        // relaxed inline assembly operations may have read any registered object without being seen: acquire fences assume so
    bool race_check = true;
    unsigned step_limit = 20000;   // after this many steps scheduling turns fair and faults stop
    unsigned fair_steps = 60000;   // and the execution must end within this many further steps
    int sched = -1;                // -1: chosen at random per execution
};

struct stats
{
    uint64_t execs = 0, steps = 0, switches = 0, atomics = 0, stale_reads = 0, plain = 0, futex_waits = 0, futex_blocked = 0,
        futex_wakes = 0, futex_woken = 0, futex_requeues = 0, requeued = 0, timeouts = 0, spurious = 0, weakfails = 0, time_jumps = 0,
        asm_changes = 0, quiescent = 0, allocs = 0, alloc_fail = 0, clock_reads = 0, sleeps = 0, mutex_blocked = 0, limit_hits = 0,
        fences = 0, lib_accesses = 0, nosys = 0;
};
extern stats st;

// ---- one execution
void begin(policy const& p, uint64_t seed);
int spawn(void (*fn)(void*), void* arg, char const* name = "");
// Runs until every fiber finished. on_quiescent (if set) is called when nothing can run and no timeout is pending;
// it may spawn fibers / change state and return true to continue; otherwise a deadlock is reported.
void run(bool (*on_quiescent)() = nullptr);
bool finished(int fiber);
bool blocked(int fiber);           // blocked in a futex/condvar/mutex wait
int self();
uint64_t schedule_hash();          // hash of the scheduling decisions of the current/last execution
std::string deadlock_state();

// ---- inside fibers (or between begin and run)
uint32_t rnd(uint32_t n);          // per-execution random numbers (deterministic)
void yield();                      // scheduling point
void sleep_ns(int64_t ns);         // virtual sleep
uint64_t stamp();                  // strictly increasing event number
void label(char const* text);      // what this fiber is doing (for reports)
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2))); // trace line
[[noreturn]] void fail(char const* kind, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
uint64_t futex_calls();            // futex/condvar/sleep calls made by the current fiber so far
uint64_t clock_calls();            // clock readings by the current fiber so far
void watch_deadline(int clock_id, int64_t t); // count the current fiber's clock readings, futex calls and sleeps made once the clock has reached t (-1: stop)
uint64_t post_deadline_calls();
void reset_first_lib(); void const* first_lib(); // first library static object the current fiber touched
uint64_t lib_accesses();           // accesses to the library's static data by the current fiber so far
bool in_fair_phase();
void hb_acquire_all();             // harness-level join: the current fiber synchronizes with everything so far
void set_faults(bool on);          // switch off staleness, spurious wakeups... for the rest of the execution

// ---- time
int64_t vnow(int clock_id);        // nanoseconds, virtual (does not count as a clock reading)
void set_clock_offset(int clock_id, int64_t ns);
void advance(int64_t ns);
void advance_offset(int clock_id, int64_t ns);

// ---- memory
void fail_allocs(uint64_t mask);   // bit i: fail the i-th next library allocation
void fail_allocs_pct(unsigned pct);
int64_t lib_live_bytes();
int64_t lib_live_blocks();
int64_t lib_max_live_bytes();
bool in_lib_static(void const* p);
typedef void (*exit_fn)();
std::vector<exit_fn>& lib_atexit();           // functions the library registered with atexit in this execution
void alias_range(void* a, void* b, size_t n); // b is a second mapping of a
void register_atomic(void volatile* p, size_t n); // make an atomic object known before inline assembly touches it
void ignore_harness_data(); // every global that is not the library's
void ignore_range(void const* p, size_t n);   // no race checking / locations here (recorders); until end of process

// ---- process wide
struct options { uint64_t seed = 1; uint64_t iters = 1000; unsigned shard = 0, shards = 1; std::string only; bool trace = false; int64_t exec = -1; std::string prop; };
extern options opt;
void setup(int argc, char** argv, char const* driver); // re-exec without ASLR, parse common options
void set_scenario(char const* name);
bool selected(char const* name);
void count_distinct(uint64_t h);   // distinct schedules/outcomes
void add_metric(char const* name, uint64_t v);
void sample(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
int finish();                      // prints the statistics as one JSON line, returns the exit code

// Runs body(exec_number) for the executions of this shard of a scenario: sets names, seeds.
template<class F> void scenario(char const* name, uint64_t iters, F&& body)
{
    if (!selected(name)) return;
    set_scenario(name);
    extern void set_exec(uint64_t);
    for (uint64_t i = opt.shard; i < iters; i += opt.shards)
    {
        if (opt.exec >= 0 && uint64_t(opt.exec) != i) continue;
        set_exec(i);
        body(i);
    }
}
uint64_t exec_seed(); // seed of the current execution (from opt.seed, scenario name, execution number)

inline uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
} // namespace crt
