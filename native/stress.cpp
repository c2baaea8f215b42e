// Really concurrent executions on the real processor: bursts of operations checked for serializability, store buffering
// with seq_cst operations and fences, token rings of waiting threads, timed waits on the real clocks, several processes.
#include "../common/any.hpp"
#include "../common/drv.hpp"
#include <memory>
#include <atomic>
#include <mutex>
#include <thread>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#ifndef GROUP
#define GROUP 0
#endif
#ifndef NO_IPC
#define IPC(X) X
#else
#define IPC(X)
#endif
using namespace ops; using drv::fail;
static thread_local uint64_t trs = 1;
static uint32_t R(uint32_t n) { return n ? uint32_t(drv::next(trs) % n) : 0; }
static int64_t rd(int id) { timespec t; clock_gettime(id >= 100 ? CLOCK_MONOTONIC : id, &t); return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec; }
#include "../common/wobj.hpp"

// ------------------------------------------------------------------ worker threads
static inline void cpu_relax() { __builtin_ia32_pause(); }
static const int MAXT = 4;
struct alignas(64) Line { std::atomic<uint32_t> v; };
static Line go_epoch, done_cnt; static std::atomic<bool> quit; static int team; static void (*job)(int);
static uint32_t jitter[MAXT]; static std::atomic<uint64_t> start_tsc; // everybody starts at the same reading of the time stamp counter, plus jitter
static inline void start_at(int me) { uint64_t t = start_tsc.load(std::memory_order_relaxed) + jitter[me]; while (__builtin_ia32_rdtsc() < t) {} }
static void spin_until(std::atomic<uint32_t>& a, uint32_t want) { for (unsigned k = 0; a.load(std::memory_order_acquire) != want; ++k) { if (k < 4000) cpu_relax(); else sched_yield(); } }
static void worker(int me) { for (uint32_t e = 1;; ++e) { spin_until(go_epoch.v, e); if (quit.load()) return; if (me < team) { start_at(me); job(me); } done_cnt.v.fetch_add(1, std::memory_order_release); } }
static std::vector<std::thread> workers; static uint32_t epoch = 0;
static void start_workers() { if (workers.empty()) for (int i = 1; i < MAXT; ++i) workers.emplace_back(worker, i); }
static void stop_workers() { if (workers.empty()) return; quit = true; go_epoch.v.store(++epoch); for (auto& t : workers) t.join(); workers.clear(); quit = false; epoch = 0; go_epoch.v = 0; }
static void together(int n, void (*f)(int))
{
    team = n; job = f; done_cnt.v.store(0, std::memory_order_relaxed); start_tsc.store(__builtin_ia32_rdtsc() + 1200, std::memory_order_relaxed); go_epoch.v.store(++epoch, std::memory_order_release);
    start_at(0); f(0); spin_until(done_cnt.v, MAXT - 1);
}

// ------------------------------------------------------------------ operations
static std::vector<AnyBase*> aobjs, cand;
template<class Acc> static void rega(char const* tn) { for (int i = 0; i < 2; ++i) aobjs.push_back(new (aligned_alloc(64, (sizeof(Any<Acc>) + 63) & ~size_t(63))) Any<Acc>(tn)); }
static void register_ops()
{
#if GROUP == 1
    rega<AccAtomic<uint8_t> >("uint8"); rega<AccRef<int16_t> >("int16"); rega<AccAtomic<int32_t> >("int32"); rega<AccFlag>("flag"); rega<AccRef<uint64_t> >("uint64"); rega<AccAtomic<Bytes<5> > >("bytes5");
#endif
#if GROUP == 2
    IPC(rega<AccIpc<uint32_t> >("uint32");) rega<AccAtomic<double> >("double"); rega<AccAtomic<int*> >("int*"); rega<AccAtomic<E32> >("enum32"); IPC(rega<AccIpcRef<uint16_t> >("uint16");) rega<AccAtomic<int64_t> >("int64"); rega<AccRef<int8_t> >("int8");
#endif
#if GROUP == 3
    rega<AccAtomic<i128> >("int128"); rega<AccAtomic<Bytes<3> > >("bytes3"); rega<AccRef<Bytes<3> > >("bytes3"); rega<AccAtomic<Bytes<24> > >("bytes24"); rega<AccAtomic<bool> >("bool"); rega<AccRef<float> >("float");
#endif
#if GROUP == 4
    IPC(rega<AccIpc<uint64_t> >("uint64");) rega<AccAtomic<Words<5> > >("words5"); rega<AccRef<u128> >("uint128"); rega<AccAtomic<long double> >("longdouble"); rega<AccRef<Words<2> > >("words2"); rega<AccAtomic<S12*> >("s12*"); rega<AccAtomic<E8> >("enum8");
#endif
}
static AnyBase* X; static AnyBase* Y; static int per[MAXT], thr[AnyBase::NS], nthr, nops;
static bool any_op(Info const&) { return true; }
static bool mod_op(Info const& i) { return (i.cls & C_MOD) != 0; }
static void lin_thread(int me) { int s = 0; for (int i = 0; i < me; ++i) s += per[i]; for (int i = 0; i < per[me]; ++i) X->run(s + i); }
static void lin(uint64_t n)
{
    start_workers(); X = cand[n % cand.size()]; X->reset(R); nthr = 2 + int(R(3)); nops = 0; for (int t = 0; t < nthr; ++t) { per[t] = 1 + int(R(nthr == 2 ? 4 : nthr == 3 ? 3 : 2)); for (int i = 0; i < per[t]; ++i) thr[nops++] = t; }
    for (int s = 0; s < nops; ++s) X->choose(s, R(4) ? mod_op : any_op, R);
    std::set<uint64_t> seen; unsigned reps = 150;
    for (unsigned r = 0; r < reps; ++r)
    {
        X->restore(); for (int t = 0; t < nthr; ++t) jitter[t] = R(3) ? R(200) : 0; together(nthr, lin_thread);
        uint64_t h = X->outcome_hash(nops); { std::string f = X->final_text(); for (char c : f) h = (h ^ (unsigned char)c) * 1099511628211ull; }
        if (!seen.insert(h).second) continue; drv::distinct(drv::mix(h + n % cand.size()));
        if (!X->serializable(nops, thr, true))
        {
            std::string s = X->name() + " init=" + X->init_text() + " final=" + X->final_text(); for (int i = 0; i < nops; ++i) s += " | T" + std::to_string(thr[i]) + " " + X->slot_text(i) + " -> " + X->slot_result(i);
            fail("not-linearizable", "no order of the operations explains the results: %s", s.c_str());
        }
    }
    drv::metric("bursts", reps); drv::metric("operations", uint64_t(reps) * nops); drv::metric("distinct_outcomes", seen.size()); if (seen.size() > 1) drv::metric("setups_with_several_outcomes", 1);
    if (n < 3) drv::sample("%s: %d threads, %d operations, %zu outcomes in %u bursts", X->name().c_str(), nthr, nops, seen.size(), reps);
}
static bool sc_mod(Info const& i) { return (i.cls & C_MOD) && i.seq_cst() && !(i.cls & C_WEAK); }
static bool sc_res(Info const& i) { return (i.cls & C_RES) && i.seq_cst(); }
static bool f_mod(Info const& i) { return (i.cls & C_MOD) && !(i.cls & C_WEAK); }
static bool f_store(Info const& i) { return (i.cls & C_STORE) && !i.seq_cst(); }
static bool f_load(Info const& i) { return (i.cls & C_LOAD) != 0; }
static bool s_load(Info const& i) { return (i.cls & C_LOAD) && i.seq_cst(); }
static bool s_store(Info const& i) { return (i.cls & C_STORE) && i.seq_cst(); }
static bool fenced; static const int s0[] = { 0 };
static void sb_thread(int me) { AnyBase* w = me ? Y : X; AnyBase* r = me ? X : Y; w->run(0); if (fenced) boost::atomic_thread_fence(boost::memory_order_seq_cst); r->run(1); }
static bool missed(AnyBase* x) { return x->explains(1, nullptr, 0) && !x->explains(1, s0, 1); }
static void sb(uint64_t n)
{
    start_workers(); X = cand[n % cand.size()]; do Y = cand[R(unsigned(cand.size()))]; while (Y == X);
    bool plain = R(2) != 0; // stores and loads only: what the hardware reorders
    for (AnyBase* x : { X, Y })
        for (int tries = 0;; ++tries)
        {
            x->reset(R); bool ok = x->choose(0, fenced ? (plain ? f_store : f_mod) : (plain ? s_store : sc_mod), R) && x->choose(1, fenced ? f_load : plain ? s_load : sc_res, R);
            if (ok && x->distinguishes(1, s0, 1, nullptr, 0)) break; if (tries > 400) { drv::metric("skipped", 1); return; }
        }
    unsigned reps = 400, one = 0, none = 0;
    for (unsigned r = 0; r < reps; ++r)
    {
        X->restore(); Y->restore(); for (int t = 0; t < 2; ++t) jitter[t] = R(2) ? R(120) : 0; together(2, sb_thread);
        if ((X->slot_info(0).cls & C_CAS && !X->slot_flag(0)) || (Y->slot_info(0).cls & C_CAS && !Y->slot_flag(0))) continue;
        bool mx = missed(X), my = missed(Y); if (mx || my) ++one; else ++none;
        if (mx && my) fail("store-buffering", "both threads missed the other's %s: X=%s: %s, read by %s -> %s; Y=%s: %s, read by %s -> %s", fenced ? "store before a seq_cst fence" : "seq_cst modification", X->name().c_str(), X->slot_text(0).c_str(), X->slot_text(1).c_str(), X->slot_result(1).c_str(),
            Y->name().c_str(), Y->slot_text(0).c_str(), Y->slot_text(1).c_str(), Y->slot_result(1).c_str());
    }
    drv::metric("bursts", reps); drv::metric("one_missed", one); drv::metric("none_missed", none); drv::distinct(drv::mix(n % cand.size() * 131 + (Y - (AnyBase*)nullptr) + X->outcome_hash(2) * 7));
    if (n < 3) drv::sample("%s %s / %s %s: %u times one thread missed the other, %u times none", X->name().c_str(), X->slot_info(0).name, Y->name().c_str(), Y->slot_info(0).name, one, none);
}

// ------------------------------------------------------------------ waiting: token rings
// nv threads pass a token round an object's values; whoever holds it updates plain data. Every object has its ring.
static std::vector<WBase*> wobjs; static char* space; static size_t space_used = 0;
template<class Acc> static void regw(char const* tn, int cnt)
{
    size_t al = alignof(Acc) < 16 ? 16 : alignof(Acc);
    for (int i = 0; i < cnt; ++i) { space_used = (space_used + al - 1) & ~(al - 1); WBase* o = new WObj<Acc>(tn, space + space_used); o->init(0); space_used += sizeof(Acc) + 16 * (1 + i % 5); wobjs.push_back(o); }
}
static void register_waits(int cnt)
{
    static bool done; if (done) return; done = true;
    space = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    regw<AccAtomic<int32_t> >("int32", cnt); regw<AccAtomic<Bytes<3> > >("bytes3", cnt); regw<AccAtomic<Words<5> > >("words5", cnt); regw<AccAtomic<uint64_t> >("uint64", cnt); regw<AccFlag>("flag", cnt); regw<AccRef<Bytes<24> > >("bytes24", cnt);
    regw<AccAtomic<i128> >("int128", cnt); regw<AccAtomic<uint8_t> >("uint8", cnt); regw<AccAtomic<double> >("double", cnt); regw<AccRef<Bytes<3> > >("bytes3", cnt); IPC(regw<AccIpc<int64_t> >("int64", cnt); regw<AccIpc<uint32_t> >("uint32", cnt);)
#if defined(__GNUC__) && !defined(__clang__)
    regw<AccAtomic<Pad5> >("pad5", cnt);
#endif
}
struct Ring { WBase* o; long plain; long rounds; int nv; };
static std::atomic<uint64_t> progress; static std::atomic<int> live; static std::atomic<uint64_t> n_waits, n_timeouts;
static const char* volatile hang_what = "";
static int64_t deadline(int m, int64_t d) { if (m == M_FOR) return d; if (m == M_FORMS) return d / 1000000; int64_t t = rd(clk_of(m)) + d; return m == M_COARSE ? t / 1000000 : m == M_SYSSEC ? t / 1000000000 : t; }
// one wait of the ring protocol: the value was k; returns the index seen
static int ring_wait(WBase* o, int k, bool timed)
{
    static const int ms[] = { M_STEADY, M_SYSTEM, M_PLAIN, M_MONO, M_BOOT, M_FOR, M_COARSE, M_FORMS, M_SYSSEC };
    int m = timed && R(3) == 0 ? ms[R(9)] : M_WAIT; int order = 2 + int(R(2)); int64_t d = R(4) ? R(200000) : R(20) * 1000000; n_waits.fetch_add(1, std::memory_order_relaxed);
    if (m == M_WAIT) { Res r = o->wait(k, m, 0, order); if (r.idx == k || r.idx < 0) fail("wait-result", "%s: wait(value %d) returned value %d", o->name().c_str(), k, r.idx); return r.idx; }
    int64_t b = rd(clk_of(m)), dl = deadline(m, d); Res r = o->wait(k, m, dl, order); int64_t e = rd(clk_of(m));
    if (r.timeout)
    {
        n_timeouts.fetch_add(1, std::memory_order_relaxed); if (r.idx != k) fail("wait-result", "%s: %s of value %d reported a timeout with value %d", o->name().c_str(), mname[m], k, r.idx);
        int64_t end = m == M_FOR || m == M_FORMS ? b + dl * (m == M_FORMS ? 1000000 : 1) : m == M_COARSE ? dl * 1000000 : m == M_SYSSEC ? dl * 1000000000 : dl;
        if (clk_of(m) != CLOCK_REALTIME && e < end) fail("early-timeout", "%s: %s reported a timeout %lld ns before its deadline", o->name().c_str(), mname[m], (long long)(end - e));
    }
    else if (r.idx == k || r.idx < 0) fail("wait-result", "%s: %s of value %d returned value %d without a timeout", o->name().c_str(), mname[m], k, r.idx);
    return r.idx;
}
static void ring_thread(Ring* g, int me, bool timed, uint64_t seed)
{
    trs = seed; WBase* o = g->o;
    for (long r = 0; r < g->rounds; ++r)
    {
        int k = o->load(2); while (k != me) k = ring_wait(o, k, timed);
        ++g->plain; int next = (me + 1) % g->nv; o->set(next, int(R(3)), 1 + int(R(2))); if (g->nv == 2 && R(2)) o->notify_one(); else o->notify_all();
        progress.fetch_add(1, std::memory_order_relaxed);
    }
    live.fetch_sub(1);
}
static bool watch_progress(uint64_t limit_s)
{
    uint64_t last = progress.load(); int64_t since = rd(CLOCK_MONOTONIC), cpu0 = 0;
    while (live.load() > 0)
    {
        usleep(500); uint64_t p = progress.load(); int64_t now = rd(CLOCK_MONOTONIC); if (p != last) { last = p; since = now; timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); cpu0 = t.tv_sec; }
        else if (now - since > int64_t(limit_s) * 1000000000) { (void)cpu0; return false; }
    }
    return true;
}
#ifndef HANG_S
#define HANG_S 40
#endif
static void storm(uint64_t n, bool timed)
{
    register_waits(3); stop_workers(); int rings = 1 + int(R(5)); std::vector<Ring> g; std::vector<WBase*> pool = wobjs;
    for (int i = 0; i < rings; ++i) { size_t k = i == 0 ? size_t(n) % pool.size() : R(unsigned(pool.size())); Ring r; r.o = pool[k]; pool.erase(pool.begin() + long(k)); r.plain = 0; r.nv = r.o->nv; r.rounds = 20 + R(200); r.o->init(R(2)); r.o->reset(0); g.push_back(r); }
    live = 0; for (auto& r : g) live += r.nv; progress = 0; std::vector<std::thread> th; for (auto& r : g) for (int i = 0; i < r.nv; ++i) th.emplace_back(ring_thread, &r, i, timed, drv::rnd64());
    if (!watch_progress(HANG_S)) { std::string s; for (auto& r : g) s += " " + r.o->name() + " at " + std::to_string(r.plain) + " of " + std::to_string(r.rounds * r.nv); fail("lost-wakeup", "nothing happened for %d s: %d threads wait for values that were set and notified:%s", HANG_S, live.load(), s.c_str()); }
    for (auto& t : th) t.join();
    for (auto& r : g) if (r.plain != r.rounds * r.nv) fail("lost-update", "%s: %ld plain updates under the token, expected %ld", r.o->name().c_str(), r.plain, r.rounds * r.nv);
    for (auto& r : g) if (r.o->get() != 0) fail("wrong-value", "%s: final value is number %d", r.o->name().c_str(), r.o->get());
    drv::metric("rings", g.size()); drv::metric("passes", progress.load()); drv::metric("waits", n_waits.exchange(0)); drv::metric("timeouts", n_timeouts.exchange(0)); drv::distinct(drv::mix(n * 77 + progress.load()));
    if (n < 3) drv::sample("%d rings, %s first, %llu passes", rings, g[0].o->name().c_str(), (unsigned long long)progress.load());
}
// many threads blocked on many objects at once; then each object is notified in random order and exactly its waiters return
static std::atomic<int> entered, returned[64];
static void many_thread(WBase* o, int slot, uint64_t seed, bool timed)
{
    trs = seed; entered.fetch_add(1); int k = 0; if (timed) { Res r = o->wait(0, R(2) ? M_STEADY : M_SYSTEM, rd(CLOCK_REALTIME) + 1000000ll * 3600 * 1000000, 3); k = r.idx; if (r.timeout) fail("early-timeout", "%s: a distant deadline timed out", o->name().c_str()); } else { Res r = o->wait(0, M_WAIT, 0, 3); k = r.idx; }
    if (k == 0 || k < 0) fail("wait-result", "%s: a wait returned value %d", o->name().c_str(), k);
    returned[slot].fetch_add(1); progress.fetch_add(1); live.fetch_sub(1);
}
static void many(uint64_t n)
{
    register_waits(3); stop_workers(); int no = 2 + int(R(unsigned(wobjs.size()) - 1)); std::vector<WBase*> pool = wobjs, o; for (int i = 0; i < no; ++i) { size_t k = R(unsigned(pool.size())); o.push_back(pool[k]); pool.erase(pool.begin() + long(k)); o.back()->init(0); o.back()->reset(0); }
    std::vector<int> cnt(no); std::vector<std::thread> th; entered = 0; live = 0; progress = 0; for (auto& r : returned) r = 0; int total = 0; for (int i = 0; i < no; ++i) { cnt[i] = 1 + int(R(3)); total += cnt[i]; } live = total;
    for (int j = 0; j < 3; ++j) for (int i = 0; i < no; ++i) if (cnt[i] > j) th.emplace_back(many_thread, o[i], i, drv::rnd64(), R(4) == 0);
    while (entered.load() < total) usleep(200); usleep(R(3) * 1000);
    std::vector<int> left(no); for (int i = 0; i < no; ++i) left[i] = i;
    while (!left.empty())
    {
        size_t k = R(unsigned(left.size())); int i = left[k]; left.erase(left.begin() + long(k)); bool together_ = R(3) == 0 && !left.empty();
        o[i]->set(1, int(R(3)), 2); if (cnt[i] == 1 && R(2)) o[i]->notify_one(); else o[i]->notify_all();
        if (together_) continue;
        int64_t t0 = rd(CLOCK_MONOTONIC); while (returned[i].load() < cnt[i]) { usleep(50); if (rd(CLOCK_MONOTONIC) - t0 > int64_t(HANG_S) * 1000000000) fail("lost-wakeup", "%s: %d of %d waiters returned %d s after notification, %d other objects have waiters", o[i]->name().c_str(), returned[i].load(), cnt[i], HANG_S, int(left.size())); }
        for (int j : left) if (returned[j].load()) fail("wrong-object", "%s: a waiter returned before the value changed", o[j]->name().c_str());
    }
    if (!watch_progress(HANG_S)) fail("lost-wakeup", "%d waiters of %d objects never returned after notification", live.load(), no);
    for (auto& t : th) t.join(); drv::metric("waiters", uint64_t(total)); drv::metric("objects", uint64_t(no)); drv::distinct(drv::mix(n * 131 + uint64_t(total) * 7 + uint64_t(no)));
    if (n < 3) drv::sample("%d waiters on %d objects", total, no);
}

// hundreds of threads blocked at once, on as many objects with the same internal lock (builds with a single lock) or on few
struct Crowd3 { uint64_t w[3]; };
static Crowd3 crowd_value(Crowd3*, unsigned k) { Crowd3 r = { { k, ~uint64_t(k), k * 0x100000001ull } }; return r; }
static unsigned char crowd_value(unsigned char*, unsigned k) { return (unsigned char)k; }
static unsigned crowd_value(unsigned*, unsigned k) { return k; }
static unsigned crowd_index(unsigned x) { return x; }
static unsigned crowd_index(Crowd3 const& x) { return unsigned(x.w[0]); }
static unsigned crowd_index(unsigned char x) { return x; }
template<class T> struct CrowdJob { boost::atomic<T>* a; std::atomic<int>* back; unsigned rounds; bool timed; };
template<class T> static void* crowd_thread(void* p)
{
    CrowdJob<T>& j = *(CrowdJob<T>*)p;
    for (unsigned k = 0; k < j.rounds; ++k)
    {
        entered.fetch_add(1); T old = crowd_value((T*)0, k); unsigned r;
        if (j.timed) { auto x = j.a->wait_until(old, std::chrono::steady_clock::now() + std::chrono::hours(1)); r = crowd_index(x.value); if (x.timeout) fail("early-timeout", "a wait with a distant deadline timed out"); } else r = crowd_index(j.a->wait(old));
        if (r == k) fail("wait-result", "a wait returned the old value");
        j.back->fetch_add(1); progress.fetch_add(1);
    }
    live.fetch_sub(1); return nullptr;
}
template<class T> static void crowd_of(uint64_t n)
{
    stop_workers(); int nthr = 200 + int(R(560)), shape = int(R(5)), no = shape < 2 ? nthr : shape < 4 ? 1 + int(R(3)) : 1 + int(R(unsigned(nthr))); unsigned rounds = 2 + R(2); entered = 0; live = nthr; progress = 0;
    std::unique_ptr<boost::atomic<T>[]> a(new boost::atomic<T>[size_t(no)]); for (int i = 0; i < no; ++i) a[i].store(crowd_value((T*)0, 0)); std::unique_ptr<std::atomic<int>[]> back(new std::atomic<int>[size_t(no)]); std::vector<int> cnt(no); for (int i = 0; i < no; ++i) back[i] = 0;
    std::vector<CrowdJob<T> > jobs(nthr); std::vector<pthread_t> th; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10);
    for (int i = 0; i < nthr; ++i) { int k = i < no ? i : int(R(unsigned(no))); ++cnt[k]; jobs[i] = CrowdJob<T>{ &a[k], &back[k], rounds, R(4) == 0 }; }
    for (auto& j : jobs) { pthread_t t; if (pthread_create(&t, &at, crowd_thread<T>, &j)) { std::printf("cannot create %d threads\n", nthr); std::exit(3); } th.push_back(t); } pthread_attr_destroy(&at);
    for (unsigned k = 0; k < rounds; ++k)
    {
        std::vector<int> left; for (int i = 0; i < no; ++i) left.insert(left.begin() + R(unsigned(left.size() + 1)), i);
        // the whole crowd is (almost certainly) blocked; those of the previous round come back as they return
        if (k == 0) { while (entered.load() < nthr) usleep(500); usleep(3000 + R(3) * 10000); }
        for (int i : left)
        {
            int64_t t0 = rd(CLOCK_MONOTONIC); while (back[i].load() < cnt[i] * int(k)) { usleep(50); if (rd(CLOCK_MONOTONIC) - t0 > int64_t(HANG_S) * 1000000000) fail("lost-wakeup", "%d of %d waiters of an object returned %d s after notification; %d threads, %d objects", back[i].load() - cnt[i] * int(k - 1), cnt[i], HANG_S, nthr, no); }
            // a returned thread waits again and could take a notification meant for others: only single waiters, or the last round
            a[i].store(crowd_value((T*)0, k + 1)); if (R(2) || (cnt[i] > 1 && k + 1 < rounds)) a[i].notify_all(); else for (int j = 0; j < cnt[i]; ++j) a[i].notify_one();
        }
    }
    if (!watch_progress(HANG_S)) fail("lost-wakeup", "%d of %d threads waiting on %d objects never returned after notification", live.load(), nthr, no);
    for (auto t : th) pthread_join(t, nullptr);
    drv::metric("crowd_threads", uint64_t(nthr)); drv::metric("crowd_objects", uint64_t(no)); drv::metric("crowd_waits", uint64_t(nthr) * rounds); drv::distinct(drv::mix(n * 977 + uint64_t(nthr) * 1000 + uint64_t(no))); if (n < 2) drv::sample("%d threads wait on %d objects at once", nthr, no);
}
static void crowd(uint64_t n) { if (n % 3 == 1) crowd_of<unsigned>(n); else if (n % 3 == 2) crowd_of<Crowd3>(n); else crowd_of<unsigned char>(n); }

// ------------------------------------------------------------------ timed waits that time out, on the real clocks
static void timed(uint64_t n)
{
    register_waits(3); stop_workers(); WBase* o = wobjs[n % wobjs.size()]; o->init(0); o->reset(0);
    static const int ms[] = { M_STEADY, M_SYSTEM, M_PLAIN, M_MONO, M_BOOT, M_FOR, M_COARSE, M_FORMS, M_JUMP };
    for (int m : ms) for (int64_t d : { int64_t(-3600) * 1000000000, int64_t(0), int64_t(1 + R(2000)) * 1000, int64_t(3000000) })
    {
        if (d < 0 && m != M_FOR && m != M_FORMS && R(2)) d = -1000 - rd(clk_of(m)); // before the clock's epoch
        int64_t b = rd(clk_of(m)), dl = m == M_FOR || m == M_FORMS ? deadline(m, d) : deadline(m, d), t0 = rd(CLOCK_MONOTONIC); Res r = o->wait(0, m, dl, int(R(4))); int64_t e = rd(clk_of(m)), el = rd(CLOCK_MONOTONIC) - t0;
        if (!r.timeout || r.idx != 0) fail("timed-wait", "%s: %s with nobody changing the value returned timeout=%d value %d", o->name().c_str(), mname[m], int(r.timeout), r.idx);
        int64_t end = m == M_FOR ? b + dl : m == M_FORMS ? b + dl * 1000000 : m == M_COARSE ? dl * 1000000 : dl;
        if (e < end) fail("early-timeout", "%s: %s reported a timeout %lld ns before its deadline", o->name().c_str(), mname[m], (long long)(end - e));
        if (el > int64_t(HANG_S) * 1000000000) fail("late-timeout", "%s: %s of %lld ns took %lld ns", o->name().c_str(), mname[m], (long long)d, (long long)el);
        drv::metric("timeouts", 1); drv::distinct(drv::mix(n % wobjs.size() * 1000 + m * 10 + (d < 0 ? 0 : d == 0 ? 1 : 2)));
    }
}

// ------------------------------------------------------------------ processes
#ifndef NO_IPC
struct Shared { boost::ipc_atomic<uint32_t> ready; boost::ipc_atomic<uint32_t> done; boost::ipc_atomic<uint64_t> sum; boost::ipc_atomic<i128> wide; boost::ipc_atomic<uint8_t> small; boost::ipc_atomic_flag flag; alignas(16) u128 refd; alignas(8) uint64_t plain[4]; alignas(4) uint32_t plain32; boost::ipc_atomic<uint32_t> tok; boost::ipc_atomic<uint64_t> tok64; boost::ipc_atomic<uint8_t> tok8; long counter[4]; uint32_t bad; };
static void proc_fail(Shared* s, uint32_t code) { __atomic_store_n(&s->bad, code, __ATOMIC_SEQ_CST); _exit(7); }
template<class W, class T> static void ipc_token(Shared* s, W&& w, long& counter, uint32_t me, uint32_t nproc, uint32_t rounds, int method)
{
    for (uint32_t r = 0; r < rounds; ++r)
    {
        T v = w.load(boost::memory_order_acquire);
        while (uint32_t(v) != me)
        {
            T old = v; bool to = false;
            switch ((method + r) % 4) { case 0: case 1: v = w.wait(old, boost::memory_order_acquire); break; case 2: { auto x = w.wait_for(old, std::chrono::milliseconds(5), boost::memory_order_acquire); v = x.value; to = x.timeout; break; } default: { auto x = w.wait_until(old, std::chrono::steady_clock::now() + std::chrono::seconds(100), boost::memory_order_acquire); v = x.value; to = x.timeout; if (to) proc_fail(s, 2); } }
            if (to != (v == old)) proc_fail(s, 3);
        }
        ++counter; w.store(T((me + 1) % nproc), boost::memory_order_release); w.notify_all();
    }
}
static void proc(Shared* s, uint32_t me, uint32_t nproc, uint32_t rounds, int method)
{
    s->ready.opaque_add(1); while (s->ready.load() != nproc) { uint32_t v = s->ready.load(); if (v != nproc) { if (v > nproc) proc_fail(s, 1); s->ready.wait(v); } s->ready.notify_all(); } s->ready.notify_all();
    boost::ipc_atomic_ref<u128> rw(s->refd); boost::ipc_atomic_ref<uint64_t> rp(s->plain[1]); boost::ipc_atomic_ref<uint32_t> r32(s->plain32);
    for (uint32_t r = 0; r < rounds * 4; ++r) { s->sum.fetch_add(r); s->wide.fetch_add(i128(r) << 40); s->small.opaque_add(1); rw.fetch_add(u128(r) << 33); rp.fetch_sub(1); r32.bitwise_xor(1u << (me * 4)); }
    ipc_token<decltype((s->tok)), uint32_t>(s, s->tok, s->counter[0], me, nproc, rounds, method); ipc_token<decltype((s->tok64)), uint64_t>(s, s->tok64, s->counter[1], me, nproc, rounds / 2, method + 1); ipc_token<decltype((s->tok8)), uint8_t>(s, s->tok8, s->counter[2], me, nproc, rounds / 2, method + 2);
    ipc_token<boost::ipc_atomic_ref<uint32_t>, uint32_t>(s, boost::ipc_atomic_ref<uint32_t>(*(uint32_t*)((char*)&s->plain[3])), s->counter[3], me, nproc, rounds / 2, method + 3);
    s->done.opaque_add(1); s->done.notify_all();
}
static void ipc(uint64_t n)
{
    stop_workers(); int fd = memfd_create("verif", MFD_CLOEXEC); if (fd < 0) { printf("CRT-ERROR memfd_create\n"); exit(3); } size_t sz = (sizeof(Shared) + 4095) & ~size_t(4095); if (ftruncate(fd, long(sz))) { printf("CRT-ERROR ftruncate\n"); exit(3); }
    Shared* s = new (mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)) Shared(); s->refd = 0; for (auto& p : s->plain) p = 0; s->plain32 = 0; for (auto& c : s->counter) c = 0; s->bad = 0;
    uint32_t nproc = 2 + R(3), rounds = 20 + R(60); int method = int(R(4)); std::vector<pid_t> pids;
    for (uint32_t i = 0; i < nproc; ++i)
    {
        pid_t p = fork(); if (p < 0) { printf("CRT-ERROR fork\n"); exit(3); }
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (uint32_t k = 0; k < i; ++k) mmap(nullptr, sz * (k + 3), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); Shared* m = (Shared*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); munmap((void*)s, sz); proc(m, i, nproc, rounds, method); _exit(0); }
        pids.push_back(p);
    }
    int64_t t0 = rd(CLOCK_MONOTONIC), alive = nproc; bool bad = false;
    while (alive) { int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p > 0) { --alive; if (st) bad = true; } else { usleep(200); } if (bad || rd(CLOCK_MONOTONIC) - t0 > int64_t(HANG_S) * 1000000000) { for (pid_t q : pids) kill(q, SIGKILL); while (waitpid(-1, &st, 0) > 0) {} break; } }
    if (bad) fail("ipc", "a process failed (code %u: 2 early timeout, 3 inconsistent result of a timed wait, 0 crash)", s->bad);
    if (alive) fail("lost-wakeup", "%d processes stuck: tokens %u %llu %u after %ld %ld %ld %ld passes (rounds %u)", int(alive), s->tok.load(), (unsigned long long)s->tok64.load(), unsigned(s->tok8.load()), s->counter[0], s->counter[1], s->counter[2], s->counter[3], rounds);
    uint64_t k = uint64_t(rounds) * 4, t = k * (k - 1) / 2 * nproc;
    if (s->sum.load() != t || s->wide.load() != i128(t) << 40 || s->small.load() != uint8_t(k * nproc) || s->refd != u128(t) << 33 || s->plain[1] != 0 - k * nproc || s->plain32 != (k & 1 ? (nproc == 2 ? 0x11u : nproc == 3 ? 0x111u : 0x1111u) : 0u) || s->plain[0] || s->plain[2]) fail("lost-update", "operations of %u processes on shared memory were lost: sum %llu expected %llu", nproc, (unsigned long long)s->sum.load(), (unsigned long long)t);
    for (int i = 0; i < 4; ++i) if (s->counter[i] != long(nproc * (i ? rounds / 2 : rounds))) fail("lost-update", "updates protected by a token in shared memory were lost");
    munmap((void*)s, sz); close(fd); drv::metric("processes", nproc); drv::metric("passes", uint64_t(nproc) * rounds * 5 / 2); drv::metric("operations", k * nproc * 6); drv::distinct(drv::mix(n * 9 + nproc * 1000 + rounds));
    if (n < 3) drv::sample("%u processes, %u rounds", nproc, rounds);
}
// processes that are killed at any point of an operation leave the objects usable for the others
struct Shared3 { boost::ipc_atomic<uint32_t> tok, start; boost::ipc_atomic<uint64_t> tok64, sum; boost::ipc_atomic<i128> wide; boost::ipc_atomic<int16_t> half; boost::ipc_atomic_flag flag; uint64_t begun[128], ended[128]; long passes[2]; uint32_t bad; };
static void ring2(Shared3* s, uint32_t me, uint32_t rounds)
{
    for (uint32_t r = 0; r < rounds; ++r)
    {
        if (r % 2) { uint64_t v = s->tok64.load(); while (v % 2 != me) { uint64_t o = v; v = s->tok64.wait(o); if (v == o) { s->bad = 3; _exit(7); } } ++s->passes[1]; s->tok64.store(me ^ 1); s->tok64.notify_all(); }
        else { uint32_t v = s->tok.load(); while (v % 2 != me) { uint32_t o = v; if (r % 4) { v = s->tok.wait(o); if (v == o) { s->bad = 3; _exit(7); } } else { auto x = s->tok.wait_for(o, std::chrono::milliseconds(2)); v = x.value; if (x.timeout != (v == o)) { s->bad = 3; _exit(7); } } } ++s->passes[0]; s->tok.fetch_xor(1); s->tok.notify_all(); }
    }
}
static void victim(Shared3* s, unsigned id)
{
    for (uint64_t k = 0;; ++k)
    {
        __atomic_store_n(&s->begun[id], k + 1, __ATOMIC_SEQ_CST); s->sum.fetch_add(1); s->wide.add(i128(1) << 64 | 1); s->half.opaque_add(1); __atomic_store_n(&s->ended[id], k + 1, __ATOMIC_SEQ_CST);
        if (k % 4 == 0) s->tok.wait(s->tok.load()); else if (k % 4 == 1) s->tok64.wait_for(s->tok64.load(), std::chrono::microseconds(50)); else if (k % 4 == 2) { s->flag.test_and_set(); s->flag.notify_one(); s->tok64.notify_all(); } else { s->flag.clear(); s->half.wait_for(s->half.load(), std::chrono::microseconds(20)); s->tok.notify_all(); }
    }
}
static void ipc_kill(uint64_t n)
{
    stop_workers(); size_t sz = (sizeof(Shared3) + 4095) & ~size_t(4095); void* mem = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (mem == MAP_FAILED) { printf("CRT-ERROR mmap\n"); exit(3); }
    Shared3* s = new (mem) Shared3(); uint32_t rounds = 60 + R(240); unsigned nv = 1 + R(3), spawned = 0, killed = 0; pid_t st[2], vi[4];
    auto spawn = [&](int stable) -> pid_t { unsigned id = spawned; if (stable < 0) ++spawned; pid_t p = fork(); if (p < 0) { printf("CRT-ERROR fork\n"); exit(3); } if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (stable >= 0) { ring2(s, uint32_t(stable), rounds); _exit(0); } victim(s, id); _exit(0); } return p; };
    for (unsigned i = 0; i < nv; ++i) vi[i] = spawn(-1);
    for (int i = 0; i < 2; ++i) st[i] = spawn(i);
    int64_t t0 = rd(CLOCK_MONOTONIC); int alive = 2; bool bad = false, hung = false; int x; long seen = 0;
    while (alive && !bad && !hung)
    {
        usleep(R(400)); for (int i = 0; i < 2; ++i) if (st[i] && waitpid(st[i], &x, WNOHANG) > 0) { st[i] = 0; --alive; if (x) bad = true; }
        if (spawned < 120) { unsigned i = R(nv); kill(vi[i], SIGKILL); waitpid(vi[i], &x, 0); ++killed; if (!WIFSIGNALED(x) || WTERMSIG(x) != SIGKILL) bad = true; vi[i] = spawn(-1); }
        long now = __atomic_load_n(&s->passes[0], __ATOMIC_RELAXED) + __atomic_load_n(&s->passes[1], __ATOMIC_RELAXED); if (now != seen) { seen = now; t0 = rd(CLOCK_MONOTONIC); }
        hung = rd(CLOCK_MONOTONIC) - t0 > int64_t(HANG_S) * 1000000000;
    }
    for (pid_t p : st) if (p) kill(p, SIGKILL);
    for (unsigned i = 0; i < nv; ++i) kill(vi[i], SIGKILL);
    while (waitpid(-1, &x, 0) > 0) {}
    if (bad) fail("ipc", "a process failed (code %u: 3 inconsistent result of a wait, 0 crash) while others were killed", s->bad);
    if (hung) fail("lost-wakeup", "%d processes stuck after %ld of %u passes while %u others were killed", alive, s->passes[0] + s->passes[1], rounds * 2, killed);
    uint64_t lo = 0, hi = 0; for (unsigned i = 0; i < spawned; ++i) { lo += s->ended[i]; hi += s->begun[i]; } uint64_t sum = s->sum.load(), w0 = uint64_t(s->wide.load()), w1 = uint64_t(s->wide.load() >> 64); uint16_t hf = uint16_t(s->half.load());
    if (sum < lo || sum > hi || w0 < lo || w0 > hi || w0 != w1 || uint16_t(hf - uint16_t(lo)) > uint16_t(hi - lo)) fail("lost-update", "killed processes began %llu and finished %llu additions, the objects hold %llu, %llu, %llu and %u", (unsigned long long)hi, (unsigned long long)lo, (unsigned long long)sum, (unsigned long long)w0, (unsigned long long)w1, hf);
    if (s->passes[0] != long((rounds + 1) / 2 * 2) || s->passes[1] != long(rounds / 2 * 2)) fail("lost-update", "updates protected by a token in shared memory were lost");
    drv::metric("killed_processes", killed); drv::metric("passes", rounds * 2); drv::metric("operations", lo * 3); drv::distinct(drv::mix(n * 9 + killed)); if (n < 3) drv::sample("%u processes killed at random points, %u passes between two others", killed, rounds * 2); munmap(mem, sz);
}
#endif
// ------------------------------------------------------------------ use while and after the process exits
static void late_use(char const* when)
{
    static boost::atomic<Bytes<3> >* a = new boost::atomic<Bytes<3> >(Bytes<3>::make(1)); static boost::atomic<Words<5> >* b = new boost::atomic<Words<5> >(Words<5>::make(1));
    Words<5> w = b->exchange(Words<5>::make(2)); auto r = a->wait_for(Bytes<3>::make(1), std::chrono::microseconds(10)); auto r2 = b->wait_for(Words<5>::make(2), std::chrono::microseconds(10)); a->notify_all(); b->notify_one();
    if (!r.timeout || !r2.timeout || !same_bits(r.value, Bytes<3>::make(1)) || !same_bits(r2.value, Words<5>::make(2)) || !(w.w[0] == Words<5>::make(1).w[0] || w.w[0] == Words<5>::make(2).w[0])) { printf("CRT-VIOLATION {\"driver\":\"stress\",\"kind\":\"late-use\",\"message\":\"wrong result of an operation %s\"}\n", when); fflush(stdout); _exit(1); }
    if (b->wait(Words<5>::make(1)).w[0] != Words<5>::make(2).w[0]) _exit(1);
}
struct Late { ~Late() { late_use("in a static destructor"); } }; static Late late;
__attribute__((destructor(101))) static void very_late() { late_use("in a late destructor"); }
__attribute__((constructor(101))) static void very_early() { late_use("in an early constructor"); }

static void run_each(char const* name, uint64_t iters, void (*f)(uint64_t)) { drv::scenario(name, iters, [f](uint64_t n) { trs = drv::rnd64(); f(n); }); }
int main(int argc, char** argv)
{
    drv::setup(argc, argv, "stress"); uint64_t N = drv::S().iters;
#if GROUP
    register_ops();
    auto select = [](bool locked, bool lockfree) { cand.clear(); for (auto* o : aobjs) if (o->lock_free() ? lockfree : locked) cand.push_back(o); return !cand.empty(); };
    if (select(false, true)) run_each("lin_lockfree", N, lin);
    if (select(true, false)) run_each("lin_locked", N, lin);
    select(true, true); fenced = false; run_each("sb", N, sb);
    fenced = true; run_each("fence_sb", N, sb);
#else
    run_each("storm", N, [](uint64_t n) { storm(n, false); });
    run_each("storm_timed", N, [](uint64_t n) { storm(n, true); });
    run_each("many", N, many);
    run_each("crowd", N, crowd);
    run_each("timed", N, timed);
    IPC(run_each("ipc", N, ipc); run_each("ipc_kill", N / 4 + 1, ipc_kill);)
#endif
    stop_workers(); return drv::finish();
}
