// Controlled-runtime scenarios for waiting and notifying: lost wakeups, results of waits, deadlines in virtual time,
// many objects, double mappings, allocation failures, memory use, exit-time cleanup, progress.
#include "crt.h"
#include "../common/ops.hpp"
#include <boost/atomic.hpp>
#include <algorithm>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#ifndef NO_IPC
#define IPC(X) X
#else
#define IPC(X)
#endif
using namespace ops;
static uint32_t R(uint32_t n) { return crt::rnd(n); }

static int64_t rd(int id) { timespec t; clock_gettime(id, &t); return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec; }
#include "../common/wobj.hpp"
static std::vector<WBase*> objs; static std::vector<std::vector<WBase*> > kinds; // kinds[k]: instances of one type
static char* space; static size_t space_used = 0; static const size_t SPACE = 1 << 20;
static int n_inst = 5;
template<class Acc> static void reg(char const* tn)
{
    std::vector<WBase*> v; size_t al = alignof(Acc) < 16 ? 16 : alignof(Acc);
    for (int i = 0; i < n_inst; ++i) { space_used = (space_used + al - 1) & ~(al - 1); WBase* o = new WObj<Acc>(tn, space + space_used); space_used += sizeof(Acc) + 16 * (1 + (i * 7 + kinds.size() * 3) % 9); v.push_back(o); objs.push_back(o); }
    kinds.push_back(v);
}
static void register_all()
{
    space = (char*)mmap((void*)0x300000000000ULL, SPACE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#if !defined(GROUP) || GROUP == 1
    reg<AccAtomic<int32_t> >("int32"); reg<AccAtomic<uint64_t> >("uint64"); reg<AccAtomic<uint8_t> >("uint8"); reg<AccFlag>("flag"); reg<AccAtomic<Bytes<3> > >("bytes3"); reg<AccAtomic<Words<5> > >("words5"); reg<AccRef<Bytes<3> > >("bytes3"); reg<AccAtomic<i128> >("int128");
    reg<AccAtomic<Pad5> >("pad5");
#endif
#if !defined(GROUP) || GROUP == 2
    reg<AccAtomic<E8> >("enum8"); reg<AccAtomic<double> >("double"); reg<AccRef<int16_t> >("int16"); reg<AccAtomic<bool> >("bool"); reg<AccAtomic<float> >("float"); reg<AccAtomic<int*> >("int*"); reg<AccRef<Words<2> > >("words2"); reg<AccRef<uint32_t> >("uint32"); reg<AccAtomic<Bytes<24> > >("bytes24");
#endif
#if !defined(NO_IPC) && (!defined(GROUP) || GROUP == 3)
    reg<AccIpc<int32_t> >("int32"); reg<AccIpcFlag>("flag"); reg<AccIpc<uint64_t> >("uint64"); reg<AccIpcRef<uint16_t> >("uint16"); reg<AccIpc<uint8_t> >("uint8"); reg<AccIpcRef<uint32_t> >("uint32"); reg<AccIpc<double> >("double"); reg<AccIpc<Bytes<3> > >("bytes3");
#endif
}
// ------------------------------------------------------------------ waiters
struct W { WBase* o; int k, m, order; int64_t d; int64_t deadline; uint64_t call, ret; Res r; bool started, done; int expect_not; uint64_t post; uint64_t futex, clocks; int64_t t_call, t_ret; int fiber; };
static W ws[64]; static int nw;
static int64_t far_deadline(int m) // never reached
{
    const int64_t Y = 365LL * 86400;
    switch (m) { case M_FOR: return 100 * Y * 1000000000; case M_FORMS: return 100 * Y * 1000; case M_COARSE: return 100 * Y * 1000; case M_SYSSEC: return 200 * Y; default: return crt::vnow(clk_of(m)) + 100 * Y * 1000000000; }
}
static bool forever(int m) { return true; }
static W& add(WBase* o, int k, int m, int64_t d, int order) { W& w = ws[nw++]; std::memset((void*)&w, 0, sizeof w); w.o = o; w.k = k; w.m = m; w.d = d; w.order = order; w.expect_not = k; return w; }
static void waiter(void* a)
{
    W& w = *(W*)a; crt::label(mname[w.m]); w.started = true; w.fiber = crt::self();
    if (w.m != M_WAIT && w.deadline) crt::watch_deadline(clk_of(w.m), w.deadline);
    w.t_call = crt::vnow(clk_of(w.m)); w.call = crt::stamp(); uint64_t f0 = crt::futex_calls(), c0 = crt::clock_calls();
    w.r = w.o->wait(w.k, w.m, w.d, w.order);
    w.ret = crt::stamp(); w.t_ret = crt::vnow(clk_of(w.m)); w.post = crt::post_deadline_calls(); w.futex = crt::futex_calls() - f0; w.clocks = crt::clock_calls() - c0; crt::watch_deadline(-1, 0); w.done = true; crt::label("done waiting");
    crt::note("%s returned %d timeout=%d", w.o->name().c_str(), w.r.idx, int(w.r.timeout));
}
static void spawn_waiter(W& w) { crt::spawn(waiter, &w, "waiter"); }
static void check_result(W& w) // C10, immediate part
{
    if (w.r.threw) return;
    std::string n = w.o->name(); int k = w.k % w.o->nv;
    if (w.r.idx == -1) crt::fail("wait-result", "%s of %s returned a value that was never stored", mname[w.m], n.c_str());
    if (!w.r.timeout && w.r.idx == k) crt::fail("wait-result", "%s of %s returned the old value without a timeout", mname[w.m], n.c_str());
    if (w.r.timeout && w.r.idx != k) crt::fail("wait-result", "%s of %s reports a timeout together with a changed value", mname[w.m], n.c_str());
}
static crt::policy base()
{
    crt::policy p; p.weakfail_pct = 10; p.step_limit = 6000; p.fair_steps = 40000; static const unsigned sp[] = { 0, 0, 15, 80 }, ei[] = { 0, 0, 15, 50 };
    return p;
}
static void faults(crt::policy& p, uint64_t n, bool stale)
{
    static const unsigned sp[] = { 0, 0, 15, 80 }, ei[] = { 0, 0, 15, 50 }; uint64_t h = crt::mix(n * 77 + 5);
    p.spurious_permille = sp[h & 3]; p.eintr_pct = ei[h >> 2 & 3]; if (stale) p.stale_pct = (h >> 4 & 1) ? 30 : 0; p.plain_switch_pct = (h >> 5 & 3) == 0 ? 8 : 0; p.old_kernel = (h >> 8 & 15) == 0 ? 1 : (h >> 8 & 15) == 1 ? 2 : 0;
}
static bool polls(WBase* o) { return o->ipc() && !o->native(); } // the documented fallback of interprocess atomics: wait by polling
static void reg_atomic(WBase* o) { if (o->lock_free()) crt::register_atomic(o->mem(), o->size()); }
static WBase* prep(WBase* o) { o->init(R(6) == 0); o->reset(0); reg_atomic(o); return o; }
static WBase* pick(uint64_t n, bool nopoll = false) { while (nopoll && polls(kinds[n % kinds.size()][0])) n = n * 5 + 1 + R(7); auto& v = kinds[n % kinds.size()]; return v[R(unsigned(v.size()))]; }
// an object sharing the internal lock with o, if there is one
static WBase* neighbour(WBase* o) { for (unsigned i = 0, k = R(unsigned(objs.size())); i < objs.size(); ++i) { WBase* x = objs[(i + k) % objs.size()]; if (x != o && !x->ipc() && o->lockid && x->lockid == o->lockid) return x; } for (unsigned t = 0; t < 50; ++t) { WBase* x = objs[R(unsigned(objs.size()))]; if (x != o) return x; } return o; }
static int rand_method(bool timed_ok = true) { static const int ms[] = { M_WAIT, M_WAIT, M_STEADY, M_SYSTEM, M_PLAIN, M_MONO, M_BOOT, M_FOR, M_COARSE, M_SYSSEC, M_JUMP, M_FORMS }; return timed_ok ? ms[R(12)] : M_WAIT; }
static void spin(unsigned n) { for (unsigned i = R(n + 1); i; --i) crt::yield(); }

// ------------------------------------------------------------------ wake (C09)
static WBase *X, *Y; static int setk, nsets, notify_kind, setters; static unsigned delay; static bool noise;
static void noise_fiber(void*) { for (int i = 0; i < 3; ++i) { crt::label("noise"); spin(6); if (R(2)) X->notify_all(); else X->notify_one(); if (Y) { if (R(2)) Y->rmw_touch(); else Y->notify_all(); } } }
static void setter(void*)
{
    crt::label("delay"); spin(delay);
    crt::label("change"); int how = R(3), o = R(3);
    X->set(setk, how, o);
    if (notify_kind == 0) { crt::label("notify_all"); X->notify_all(); }
    else for (int i = 0; i < notify_kind; ++i) { crt::label("notify_one"); X->notify_one(); if (R(2)) spin(4); }
}
static void neigh_waiter(void* a) { W& w = *(W*)a; waiter(a); check_result(w); }
static void wake(uint64_t n)
{
    crt::policy p = base(); faults(p, n, true); crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    X = prep(pick(n)); Y = R(2) ? prep(neighbour(X)) : nullptr; if (Y == X) Y = nullptr;
    int rounds = 1 + (R(3) == 0) + (R(6) == 0); int cur = 0; uint64_t blocked = 0;
    for (int r = 0; r < rounds; ++r)
    {
        int first = nw, k = 1 + R(R(2) ? 4 : 2); bool cont = R(2);
        for (int i = 0; i < k; ++i) { int m = rand_method(); W& w = add(X, cur, m, far_deadline(m), R(4)); spawn_waiter(w); }
        int nyw = 0; if (Y) { nyw = 1 + R(2); for (int i = 0; i < nyw; ++i) { int m = rand_method(); W& w = add(Y, Y->get(), m, far_deadline(m), R(4)); spawn_waiter(w); } }
        setk = cur ? 0 : 1; delay = cont ? 60 : 4; notify_kind = R(2) ? 0 : k; noise = R(4) == 0; 
        crt::spawn(setter, nullptr, "setter"); if (noise) crt::spawn(noise_fiber, nullptr, "noise");
        if (Y) crt::spawn([](void*) { spin(40); crt::label("change Y"); Y->set(Y->get() == 0 ? 1 : 0, 0, 2); crt::label("notify Y"); if (R(2)) { Y->notify_all(); } else for (int i = 0; i < 2; ++i) Y->notify_one(); }, nullptr, "setter Y");
        uint64_t b0 = crt::st.futex_blocked + crt::st.sleeps; crt::run(); blocked += crt::st.futex_blocked + crt::st.sleeps - b0;
        for (int i = first; i < nw; ++i) { check_result(ws[i]); if (ws[i].r.timeout) crt::fail("early-timeout", "%s of %s timed out 100 years early", mname[ws[i].m], ws[i].o->name().c_str()); }
        cur = setk;
    }
    crt::add_metric("waits", nw); crt::add_metric("waits_that_blocked", blocked); if (blocked) crt::count_distinct(crt::mix(crt::schedule_hash() * 31 + n % kinds.size()));
    if (n < 4) crt::sample("%s: %d waits (%s...), %d rounds, faults spurious=%u/1000 eintr=%u%% stale=%u%%; %llu blocked", X->name().c_str(), nw, mname[ws[0].m], rounds, p.spurious_permille, p.eintr_pct, p.stale_pct, (unsigned long long)blocked);
}
// notify_one while everything is blocked: at least one waiter more returns after each call
static int wo_done, wo_phase; static int done_count(WBase* o) { int c = 0; for (int i = 0; i < nw; ++i) if (ws[i].o == o && ws[i].done) ++c; return c; }
static int pending(WBase* o) { int c = 0; for (int i = 0; i < nw; ++i) if (ws[i].o == o && !ws[i].done) ++c; return c; }
static void one_set(void*) { crt::label("change"); X->set(1, R(3), R(3)); crt::label("notify_one"); X->notify_one(); }
static void one_notify(void*) { crt::label("notify_one"); X->notify_one(); }
static void y_release(void*) { crt::label("change Y"); Y->set(1, 0, 2); crt::label("notify_all Y"); Y->notify_all(); }
static bool wake_one_q()
{
    int d = done_count(X);
    if (wo_phase == 0) { if (pending(X) == 0) return false; wo_phase = 1; wo_done = d; crt::spawn(one_set, nullptr, "notifier"); return true; }
    if (pending(X) == 0)
    {
        if (Y && pending(Y)) { if (wo_phase == 2) return false; wo_phase = 2; crt::spawn(y_release, nullptr, "Y notifier"); return true; }
        return false;
    }
    if (wo_phase == 2) return false;
    if (d <= wo_done) crt::fail("lost-notify-one", "notify_one on %s returned but none of the %d blocked waiters did:%s", X->name().c_str(), pending(X), crt::deadlock_state().c_str());
    wo_done = d; crt::spawn(one_notify, nullptr, "notifier"); return true;
}
static void wake_one(uint64_t n)
{
    crt::policy p = base(); faults(p, n, false); p.spurious_permille = p.spurious_permille > 15 ? 15 : p.spurious_permille; crt::begin(p, crt::exec_seed()); nw = 0; wo_phase = 0; throw_after = -1;
    X = prep(pick(n, true)); Y = R(3) ? prep(neighbour(X)) : nullptr; if (Y == X || (Y && polls(Y))) Y = nullptr;
    int k = 1 + R(5), ky = Y ? 1 + R(3) : 0;
    for (int i = 0; i < k + ky; ++i) { int m = rand_method(); bool y = i >= k; W& w = add(y ? Y : X, 0, m, far_deadline(m), R(4)); (void)w; }
    std::vector<int> order; for (int i = 0; i < nw; ++i) order.insert(order.begin() + R(unsigned(order.size() + 1)), i);
    for (int i : order) spawn_waiter(ws[i]);
    crt::run(wake_one_q);
    for (int i = 0; i < nw; ++i) check_result(ws[i]);
    crt::add_metric("waits", nw); crt::count_distinct(crt::mix(crt::schedule_hash() * 33 + n % kinds.size()));
}

// ------------------------------------------------------------------ ret (C10)
struct Wr { int k; uint64_t s, e; }; static Wr tl[64]; static int ntl; static bool use_notify;
static void ret_writer(void*)
{
    int cnt = 2 + R(8);
    for (int i = 0; i < cnt; ++i)
    {
        spin(12); int k = i + 1 == cnt ? 1 : R(unsigned(X->nv)); crt::label("change"); Wr& w = tl[ntl]; w.k = k; w.s = crt::stamp(); w.e = ~0ull; ++ntl; X->set(k, R(3), R(3)); w.e = crt::stamp();
        unsigned r = R(4); crt::label("notify"); if (r == 0) X->notify_all(); else if (r == 1) X->notify_one(); else if (r == 2) { X->notify_one(); X->notify_all(); }
        if (R(4) == 0) { crt::label("notify without change"); X->notify_all(); }
    }
    crt::label("final notify_all"); X->notify_all();
}
static int held(WBase* o, int k, uint64_t c, uint64_t r) // was value k held at some time in [c, r]?
{
    for (int i = 0; i < ntl; ++i) if (tl[i].k % o->nv == k % o->nv && tl[i].s <= r && (i + 1 == ntl || tl[i + 1].e >= c)) return 1;
    return 0;
}
static void set_deadline(W& w, int64_t rel) // a deadline rel ns from now
{
    int c = clk_of(w.m); int64_t now = crt::vnow(c), g = gran_of(w.m);
    if (w.m == M_FOR || w.m == M_FORMS) { w.d = rel / g; w.deadline = now + w.d * g; if (!w.deadline) w.deadline = 1; }
    else { int64_t d = (now + rel) / g; w.d = d; w.deadline = d * g; if (!w.deadline) w.deadline = 1; }
}
static void ret_waiter(void* a)
{
    int cnt = 1 + R(3); W* first = (W*)a;
    for (int i = 0; i < cnt; ++i)
    {
        W& w = *first; int k = R(unsigned(X->nv)); if (i == 0 || R(2)) k = 0; if (k == 1 && w.m == M_WAIT) k = 0; // waiting for the final value would not end
        w.k = k; if (R(2)) w.m = rand_method(); if (w.m == M_WAIT && k == 1) w.m = M_STEADY;
        if (w.m == M_SYSSEC && polls(X)) w.m = M_SYSTEM;
        set_deadline(w, w.m == M_WAIT ? 1 : int64_t(R(2) ? R(3000) : R(60000)) - 200); if (w.m == M_SYSSEC) { w.d += R(2); w.deadline = w.d * 1000000000; }
        waiter(&w); check_result(w);
        if (!held(X, w.r.idx, w.call, w.ret)) crt::fail("wait-result", "%s of %s returned value #%d, which the object did not hold during the call", mname[w.m], X->name().c_str(), w.r.idx);
        crt::add_metric(w.r.timeout ? "timed_out" : "changed", 1);
    }
}
static void ret(uint64_t n)
{
    crt::policy p = base(); faults(p, n, false); p.timejump_permille = (n % 5 == 0) ? 10 : 0; crt::begin(p, crt::exec_seed()); nw = 0; ntl = 0; throw_after = -1;
    X = prep(pick(n)); tl[0].k = 0; tl[0].s = tl[0].e = 0; ntl = 1; int k = 1 + R(4);
    for (int i = 0; i < k; ++i) { int m = rand_method(); W& w = add(X, 0, m, 0, R(4)); crt::spawn(ret_waiter, &w, "waiter"); }
    crt::spawn(ret_writer, nullptr, "writer"); crt::run();
    crt::count_distinct(crt::mix(crt::schedule_hash() * 35 + n % kinds.size()));
    if (n < 3) crt::sample("%s: %d waiters against %d changes; last %s -> value #%d timeout=%d", X->name().c_str(), k, ntl - 1, mname[ws[0].m], ws[0].r.idx, int(ws[0].r.timeout));
}

// ------------------------------------------------------------------ claims (C19): native waits and lock-free operations stay out of the internal locks, others use them
static void claim_waiter(void* a)
{
    uint64_t l0 = crt::lib_accesses(), s0 = crt::st.sleeps; (void)s0; W& w = *(W*)a; waiter(a); check_result(w);
    if (w.o->native() && crt::lib_accesses() != l0) crt::fail("lock-use", "%s of %s, which claims native waiting, used the library's internal state", mname[w.m], w.o->name().c_str());
    if (!w.o->lock_free() && crt::lib_accesses() == l0) crt::fail("lock-unused", "%s of %s, which is not lock-free, did not use the internal locks", mname[w.m], w.o->name().c_str());
}
static void claim_setter(void*)
{
    uint64_t l0 = crt::lib_accesses(); spin(20); crt::label("change"); X->set(1, R(3), R(3));
    if (X->lock_free() ? crt::lib_accesses() != l0 : crt::lib_accesses() == l0) crt::fail("lock-use", "an operation on %s, which claims to be %slock-free, %s the internal locks", X->name().c_str(), X->lock_free() ? "" : "not ", X->lock_free() ? "used" : "did not use");
    l0 = crt::lib_accesses(); crt::label("notify"); if (notify_kind == 0) X->notify_all(); else for (int i = 0; i < notify_kind; ++i) X->notify_one();
    if (X->native() && crt::lib_accesses() != l0) crt::fail("lock-use", "a notification of %s, which claims native notification, used the library's internal state", X->name().c_str());
}
static void claims(uint64_t n)
{
    crt::policy p = base(); faults(p, n, false); crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1; X = prep(pick(n)); Y = nullptr;
    int k = 1 + R(3); notify_kind = R(2) ? 0 : k;
    for (int i = 0; i < k; ++i) { int m = rand_method(); W& w = add(X, 0, m, far_deadline(m), R(4)); if (m != M_WAIT && R(4) == 0) set_deadline(w, R(3000)); crt::spawn(claim_waiter, &w, "waiter"); }
    crt::spawn(claim_setter, nullptr, "setter"); uint64_t b0 = crt::st.futex_blocked; crt::run();
    crt::add_metric(X->native() ? "native" : X->lock_free() ? "lock_free" : "lock_based", 1); crt::add_metric("blocked", crt::st.futex_blocked - b0); crt::count_distinct(crt::mix(crt::schedule_hash() * 41 + n % kinds.size()));
}
// ------------------------------------------------------------------ timed (C11)
static int64_t real_max; static bool jumps; static int contend;
static void timed_waiter(void* a)
{
    W& w = *(W*)a; crt::policy const* p = nullptr; (void)p;
    uint64_t sp0 = crt::st.spurious, ein = 0; (void)ein;
    waiter(&w); check_result(w);
    if (w.r.threw) { crt::add_metric("clock_exceptions", 1); return; }
    int c = clk_of(w.m);
    int64_t seen = w.t_ret; if (c == CLOCK_REALTIME && real_max > seen) seen = real_max;
    if (w.r.timeout && seen < w.deadline) crt::fail("early-timeout", "%s of %s reported a timeout %lld ns before the deadline", mname[w.m], w.o->name().c_str(), (long long)(w.deadline - seen));
    uint64_t bound = 12 + 4 * (crt::st.spurious - sp0) + (contend ? 400 : 0);
    if (w.post > bound) crt::fail("late-return", "%s of %s made %llu clock readings and system calls after its deadline had passed", mname[w.m], w.o->name().c_str(), (unsigned long long)w.post);
    if (!contend && !jumps && w.r.timeout) { int64_t from = std::max(w.deadline, w.t_call); int64_t late = w.t_ret - from; if (late > 200000 + (gran_of(w.m) > 1 && w.m == M_COARSE ? 1000000 : 0)) crt::fail("late-return", "%s of %s returned %lld ns after its deadline", mname[w.m], w.o->name().c_str(), (long long)late); }
    crt::add_metric(w.r.timeout ? "timed_out" : "changed", 1);
}
static int64_t rand_rel() { switch (R(8)) { case 0: return 0; case 1: return -int64_t(R(1000)) - 1; case 2: return R(50); case 3: return R(5000); case 4: return R(3000000); case 5: return int64_t(R(5000)) * 1000000; case 6: return 999999999LL + R(3); default: return int64_t(R(100000)) * 100000000; } }
static void jumper(void*) { for (int i = 0; i < 3; ++i) { crt::label("clock jumps"); crt::sleep_ns(R(4000)); if (R(2)) crt::advance_offset(CK_JUMP, int64_t(R(2000000))); else crt::advance_offset(CK_JUMP, int64_t(R(1000))); crt::advance_offset(CLOCK_REALTIME, int64_t(R(2000000))); if (R(3) == 0) { real_max = std::max(real_max, crt::vnow(CLOCK_REALTIME)); crt::advance_offset(CLOCK_REALTIME, -int64_t(R(2000000))); } crt::advance_offset(CLOCK_BOOTTIME, int64_t(R(2000000))); } }
static void contender(void*) { for (int i = 0; i < 6; ++i) { crt::label("contender"); Y->rmw_touch(); spin(8); Y->notify_all(); } }
static void timed(uint64_t n)
{
    crt::policy p = base(); faults(p, n, false); if (p.spurious_permille > 15) p.spurious_permille = 15; jumps = n % 4 == 1; contend = n % 4 == 2; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1; real_max = INT64_MIN;
    X = prep(pick(n)); int k = 1 + R(3); if (k > 1) contend = 1;
    for (int i = 0; i < k; ++i) { int m; do m = R(8) == 0 ? int(M_THROW) : rand_method(); while (m == M_WAIT); W& w = add(X, 0, m, 0, R(4)); int64_t rel = rand_rel(); if (X->ipc() && !X->native() && rel > 40000) rel %= 40000; if (gran_of(m) >= 1000000000 && X->ipc() && !X->native()) { w.m = m = M_SYSTEM; } if (gran_of(m) == 1000000 && X->ipc() && !X->native()) w.m = M_PLAIN; set_deadline(w, rel); if (w.m == M_THROW) throw_after = R(3) ? -1 : int(R(4)); crt::spawn(timed_waiter, &w, "waiter"); }
    Y = nullptr; if (contend) { Y = prep(neighbour(X)); if (Y == X) Y = nullptr; if (Y) crt::spawn(contender, nullptr, "contender"); }
    if (jumps) crt::spawn(jumper, nullptr, "jumper");
    crt::run();
    // the object stays usable
    int base_n = nw; { W& w = add(X, 0, M_WAIT, 0, 3); spawn_waiter(w); notify_kind = 0; setk = 1; delay = 10; crt::spawn(setter, nullptr, "setter"); crt::run(); check_result(ws[base_n]); }
    crt::count_distinct(crt::mix(crt::schedule_hash() * 37 + n % kinds.size()));
    if (n < 4) crt::sample("%s: %s with deadline %lld ns after the call -> timeout=%d, %lld ns later, %llu calls after the deadline", X->name().c_str(), mname[ws[0].m], (long long)(ws[0].deadline - ws[0].t_call), int(ws[0].r.timeout), (long long)(ws[0].t_ret - ws[0].t_call), (unsigned long long)ws[0].post);
}
// extreme deadlines: the very past must time out at once, the very future must block without spinning until notified
static bool ext_q() { for (int i = 0; i < nw; ++i) if (!ws[i].done) { if (wo_phase++) return false; for (int j = 0; j < nw; ++j) if (!ws[j].done && ws[j].deadline == INT64_MIN) return false; crt::spawn(setter, nullptr, "setter"); return true; } return false; }
static void extreme(uint64_t n)
{
    crt::policy p = base(); crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1; wo_phase = 0; X = prep(pick(n)); Y = nullptr; real_max = INT64_MIN; jumps = false; contend = 0;
    int m; do m = rand_method(); while (m == M_WAIT); bool future = R(2);
    int64_t lim = INT64_MAX / gran_of(m); if (m == M_SYSSEC) lim = INT64_MAX / 1000000000; if (m == M_COARSE) lim = INT64_MAX / 1000000; if (m == M_FORMS) lim = INT64_MAX / 1000000;
    int64_t off = R(3) == 0 ? 0 : R(3) ? int64_t(R(2000000000)) : int64_t(R(2000000000)) * 1000000000; off /= gran_of(m);
    int64_t past = -lim - (gran_of(m) == 1 ? 1 : 0) + off;
    if (!future && R(3) == 0) { past = -int64_t(R(3)) * 1000000000 + int64_t(R(3)) - 1; if (past > 0 || R(3) == 0) past = -int64_t(R(2000000000)); past /= gran_of(m); } // around the clock's epoch
    W& w = add(X, 0, m, future ? lim - off : past, R(4)); w.deadline = future ? INT64_MAX : INT64_MIN;
    if (future && X->ipc() && !X->native()) { delay = 30; setk = 1; notify_kind = 0; crt::spawn(setter, nullptr, "setter"); }
    setk = 1; notify_kind = 0; delay = 2;
    crt::note("%s %s d=%lld", X->name().c_str(), mname[m], (long long)w.d);
    int64_t t0 = crt::vnow(CLOCK_MONOTONIC);
    spawn_waiter(w); crt::run(ext_q); check_result(w);
    if (future && w.r.timeout) crt::fail("early-timeout", "%s of %s with the deadline %lld reported a timeout", mname[m], X->name().c_str(), (long long)w.d);
    if (!future && !w.r.timeout) crt::fail("late-return", "%s of %s with the deadline %lld did not time out", mname[m], X->name().c_str(), (long long)w.d);
    if (!future && crt::vnow(CLOCK_MONOTONIC) - t0 > 1000000) crt::fail("late-return", "%s of %s with the deadline %lld in the past slept %lld ns", mname[m], X->name().c_str(), (long long)w.d, (long long)(crt::vnow(CLOCK_MONOTONIC) - t0));
    if (!(X->ipc() && !X->native()) && w.futex > 12) crt::fail("busy-wait", "%s of %s with the deadline %lld made %llu system calls while nothing happened", mname[m], X->name().c_str(), (long long)w.d, (unsigned long long)w.futex);
    if (!future && w.futex + w.clocks > 12) crt::fail("late-return", "%s of %s with a deadline in the distant past made %llu calls", mname[m], X->name().c_str(), (unsigned long long)(w.futex + w.clocks));
    crt::add_metric(future ? "distant_future" : "distant_past", 1); crt::count_distinct(crt::mix(n % kinds.size() * 64 + m * 2 + future) ^ crt::mix(uint64_t(w.d)));
}

// ------------------------------------------------------------------ many (C12)
static std::vector<WBase*> mo; static std::vector<int> plan_left;
struct Nt { std::vector<int> which; };
static void many_notifier(void* a)
{
    Nt& t = *(Nt*)a;
    for (int i : t.which) { crt::label("change"); spin(10); mo[i]->set(1, R(3), R(3)); int cnt = 0; for (int j = 0; j < nw; ++j) cnt += ws[j].o == mo[i]; crt::label("notify"); if (R(2)) mo[i]->notify_all(); else for (int j = 0; j < cnt; ++j) mo[i]->notify_one(); }
}
static void choose_objects(int cnt)
{
    mo.clear(); std::vector<WBase*> pool; WBase* a = objs[R(unsigned(objs.size()))];
    if (R(3)) for (auto* o : objs) if (!o->ipc() && o->lockid && o->lockid == a->lockid) pool.push_back(o); // share one lock
    if (pool.size() < 2) for (auto* o : objs) pool.push_back(o);
    while (int(mo.size()) < cnt && !pool.empty()) { unsigned i = R(unsigned(pool.size())); mo.push_back(pool[i]); pool.erase(pool.begin() + i); }
    mo.erase(std::remove_if(mo.begin(), mo.end(), polls), mo.end()); if (mo.empty()) for (auto* o : objs) if (!polls(o)) { mo.push_back(o); break; }
    for (auto* o : mo) prep(o);
}
static Nt nts[4];
static void many(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 20000; p.fair_steps = 100000; faults(p, n, false); if (p.spurious_permille > 15) p.spurious_permille = 15; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    choose_objects(n % 5 == 0 ? 17 + R(24) : n % 5 == 1 ? 9 + R(8) : 2 + R(7)); int N = int(mo.size()); int maxw = 54;
    for (int i = 0; i < N; ++i) { int c = 1 + (R(4) == 0) + (R(8) == 0); for (int j = 0; j < c && nw < maxw; ++j) { int m = rand_method(); bool shortd = R(5) == 0 && m != M_WAIT; W& w = add(mo[i], 0, m, far_deadline(m), R(4)); if (shortd) set_deadline(w, R(20000)); } }
    std::vector<int> ord; for (int i = 0; i < nw; ++i) ord.insert(ord.begin() + R(unsigned(ord.size() + 1)), i); for (int i : ord) spawn_waiter(ws[i]);
    int nn = 1 + R(3); for (int i = 0; i < nn; ++i) nts[i].which.clear(); std::vector<int> oo; for (int i = 0; i < N; ++i) oo.insert(oo.begin() + R(unsigned(oo.size() + 1)), i); for (int i : oo) nts[R(nn)].which.push_back(i);
    bool late = R(2); static bool started; started = !late; static int s_nn; s_nn = nn;
    if (!late) for (int i = 0; i < nn; ++i) crt::spawn(many_notifier, &nts[i], "notifier");
    crt::run([] { if (started) return false; started = true; for (int i = 0; i < s_nn; ++i) crt::spawn(many_notifier, &nts[i], "notifier"); return true; });
    uint64_t locks = 0; std::vector<void const*> seen; for (auto* o : mo) if (o->lockid && std::find(seen.begin(), seen.end(), o->lockid) == seen.end()) { seen.push_back(o->lockid); ++locks; }
    for (int i = 0; i < nw; ++i) { check_result(ws[i]); }
    crt::add_metric("objects", N); crt::add_metric("distinct_locks", locks); crt::add_metric("waits", nw); crt::count_distinct(crt::mix(crt::schedule_hash() * 41 + N));
    if (n < 3) crt::sample("%d objects on %llu internal locks, %d waiters, %d notifiers, %s", N, (unsigned long long)locks, nw, nn, late ? "all blocked first" : "concurrent");
}
// one object at a time, everything else stays blocked: only its own waiters may depend on it
static std::vector<int> mq_order; static size_t mq_pos; static int mq_target;
static void mq_notify(void*) { crt::label("change"); X->set(1, R(3), R(3)); int cnt = pending(X); crt::label("notify"); if (R(2)) X->notify_all(); else for (int j = 0; j < cnt; ++j) X->notify_one(); }
static bool many_q()
{
    if (mq_target >= 0 && pending(mo[mq_target])) crt::fail("lost-wakeup", "%d waiters of %s (object %d of %d) did not return after it was changed and notified:%s", pending(mo[mq_target]), mo[mq_target]->name().c_str(), mq_target, int(mo.size()), crt::deadlock_state().c_str());
    if (mq_pos >= mq_order.size()) return false;
    mq_target = mq_order[mq_pos++]; X = mo[mq_target]; crt::spawn(mq_notify, nullptr, "notifier");
    // new waits begin while others end
    if (R(3) == 0 && mq_pos < mq_order.size() && nw < 40) { int j = mq_order[mq_pos + R(unsigned(mq_order.size() - mq_pos))]; int m = rand_method(); spawn_waiter(add(mo[j], 0, m, far_deadline(m), R(4))); }
    return true;
}
static void many_step(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 20000; p.fair_steps = 100000; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1; choose_objects(n % 2 ? 10 + R(9) : 2 + R(8)); int N = int(mo.size());
    mo.erase(std::remove_if(mo.begin(), mo.end(), [](WBase* o) { return o->ipc() && !o->native(); }), mo.end()); N = int(mo.size());
    for (int i = 0; i < N; ++i) { int c = 1 + (R(5) == 0); for (int j = 0; j < c && nw < 28; ++j) { int m = rand_method(); spawn_waiter(add(mo[i], 0, m, far_deadline(m), R(4))); } }
    mq_order.clear(); for (int i = 0; i < N; ++i) mq_order.insert(mq_order.begin() + R(unsigned(mq_order.size() + 1)), i); if (mq_order.size() > 14) mq_order.resize(14); mq_pos = 0; mq_target = -1;
    static std::vector<char> in; in.assign(mo.size(), 0); for (int i : mq_order) in[i] = 1;
    static bool rest; rest = false;
    crt::run([] { if (many_q()) return true; if (rest) return false; rest = true; bool any = false; for (size_t i = 0; i < mo.size(); ++i) if (pending(mo[i])) any = true; if (!any) return false; nts[0].which.clear(); for (size_t i = 0; i < mo.size(); ++i) if (!in[i]) nts[0].which.push_back(int(i)); mq_target = -1; crt::spawn(many_notifier, &nts[0], "last notifier"); return true; });
    for (int i = 0; i < nw; ++i) check_result(ws[i]);
    crt::add_metric("objects", N); crt::add_metric("waits", nw); crt::count_distinct(crt::mix(crt::schedule_hash() * 43 + N));
}

// ------------------------------------------------------------------ ipc (C13): two mappings of one memory
#ifndef NO_IPC
struct Pair { WBase *a, *b; }; static std::vector<Pair> pairs; static char *mapa, *mapb; static size_t map_used = 0;
template<class Acc> struct Second : WObj<Acc> { Second(char const* n, void* where, WObj<Acc>* first) : WObj<Acc>(n, where) { this->o = first; this->h = (Acc*)where; } WObj<Acc>* o; void init(int m) override { o->init(m); std::memcpy((void*)this->v, (void const*)o->v, sizeof this->v); } };
template<class Acc> static void reg_pair(char const* tn)
{
    map_used = (map_used + 63) & ~size_t(63); auto* a = new WObj<Acc>(tn, mapa + map_used); auto* b = new Second<Acc>(tn, mapb + map_used, a); map_used += sizeof(Acc); pairs.push_back(Pair{ a, b });
}
static void register_pairs()
{
    int fd = memfd_create("crt", 0); if (ftruncate(fd, 65536)) _exit(3);
    mapa = (char*)mmap((void*)0x310000000000ULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); mapb = (char*)mmap((void*)0x320000010000ULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    crt::alias_range(mapa, mapb, 65536);
    reg_pair<AccIpc<int32_t> >("int32"); reg_pair<AccIpcFlag>("flag"); reg_pair<AccIpc<uint64_t> >("uint64"); reg_pair<AccIpcRef<uint16_t> >("uint16"); reg_pair<AccIpc<uint8_t> >("uint8"); reg_pair<AccIpcRef<uint32_t> >("uint32"); reg_pair<AccIpc<float> >("float"); reg_pair<AccIpc<Bytes<3> > >("bytes3");
    reg_pair<AccIpc<bool> >("bool"); reg_pair<AccIpcRef<int64_t> >("int64"); reg_pair<AccIpc<E32> >("enum32"); reg_pair<AccIpc<int*> >("int*");
}
static WBase *PA, *PB;
static void ipc_setter(void*)
{
    spin(40); uint64_t l0 = crt::lib_accesses(); WBase* o = R(2) ? PA : PB; crt::label("change"); o->set(1, R(3), R(3)); WBase* q = R(2) ? PA : PB; crt::label("notify"); if (notify_kind == 0) q->notify_all(); else for (int i = 0; i < notify_kind; ++i) q->notify_one();
    if (crt::lib_accesses() != l0) crt::fail("private-state", "an operation on %s used process-private library state", o->name().c_str());
}
static void ipc_waiter(void* a)
{
    uint64_t l0 = crt::lib_accesses(), al = crt::st.allocs; waiter(a); W& w = *(W*)a; check_result(w); (void)al;
    if (crt::lib_accesses() != l0) crt::fail("private-state", "%s of %s used process-private library state", mname[w.m], w.o->name().c_str());
    if (w.r.timeout && w.t_ret < w.deadline) crt::fail("early-timeout", "%s of %s reported a timeout %lld ns before the deadline", mname[w.m], w.o->name().c_str(), (long long)(w.deadline - w.t_ret));
    if (!w.deadline && w.r.timeout) crt::fail("early-timeout", "%s of %s timed out 100 years early", mname[w.m], w.o->name().c_str());
}
static void ipc_wake(uint64_t n)
{
    crt::policy p = base(); faults(p, n, false); crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1; Pair& q = pairs[n % pairs.size()]; PA = q.a; PB = q.b; prep(PA); PB->init(0); PA->reset(0); X = PA;
    if (PB->get() != 0) crt::fail("mapping", "%s: the value differs through the second mapping", PA->name().c_str());
    int k = 1 + R(4); notify_kind = R(2) ? 0 : k; for (int i = 0; i < k; ++i) { int m = rand_method(); W& w = add(R(2) ? PA : PB, 0, m, far_deadline(m), R(4)); if (m != M_WAIT && R(5) == 0) { set_deadline(w, R(3000)); } crt::spawn(ipc_waiter, &w, "waiter"); }
    crt::spawn(ipc_setter, nullptr, "setter"); crt::run();
    int first = nw; // a change through the second mapping is seen by the first
    if (PA->get() != 1 || PB->get() != 1) crt::fail("mapping", "%s: a change is not visible through both mappings", PA->name().c_str()); (void)first;
    crt::add_metric("waits", nw); crt::count_distinct(crt::mix(crt::schedule_hash() * 47 + n % pairs.size()));
    if (n < 3) crt::sample("%s mapped twice: %d waiters, first %s through mapping %c", PA->name().c_str(), k, mname[ws[0].m], ws[0].o == PA ? 'A' : 'B');
}
#endif

// ------------------------------------------------------------------ oom (C14)
static void oom(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 20000; p.fair_steps = 100000; faults(p, n, false); if (p.spurious_permille > 15) p.spurious_permille = 15; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    switch (n % 4) { case 0: crt::fail_allocs(1ull << R(6)); break; case 1: crt::fail_allocs(uint64_t(R(256)) << R(4)); break; case 2: crt::fail_allocs(~0ull); break; default: crt::fail_allocs_pct(20 + R(70)); }
    choose_objects(2 + R(8)); int N = int(mo.size());
    for (int i = 0; i < N; ++i) { int c = 1 + R(2); for (int j = 0; j < c && nw < 24; ++j) { int m = rand_method(); bool shortd = R(3) == 0 && m != M_WAIT && m != M_SYSSEC; W& w = add(mo[i], 0, m, far_deadline(m), R(4)); if (shortd) set_deadline(w, R(20000)); spawn_waiter(w); } }
    int nn = 1 + R(2); for (int i = 0; i < nn; ++i) nts[i].which.clear(); for (int i = 0; i < N; ++i) nts[R(nn)].which.push_back(i); for (int i = 0; i < nn; ++i) crt::spawn(many_notifier, &nts[i], "notifier");
    uint64_t af0 = crt::st.alloc_fail; crt::run(); uint64_t failed = crt::st.alloc_fail - af0;
    for (int i = 0; i < nw; ++i) { check_result(ws[i]); W& w = ws[i]; if (w.r.timeout && (!w.deadline || w.t_ret < w.deadline)) crt::fail("early-timeout", "%s of %s reported a timeout before the deadline (after failed allocations)", mname[w.m], w.o->name().c_str()); }
    // memory is back: waits block again instead of polling, nothing stays locked
    crt::fail_allocs(0); crt::fail_allocs_pct(0); crt::set_faults(false);
    for (auto* o : mo) { if (o->ipc()) continue; X = o; int cur = X->get(); W& w = add(X, cur, M_WAIT, 0, 3); spawn_waiter(w); setk = cur ? 0 : 1; notify_kind = 0; delay = 0; static bool go; go = false; uint64_t s0 = crt::st.sleeps; crt::run([] { if (go) return false; go = true; crt::spawn(setter, nullptr, "setter"); return true; }); check_result(w); if (crt::st.sleeps != s0) crt::fail("still-polling", "after memory became available again a wait on %s still polls", X->name().c_str()); if (nw >= 40) break; }
    crt::add_metric("waits", nw); crt::add_metric("failed_allocations", failed); if (failed) crt::count_distinct(crt::mix(crt::schedule_hash() * 53 + N));
    if (n < 4) crt::sample("%d objects, %d waits, %llu failed allocations", N, nw, (unsigned long long)failed);
}

// ------------------------------------------------------------------ memory (C15)
// rounds of waits on a fixed set of objects: memory must not grow after the first round; everything is released at exit
static void round_of_waits(std::vector<WBase*> const& set, int per)
{
    static std::vector<WBase*> cur; cur = set; int first = nw; nw = 0; (void)first;
    for (auto* o : set) { o->reset(0); for (int j = 0; j < per; ++j) { int m = rand_method(); spawn_waiter(add(o, 0, m, far_deadline(m), R(4))); } }
    static bool go; go = false;
    crt::run([] { if (go) return false; go = true; nts[0].which.clear(); for (size_t i = 0; i < cur.size(); ++i) nts[0].which.push_back(int(i)); mo = cur; crt::spawn(many_notifier, &nts[0], "notifier"); return true; });
    for (int i = 0; i < nw; ++i) check_result(ws[i]);
}
static void run_exit(void*) { auto& v = crt::lib_atexit(); for (size_t i = v.size(); i; --i) { crt::label("exit-time cleanup"); v[i - 1](); } }
static std::vector<WBase*> waiting_set(int cnt, bool share)
{
    std::vector<WBase*> r; WBase* a; int guard = 0; do a = objs[R(unsigned(objs.size()))]; while ((!a->lockid || a->ipc()) && ++guard < 200);
    for (int t = 0; t < 400 && int(r.size()) < cnt; ++t) { WBase* o = objs[R(unsigned(objs.size()))]; if (o->ipc() || !o->lockid || (share && o->lockid != a->lockid) || std::find(r.begin(), r.end(), o) != r.end()) continue; r.push_back(o); }
    return r;
}
static void mem(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 60000; p.fair_steps = 100000; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    int cnt = 1 + R(6); std::vector<WBase*> s = waiting_set(cnt, R(2)); if (s.empty()) return; for (auto* o : s) prep(o);
    int per = 1 + R(2); if (int(s.size()) * per > 14) per = 1;
    round_of_waits(s, per); int64_t b1 = crt::lib_live_bytes(), k1 = crt::lib_live_blocks(); if (crt::lib_max_live_bytes() > 0) crt::add_metric("rounds_with_memory", 1);
    int rounds = 3; int64_t kmax = k1;
    for (int r = 0; r < rounds && (r + 2) * (int(s.size()) * per + 1) < 60; ++r) { if (R(2)) std::reverse(s.begin(), s.end()); round_of_waits(s, per); kmax = std::max(kmax, crt::lib_live_blocks()); if (crt::lib_live_bytes() > b1 || crt::lib_live_blocks() > k1) crt::fail("memory-growth", "repeating the same waits on %d objects raised the library's memory from %lld bytes in %lld blocks to %lld bytes in %lld blocks", int(s.size()), (long long)b1, (long long)k1, (long long)crt::lib_live_bytes(), (long long)crt::lib_live_blocks()); }
    if (b1 > int64_t(s.size()) * 4096) crt::fail("memory-growth", "waiting on %d objects made the library keep %lld bytes", int(s.size()), (long long)b1);
    crt::spawn(run_exit, nullptr, "exit"); crt::run();
    if (crt::lib_live_blocks() != 0) crt::fail("leak", "%lld blocks (%lld bytes) are still allocated after exit-time cleanup with no waiters", (long long)crt::lib_live_blocks(), (long long)crt::lib_live_bytes());
    crt::add_metric("blocks_seen", k1); crt::count_distinct(crt::mix(crt::schedule_hash() * 59 + s.size()));
    if (n < 3) crt::sample("%d objects, %d waiters each: %lld bytes in %lld blocks after the first round, unchanged after %d more, 0 after cleanup", int(s.size()), per, (long long)b1, (long long)k1, rounds);
}
// different objects one after the other on one lock: memory as for one object
static void mem_seq(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 60000; p.fair_steps = 100000; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    std::vector<WBase*> s = waiting_set(8, true); if (s.size() < 2) return; for (auto* o : s) prep(o);
    round_of_waits({ s[0] }, 1); int64_t b1 = crt::lib_live_bytes();
    for (size_t i = 1; i < s.size(); ++i) { round_of_waits({ s[i] }, 1); if (crt::lib_live_bytes() > b1) crt::fail("memory-growth", "waits on %zu different objects one after the other raised the library's memory from %lld to %lld bytes", i + 1, (long long)b1, (long long)crt::lib_live_bytes()); }
    crt::spawn(run_exit, nullptr, "exit"); crt::run(); if (crt::lib_live_blocks() != 0) crt::fail("leak", "%lld blocks are still allocated after exit-time cleanup", (long long)crt::lib_live_blocks());
    crt::count_distinct(crt::mix(crt::schedule_hash() * 61 + s.size()));
}
// cleanup while threads wait, notify and start new waits
static bool* exit_late; static void exit_notifier(void* a) { while (exit_late && !*exit_late) crt::yield(); if (exit_late) spin(60); many_notifier(a); }
static void mem_exit(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 20000; p.fair_steps = 100000; faults(p, n, false); if (p.spurious_permille > 15) p.spurious_permille = 15; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    std::vector<WBase*> s = waiting_set(1 + R(6), R(3) != 0); if (s.empty()) return; for (auto* o : s) prep(o); mo = s; int N = int(mo.size());
    // something registers the cleanup first
    std::vector<WBase*> one(1, s[0]); round_of_waits(one, 1); s[0]->reset(0); mo = s; nw = 0;
    if (R(4) == 0) crt::fail_allocs_pct(30);
    for (int i = 0; i < N; ++i) { int c = 1 + R(2); for (int j = 0; j < c && nw < 16; ++j) { int m = rand_method(); W& w = add(mo[i], 0, m, far_deadline(m), R(4)); if (m != M_WAIT && m != M_SYSSEC && R(4) == 0) set_deadline(w, R(20000)); spawn_waiter(w); } }
    int nn = 1 + R(2); for (int i = 0; i < nn; ++i) nts[i].which.clear(); for (int i = 0; i < N; ++i) nts[R(nn)].which.push_back(i);
    static bool late, exit_done; late = R(2); exit_done = false; for (int i = 0; i < nn; ++i) crt::spawn(exit_notifier, &nts[i], "notifier");
    crt::spawn([](void*) { spin(80); run_exit(nullptr); exit_done = true; }, nullptr, "exit"); exit_late = late ? &exit_done : nullptr;
    crt::run();
    for (int i = 0; i < nw; ++i) check_result(ws[i]);
    crt::fail_allocs_pct(0);
    // atomics are still usable after cleanup, and what is allocated then is released again
    std::vector<WBase*> two(s.begin(), s.begin() + std::min<size_t>(2, s.size())); round_of_waits(two, 2);
    if (crt::lib_live_blocks() != 0) crt::fail("leak", "%lld blocks (%lld bytes) are still allocated after exit-time cleanup and the end of all waits", (long long)crt::lib_live_blocks(), (long long)crt::lib_live_bytes());
    crt::add_metric("waits", nw); crt::count_distinct(crt::mix(crt::schedule_hash() * 67 + N)); if (n < 2) crt::sample("cleanup concurrent with waits on %d objects, %s", N, late ? "notified after cleanup" : "notified meanwhile");
}

// ------------------------------------------------------------------ progress (C16)
static int prog_n; static void prog_worker(void*) { for (int i = 0; i < prog_n; ++i) { WBase* o = mo[R(unsigned(mo.size()))]; switch (R(6)) { case 0: crt::label("store"); o->set(R(3), 0, 2); break; case 1: crt::label("exchange"); o->set(R(3), 1, 2); break; case 2: crt::label("load"); o->load(3); break; case 3: crt::label("cas"); o->rmw_touch(); break; case 4: crt::label("notify_all"); o->notify_all(); break; default: crt::label("notify_one"); o->notify_one(); } } }
static void prog_throw(void*) { for (int i = 0; i < 3; ++i) { WBase* o = mo[R(unsigned(mo.size()))]; throw_after = R(4); crt::label("wait_until(throwing clock)"); Res r = o->wait(o->load(3) & 1, M_THROW, crt::vnow(CK_THROW) + R(5000), 3); crt::add_metric(r.threw ? "clock_exceptions" : "no_exception", 1); throw_after = -1; } }
static void prog_timed(void*) { for (int i = 0; i < 4; ++i) { WBase* o = mo[R(unsigned(mo.size()))]; int m; do m = rand_method(); while (m == M_WAIT || m == M_SYSSEC); W w; std::memset((void*)&w, 0, sizeof w); w.o = o; w.m = m; set_deadline(w, R(3000)); crt::label(mname[m]); o->wait(o->load(3) & 1, m, w.d, R(4)); } }
static bool prog_sleeper_done; static void prog_sleeper(void*) { crt::label("wait"); Y->wait(0, M_WAIT, 0, 3); prog_sleeper_done = true; }
static void progress(uint64_t n)
{
    crt::policy p = base(); p.step_limit = 20000; p.fair_steps = 60000; faults(p, n, false); p.plain_switch_pct = (n & 1) ? 10 : 0; crt::begin(p, crt::exec_seed()); nw = 0; throw_after = -1;
    std::vector<WBase*> s = waiting_set(1 + R(4), R(4) != 0); if (s.empty()) return; for (auto* o : s) prep(o); mo = s; Y = nullptr; prog_sleeper_done = true;
    if (mo.size() > 1 && R(2)) { Y = mo.back(); mo.pop_back(); prog_sleeper_done = false; crt::spawn(prog_sleeper, nullptr, "sleeper"); if (R(2)) crt::spawn(prog_sleeper, nullptr, "sleeper 2"); }
    prog_n = 3 + R(8); int k = 2 + R(5); for (int i = 0; i < k; ++i) crt::spawn(prog_worker, nullptr, "worker"); if (R(2)) crt::spawn(prog_throw, nullptr, "thrower"); if (R(2)) crt::spawn(prog_timed, nullptr, "timed");
    if (!Y && R(3) == 0) crt::fail_allocs_pct(30);
    static bool go; go = false;
    crt::run([] { if (go || !Y || prog_sleeper_done) return false; for (int i = 1; i < 3; ++i) {} go = true; crt::spawn([](void*) { Y->set(1, 0, 2); Y->notify_all(); }, nullptr, "release sleeper"); return true; });
    // every lock is free: each object can be operated on, waited on and notified
    crt::set_faults(false); for (auto* o : s) { X = o; crt::spawn([](void*) { crt::label("final ops"); X->set(0, 0, 2); X->rmw_touch(); X->notify_all(); }, nullptr, "final"); crt::run(); }
    crt::count_distinct(crt::mix(crt::schedule_hash() * 71 + k)); crt::add_metric("workers", k);
    if (n < 3) crt::sample("%d workers with %d operations each on %zu objects%s", k, prog_n, mo.size(), Y ? ", a waiter on the same lock" : "");
}

// which internal lock does each object use?
static void probe(void*) { crt::reset_first_lib(); if (X->lock_free()) X->notify_one(); else X->load(3); X->lockid = crt::first_lib(); }
static void probe_all() { for (auto* o : objs) { crt::policy p = base(); crt::begin(p, 1); X = o; o->init(0); o->reset(0); reg_atomic(o); crt::spawn(probe, nullptr, "probe"); crt::run(); } }

int main(int argc, char** argv)
{
    crt::setup(argc, argv, "crt_waits"); register_all(); crt::ignore_harness_data();
    crt::set_scenario("probe"); probe_all();
    { std::vector<void const*> seen; uint64_t c = 0; for (auto* o : objs) if (o->lockid) { ++c; if (std::find(seen.begin(), seen.end(), o->lockid) == seen.end()) seen.push_back(o->lockid); } crt::add_metric("probed_objects", c); crt::add_metric("probed_locks", seen.size()); }
#ifndef NO_IPC
    register_pairs();
#endif
    uint64_t N = crt::opt.iters;
    crt::scenario("claims", N, claims); crt::scenario("wake", N, wake); crt::scenario("wake_one", N, wake_one); crt::scenario("ret", N, ret); crt::scenario("timed", N, timed); crt::scenario("extreme", N / 4, extreme);
    crt::scenario("many", N / 4, many); crt::scenario("many_step", N / 4, many_step);
#ifndef NO_IPC
    crt::scenario("ipc", N, ipc_wake);
#endif
    crt::scenario("oom", N / 2, oom); crt::scenario("mem", N / 4, mem); crt::scenario("mem_seq", N / 8, mem_seq); crt::scenario("mem_exit", N / 2, mem_exit); crt::scenario("progress", N, progress);
    return crt::finish();
}
