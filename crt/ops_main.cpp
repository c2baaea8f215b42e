// Controlled-runtime scenarios over the whole operation table: linearizability of every operation (lin), message
// passing through every release/acquire pair (mp, mpwait, mpfence), store buffering and IRIW with seq_cst (sb, iriw)
// and with fences (fence_sb).
#include "crt.h"
#include "../common/any.hpp"
#include <algorithm>
#ifndef GROUP
#define GROUP 0
#endif
#ifndef NO_IPC
#define IPC(X) X
#else
#define IPC(X)
#endif
using namespace ops;
static std::vector<AnyBase*> objs; // two of each kind: [2i], [2i+1]
template<class Acc> static void reg(char const* tn) { for (int i = 0; i < 2; ++i) objs.push_back(new (aligned_alloc(64, (sizeof(Any<Acc>) + 63) & ~size_t(63))) Any<Acc>(tn)); }
static void register_all()
{
#if GROUP == 0 || GROUP == 1
    reg<AccAtomic<uint8_t> >("uint8"); reg<AccRef<int16_t> >("int16"); reg<AccAtomic<int32_t> >("int32"); reg<AccFlag>("flag"); reg<AccRef<uint64_t> >("uint64");
#endif
#if GROUP == 0 || GROUP == 2
    IPC(reg<AccIpc<uint32_t> >("uint32");) reg<AccAtomic<double> >("double"); reg<AccAtomic<int*> >("int*"); IPC(reg<AccIpcFlag>("flag");) reg<AccAtomic<E32> >("enum32"); IPC(reg<AccIpcRef<uint16_t> >("uint16");) reg<AccAtomic<int64_t> >("int64");
#endif
#if GROUP == 0 || GROUP == 3
    reg<AccAtomic<i128> >("int128"); reg<AccAtomic<Bytes<3> > >("bytes3"); reg<AccRef<Bytes<3> > >("bytes3"); reg<AccAtomic<Bytes<24> > >("bytes24"); reg<AccAtomic<bool> >("bool"); reg<AccRef<float> >("float"); reg<AccAtomic<Pad5> >("pad5");
#endif
#if GROUP == 0 || GROUP == 4
    IPC(reg<AccIpc<uint64_t> >("uint64");) reg<AccAtomic<Words<5> > >("words5"); reg<AccRef<u128> >("uint128"); reg<AccAtomic<long double> >("longdouble"); reg<AccRef<Words<2> > >("words2"); reg<AccAtomic<S12*> >("s12*"); reg<AccRef<int8_t> >("int8"); reg<AccAtomic<E8> >("enum8");
#endif
}
static uint32_t R(uint32_t n) { return crt::rnd(n); }
static crt::policy base() { crt::policy p; p.weakfail_pct = 10; p.step_limit = 4000; p.fair_steps = 20000; return p; }
static AnyBase* X; static AnyBase* Y;
static std::vector<AnyBase*> cand; // objects taking part
static bool want_locked = true, want_lockfree = true;
static AnyBase* pick(unsigned k) { return cand[k % cand.size()]; }

// ------------------------------------------------------------------ lin
static uint64_t t_call[AnyBase::NS], t_ret[AnyBase::NS]; static int lin_n, lin_per[4];
static void do_slot(AnyBase* x, int s) { crt::label(x->slot_info(s).name); t_call[s] = crt::stamp(); x->run(s); t_ret[s] = crt::stamp(); }
static void lin_thread(void* a) { int th = int(intptr_t(a)), s = 0; for (int i = 0; i < th; ++i) s += lin_per[i]; for (int i = 0; i < lin_per[th]; ++i) do_slot(X, s + i); }
static void bystander(void* a) // unrelated object sharing an internal lock
{
    AnyBase* y = (AnyBase*)a; for (int i = 0; i < 2; ++i) { crt::label("bystander"); y->run(20); y->notify_all(); y->run(21); }
}
static bool any_op(Info const& i) { return true; }
static bool mod_op(Info const& i) { return (i.cls & C_MOD) != 0; }
static void lin(uint64_t n)
{
    crt::policy p = base(); p.plain_switch_pct = (n & 1) ? 60 : 0; crt::begin(p, crt::exec_seed());
    X = pick(n); X->reset(R); crt::register_atomic(X->mem(), X->lock_free() ? X->size() : 1);
    int th = 2 + R(2); lin_n = 0; for (int i = 0; i < th; ++i) { lin_per[i] = 1 + R(th == 2 ? 4 : 3); lin_n += lin_per[i]; }
    for (int s = 0; s < lin_n; ++s) X->choose(s, R(4) ? mod_op : any_op, R);
    for (int i = 0; i < th; ++i) crt::spawn(lin_thread, (void*)(intptr_t)i, "op");
    Y = nullptr; if (!X->lock_free() && R(2)) { for (unsigned k = R(unsigned(objs.size())), j = 0; j < objs.size(); ++j) { AnyBase* y = objs[(k + j) % objs.size()]; if (y != X && !y->lock_free()) { Y = y; break; } } if (Y) { Y->reset(R); Y->choose(20, mod_op, R); Y->choose(21, any_op, R); crt::spawn(bystander, Y, "bystander"); } }
    crt::run();
    crt::count_distinct(crt::mix(X->outcome_hash(lin_n) ^ crt::schedule_hash()));
    crt::add_metric("ops", lin_n); crt::add_metric(X->lock_free() ? "histories_lockfree" : "histories_locked", 1);
    if (n < 4) { std::string s = X->name(); for (int i = 0; i < lin_n; ++i) s += "; " + X->slot_text(i) + "->" + X->slot_result(i); crt::sample("%s", s.substr(0, 400).c_str()); }
    if (!X->linearizable(lin_n, t_call, t_ret, true))
    {
        std::string s = X->name() + " init=" + X->init_text() + " final=" + X->final_text(); int k = 0;
        for (int t = 0; t < th; ++t) for (int i = 0; i < lin_per[t]; ++i, ++k) s += " | T" + std::to_string(t) + " [" + std::to_string(t_call[k]) + "," + std::to_string(t_ret[k]) + "] " + X->slot_text(k) + " -> " + X->slot_result(k);
        crt::fail("not-linearizable", "no order of the operations explains the results: %s", s.c_str());
    }
}

// ------------------------------------------------------------------ message passing
static int d1, d2, d3; static long big[3]; static int ack; static bool published, consumed; static int use_chain, use_fence, wait_order; static int fence_rel, fence_acq; static unsigned attempts;
static bool pub_rel(Info const& i) { return (i.cls & C_MOD) && i.release(); }
static bool pub_rlx(Info const& i) { return (i.cls & C_MOD) && i.relaxed(); }
static bool acq_any(Info const& i) { return (i.cls & C_RES) && (i.acquire() || i.facquire()); }
static bool acq_rlx(Info const& i) { return (i.cls & C_RES) && i.relaxed(); }
static bool rmw(Info const& i) { return (i.cls & C_MOD) && !(i.cls & C_STORE); }
static void fence(int o)
{
    switch (o) { case 0: boost::atomic_thread_fence(boost::memory_order_release); break; case 1: boost::atomic_thread_fence(boost::memory_order_acq_rel); break; case 2: boost::atomic_thread_fence(boost::memory_order_seq_cst); break;
    case 3: boost::atomic_thread_fence(boost::memory_order_acquire); break; case 4: boost::atomic_thread_fence(boost::memory_order_consume); break; }
}
static bool done_cas(AnyBase* x, int s) { return !(x->slot_info(s).cls & C_CAS) || x->slot_flag(s); }
static void mp_writer(void*)
{
    int seen = ack; (void)seen; d1 = 41; big[0] = 1; big[2] = 3; d2 = 42;
    if (use_fence) { crt::label("release fence"); fence(fence_rel); }
    for (int i = 0; i < 6; ++i) { crt::label(X->slot_info(0).name); X->run(0); if (done_cas(X, 0)) { published = true; break; } }
    if (wait_order >= 0) { crt::label("notify_all"); X->notify_all(); }
}
static void mp_chain(void*) { crt::label(X->slot_info(1).name); X->run(1); }
static void mp_read()
{
    consumed = true; crt::label("reading published data");
    if (d1 != 41 || big[0] != 1 || big[2] != 3 || d2 != 42) crt::fail("stale-data", "published data not visible: %d %ld %ld %d", d1, big[0], big[2], d2);
    ack = 1; crt::add_metric("synchronized", 1);
}
static void mp_reader(void*)
{
    if (wait_order >= 0) { crt::label("wait"); X->wait(wait_order); if (use_fence) fence(fence_acq); mp_read(); return; }
    for (unsigned k = 0; k < attempts; ++k)
    {
        crt::label(X->slot_info(2).name); X->run(2); Info i = X->slot_info(2);
        if (k > 0 && (i.cls & C_MOD)) return;
        static const int s0[] = { 0 }, s01[] = { 0, 1 }, s10[] = { 1, 0 }, s1[] = { 1 };
        bool with = X->explains(2, s0, 1) || (use_chain && (X->explains(2, s01, 2) || X->explains(2, s10, 2)));
        bool without = X->explains(2, nullptr, 0) || (use_chain && X->explains(2, s1, 1));
        bool suff = use_fence ? true : (i.cls & C_CAS) ? (X->slot_flag(2) ? i.acquire() : i.facquire()) : i.acquire();
        if (with && !without && suff) { if (use_fence) { crt::label("acquire fence"); fence(fence_acq); } mp_read(); return; }
        if (!with && !without && !use_chain && !(i.cls & C_WEAK)) crt::fail("impossible-value", "%s: result %s of %s is explained neither before nor after %s", X->name().c_str(), X->slot_result(2).c_str(), X->slot_text(2).c_str(), X->slot_text(0).c_str());
        if (i.cls & C_MOD) return; // the operation changed the object: no second look
    }
}
static void mp_common(uint64_t n, bool fences, bool waits)
{
    crt::policy p = base(); p.stale_pct = 40; p.plain_switch_pct = (n % 3) ? 0 : 20; p.asm_reads = fences; crt::begin(p, crt::exec_seed());
    X = pick(n); use_fence = fences; wait_order = -1; d1 = d2 = d3 = ack = 0; big[0] = big[1] = big[2] = 0; published = consumed = false; attempts = 1 + R(8);
    for (int tries = 0;; ++tries)
    {
        X->reset(R); use_chain = !waits && R(3) == 0;
        X->choose(0, fences ? pub_rlx : pub_rel, R); X->choose(2, fences ? acq_rlx : acq_any, R); if (use_chain) X->choose(1, rmw, R);
        static const int s0[] = { 0 };
        if (waits) { X->choose(2, [](Info const& i) { return (i.cls & C_LOAD) != 0; }, R); }
        if (X->distinguishes(2, s0, 1, nullptr, 0)) break;
        if (tries > 200) { crt::add_metric("skipped", 1); return; }
    }
    if (waits) { static const int o[] = { int(boost::memory_order_consume), int(boost::memory_order_acquire), int(boost::memory_order_seq_cst) }; wait_order = fences ? int(boost::memory_order_relaxed) : o[R(3)]; }
    fence_rel = R(3); fence_acq = 1 + R(4);
    crt::register_atomic(X->mem(), X->lock_free() ? X->size() : 1);
    crt::note("%s writer %s", X->name().c_str(), X->slot_text(0).c_str()); crt::note("reader %s chain %s", X->slot_text(2).c_str(), use_chain ? X->slot_text(1).c_str() : "-");
    crt::spawn(mp_writer, nullptr, "writer"); if (use_chain) crt::spawn(mp_chain, nullptr, "chain"); crt::spawn(mp_reader, nullptr, "reader");
    crt::run([] { if (wait_order >= 0 && !published) { crt::set_faults(false); } return false; });
    if (consumed) crt::count_distinct(crt::mix(X->outcome_hash(3) ^ crt::schedule_hash()));
    if (n < 3) crt::sample("%s: %s -> %s; consumed=%d", X->name().c_str(), X->slot_text(0).c_str(), X->slot_text(2).c_str(), int(consumed));
}

// ------------------------------------------------------------------ store buffering, IRIW
static bool sc_mod(Info const& i) { return (i.cls & C_MOD) && i.seq_cst(); }
static bool sc_res(Info const& i) { return (i.cls & C_RES) && i.seq_cst(); }
static bool sc_load(Info const& i) { return (i.cls & C_RES) && i.seq_cst() && !(i.cls & (C_WEAK)); }
static bool any_mod(Info const& i) { return (i.cls & C_MOD) && !(i.cls & C_WEAK); }
static bool any_load(Info const& i) { return (i.cls & C_LOAD) != 0; }
static int sb_fence;
static void sb_thread(void* a)
{
    int t = int(intptr_t(a)); AnyBase* w = t ? Y : X; AnyBase* r = t ? X : Y;
    crt::label(w->slot_info(0).name); for (int k = 0; k < 8; ++k) { w->run(0); if (done_cas(w, 0)) break; }
    if (sb_fence) { crt::label("seq_cst fence"); boost::atomic_thread_fence(boost::memory_order_seq_cst); }
    crt::label(r->slot_info(1).name); r->run(1);
}
static bool missed(AnyBase* x, int s) { static const int s0[] = { 0 }; return x->explains(s, nullptr, 0) && !x->explains(s, s0, 1); }
static bool setup_pair(Pred w, Pred r, int nread, bool readonly)
{
    static const int s0[] = { 0 };
    for (AnyBase* x : { X, Y })
        for (int tries = 0;; ++tries)
        {
            x->reset(R); x->choose(0, w, R); bool ok = true;
            for (int k = 1; k <= nread; ++k) { x->choose(k, r, R); ok = ok && x->distinguishes(k, s0, 1, nullptr, 0); (void)readonly; }
            if (ok && !(x->slot_info(0).cls & C_WEAK)) break; if (tries > 400) return false;
        }
    for (AnyBase* x : { X, Y }) crt::register_atomic(x->mem(), x->lock_free() ? x->size() : 1);
    crt::note("X=%s %s / %s", X->name().c_str(), X->slot_text(0).c_str(), X->slot_text(1).c_str()); crt::note("Y=%s %s / %s", Y->name().c_str(), Y->slot_text(0).c_str(), Y->slot_text(1).c_str());
    return true;
}
static void pick_xy(uint64_t n) { X = pick(n); do { Y = pick(R(unsigned(cand.size()))); } while (Y == X && cand.size() > 1); }
static void sb(uint64_t n, bool fenced)
{
    crt::policy p = base(); p.stale_pct = 60; crt::begin(p, crt::exec_seed()); pick_xy(n); sb_fence = fenced;
    if (!setup_pair(fenced ? any_mod : sc_mod, fenced ? any_load : sc_res, 1, false)) { crt::add_metric("skipped", 1); return; }
    crt::spawn(sb_thread, (void*)0, "t0"); crt::spawn(sb_thread, (void*)1, "t1"); crt::run();
    if (!(X->slot_info(0).cls & C_CAS) || X->slot_flag(0)) if (!(Y->slot_info(0).cls & C_CAS) || Y->slot_flag(0))
    {
        crt::count_distinct(crt::mix(X->outcome_hash(2) * 3 ^ Y->outcome_hash(2) ^ crt::schedule_hash()));
        crt::add_metric(missed(X, 1) ? "one_missed" : missed(Y, 1) ? "one_missed" : "none_missed", 1);
        if (missed(X, 1) && missed(Y, 1))
            crt::fail("store-buffering", "both threads missed the other's %s: X=%s: %s, read by %s -> %s; Y=%s: %s, read by %s -> %s", fenced ? "store before a seq_cst fence" : "seq_cst modification", X->name().c_str(), X->slot_text(0).c_str(), X->slot_text(1).c_str(), X->slot_result(1).c_str(),
                Y->name().c_str(), Y->slot_text(0).c_str(), Y->slot_text(1).c_str(), Y->slot_result(1).c_str());
    }
}
static void iriw_w(void* a) { AnyBase* w = a ? Y : X; crt::label(w->slot_info(0).name); w->run(0); }
static void iriw_r(void* a) { bool second = a != nullptr; AnyBase* p = second ? Y : X; AnyBase* q = second ? X : Y; int sp = second ? 2 : 1, sq = second ? 2 : 1; crt::label(p->slot_info(sp).name); p->run(sp); crt::label(q->slot_info(sq).name); q->run(sq); }
static bool seen(AnyBase* x, int s) { static const int s0[] = { 0 }; return !x->explains(s, nullptr, 0) && x->explains(s, s0, 1); }
static void iriw(uint64_t n)
{
    crt::policy p = base(); p.stale_pct = 60; crt::begin(p, crt::exec_seed()); pick_xy(n);
    if (!setup_pair(sc_mod, [](Info const& i) { return (i.cls & C_LOAD) && i.seq_cst(); }, 2, true)) { crt::add_metric("skipped", 1); return; }
    crt::spawn(iriw_w, (void*)0, "wx"); crt::spawn(iriw_w, (void*)1, "wy"); crt::spawn(iriw_r, (void*)0, "r1"); crt::spawn(iriw_r, (void*)1, "r2"); crt::run();
    crt::count_distinct(crt::mix(X->outcome_hash(3) * 3 ^ Y->outcome_hash(3) ^ crt::schedule_hash()));
    // reader 1 (slot 1): X then Y; reader 2 (slot 2): Y then X
    if (seen(X, 1) && missed(Y, 1)) crt::add_metric("r1_x_before_y", 1);
    if (seen(X, 1) && missed(Y, 1) && seen(Y, 2) && missed(X, 2))
        crt::fail("iriw", "two readers saw two seq_cst modifications in opposite orders: X=%s %s, Y=%s %s; %s %s", X->name().c_str(), X->slot_text(0).c_str(), Y->name().c_str(), Y->slot_text(0).c_str(), X->slot_text(1).c_str(), Y->slot_text(1).c_str());
}
static void select(bool locked, bool lockfree) { cand.clear(); for (auto* o : objs) if (o->lock_free() ? lockfree : locked) cand.push_back(o); }

int main(int argc, char** argv)
{
    crt::setup(argc, argv, "crt_ops"); register_all();
    uint64_t N = crt::opt.iters;
    select(false, true); if (!cand.empty()) crt::scenario("lin_lockfree", N, lin);
    select(true, false); if (!cand.empty()) crt::scenario("lin_locked", N, lin);
    select(true, true);
    crt::scenario("mp", N, [](uint64_t n) { mp_common(n, false, false); });
    crt::scenario("mpwait", N / 2, [](uint64_t n) { mp_common(n, false, true); });
    crt::scenario("mpfence", N, [](uint64_t n) { mp_common(n, true, false); });
    crt::scenario("mpwaitfence", N / 4, [](uint64_t n) { mp_common(n, true, true); });
    crt::scenario("sb", N, [](uint64_t n) { sb(n, false); });
    crt::scenario("fence_sb", N, [](uint64_t n) { sb(n, true); });
    crt::scenario("iriw", N, iriw);
    return crt::finish();
}
