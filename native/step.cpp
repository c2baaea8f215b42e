// Single-steps one operation (processor trap flag) and, between any two of its instructions, lets a signal handler look
// at the object, its neighbours and the surrounding data, or run other operations on the same object. Everything is the
// machine code the user's compiler produced from the real headers, so every compiler reordering, tearing, missing lock
// prefix, too wide access and signal-unsafety is visible at a definite instruction.
namespace stp { extern int D1, D3, D4, D5, P1, Q1, S1; }
#define OPS_PRE stp::P1 = stp::D4; stp::Q1 = stp::D3; stp::D1 = 1
#define OPS_POST stp::D1 = 2; stp::S1 = stp::D3; stp::D5 = 1
#include "../common/any.hpp"
#include "../common/drv.hpp"
#include <csignal>
#include <ucontext.h>
#include <new>
#ifndef GROUP
#define GROUP 0
#endif
#ifndef NO_IPC
#define IPC(X) X
#else
#define IPC(X)
#endif
using namespace ops;
namespace stp { int D1, D3, D4, D5, P1, Q1, S1; }
using namespace stp;
using drv::rnd; using drv::fail;
extern "C" { extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)), __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)); }

#ifdef OPS_STATIC // objects with static storage: the compiler knows their address, and that other objects are elsewhere
#define NB_CELL(NAME, DECL, INIT) struct Cell { unsigned char pre[64]; DECL; unsigned char post[64]; Cell() INIT {} }; alignas(64) static inline Cell cell;
#define NB cell.obj
#else
#define NB_CELL(NAME, DECL, INIT) unsigned char pre[64]; DECL; unsigned char post[64]; NAME() INIT {}
#define NB obj
#endif

// objects between neighbouring bytes
template<class TT> struct NbAtomic { typedef TT T; typedef boost::atomic<T> W; static char const* wname() { return "atomic"; } static constexpr bool ipc = false, ref = false; NB_CELL(NbAtomic, W obj, : obj(T())) W& get() { return NB; } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
template<class TT> struct NbVol { typedef TT T; typedef boost::atomic<T> W; static char const* wname() { return "volatile atomic"; } static constexpr bool ipc = false, ref = false; NB_CELL(NbVol, W obj, : obj(T())) W volatile& get() { return NB; } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
template<class TT> struct NbRef { typedef TT T; typedef boost::atomic_ref<T> W; static char const* wname() { return "atomic_ref"; } static constexpr bool ipc = false, ref = true; NB_CELL(NbRef, alignas(W::required_alignment) T obj, : obj()) W get() { return W(NB); } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
#ifndef NO_IPC
template<class TT> struct NbIpc { typedef TT T; typedef boost::ipc_atomic<T> W; static char const* wname() { return "ipc_atomic"; } static constexpr bool ipc = true, ref = false; NB_CELL(NbIpc, W obj, : obj(T())) W& get() { return NB; } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
template<class TT> struct NbIpcRef { typedef TT T; typedef boost::ipc_atomic_ref<T> W; static char const* wname() { return "ipc_atomic_ref"; } static constexpr bool ipc = true, ref = true; NB_CELL(NbIpcRef, alignas(W::required_alignment) T obj, : obj()) W get() { return W(NB); } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
struct NbIpcFlag { typedef bool T; typedef boost::ipc_atomic_flag W; static char const* wname() { return "ipc_atomic_flag"; } static constexpr bool ipc = true, ref = false; NB_CELL(NbIpcFlag, W obj, ) W& get() { return NB; } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
#endif
struct NbFlag { typedef bool T; typedef boost::atomic_flag W; static char const* wname() { return "atomic_flag"; } static constexpr bool ipc = false, ref = false; NB_CELL(NbFlag, W obj, ) W& get() { return NB; } void* mem() { return &NB; } size_t size() { return sizeof(NB); } };
namespace ops {
template<> struct table_of<NbFlag> { static Table<NbFlag> make() { return make_flag_table<NbFlag>(); } };
template<> inline void poke<NbFlag>(NbFlag& h, bool const& v) { if (v) h.get().test_and_set(boost::memory_order_relaxed); else h.get().clear(boost::memory_order_relaxed); }
template<> inline bool peek<NbFlag>(NbFlag& h) { return h.get().test(boost::memory_order_relaxed); }
#ifndef NO_IPC
template<> struct table_of<NbIpcFlag> { static Table<NbIpcFlag> make() { return make_flag_table<NbIpcFlag>(); } };
template<> inline void poke<NbIpcFlag>(NbIpcFlag& h, bool const& v) { if (v) h.get().test_and_set(boost::memory_order_relaxed); else h.get().clear(boost::memory_order_relaxed); }
template<> inline bool peek<NbIpcFlag>(NbIpcFlag& h) { return h.get().test(boost::memory_order_relaxed); }
#endif
template<class T> void any_wait(boost::atomic<T> volatile& a, T const& v, int) { a.wait(v); }
}

static std::vector<AnyBase*> objs;
template<class Acc> static void reg(char const* tn) { objs.push_back(new (aligned_alloc(64, (sizeof(Any<Acc>) + 63) & ~size_t(63))) Any<Acc>(tn)); }
static void register_all()
{
#if GROUP == 0 || GROUP == 1
    reg<NbAtomic<uint8_t> >("uint8"); reg<NbAtomic<int16_t> >("int16"); reg<NbFlag>("flag"); reg<NbAtomic<bool> >("bool"); reg<NbRef<Bytes<3> > >("bytes3"); reg<NbVol<uint32_t> >("uint32"); reg<NbRef<bool> >("bool");
#endif
#if GROUP == 0 || GROUP == 2
    reg<NbAtomic<int32_t> >("int32"); reg<NbAtomic<double> >("double"); reg<NbAtomic<int*> >("int*"); reg<NbRef<int8_t> >("int8"); reg<NbRef<double> >("double"); reg<NbAtomic<Bytes<3> > >("bytes3"); IPC(reg<NbIpcFlag>("flag");)
#endif
#if GROUP == 0 || GROUP == 3
    reg<NbAtomic<int64_t> >("int64"); reg<NbAtomic<i128> >("int128"); reg<NbAtomic<Pad5> >("pad5"); reg<NbRef<float> >("float"); reg<NbRef<int*> >("int*"); reg<NbRef<uint16_t> >("uint16"); reg<NbAtomic<Words<3> > >("words3");
#endif
#if GROUP == 0 || GROUP == 4
    IPC(reg<NbIpc<uint32_t> >("uint32");) reg<NbRef<u128> >("uint128"); reg<NbAtomic<E8> >("enum8"); reg<NbAtomic<Words<2> > >("words2"); IPC(reg<NbIpcRef<uint64_t> >("uint64");) reg<NbRef<E8> >("enum8"); reg<NbAtomic<long double> >("longdouble"); reg<NbRef<Bytes<24> > >("bytes24");
#endif
}
static AnyBase* X;
static uint32_t R(uint32_t n) { return rnd(n); }

// ------------------------------------------------------------------ stepping
static volatile int tracing; static void (*on_step)(unsigned char const* pc); static unsigned nstep; static unsigned char const* pc_now, *pc_prev; static unsigned const max_steps = 20000;
static char const* bad_kind; static char bad_msg[1500];
__attribute__((format(printf, 2, 3))) static void bad(char const* kind, char const* fmt, ...) { if (bad_kind) return; bad_kind = kind; va_list ap; va_start(ap, fmt); vsnprintf(bad_msg, sizeof bad_msg, fmt, ap); va_end(ap); }
static void on_trap(int, siginfo_t*, void* c)
{
    ucontext_t* u = (ucontext_t*)c; unsigned char const* pc = (unsigned char const*)u->uc_mcontext.gregs[REG_RIP];
    if (!tracing) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
    pc_prev = pc_now; pc_now = pc; ++nstep;
    if (nstep > max_steps) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; tracing = 0; return; }
    on_step(pc);
}
__attribute__((noinline)) static void stepped(AnyBase* x, int slot, void (*f)(unsigned char const*))
{
    on_step = f; nstep = 0; pc_now = pc_prev = nullptr; bad_kind = nullptr; tracing = 1;
    __asm__ __volatile__("lea -256(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 256(%%rsp), %%rsp" ::: "memory", "cc");
    x->run(slot);
    tracing = 0;
    __asm__ __volatile__("lea -256(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tlea 256(%%rsp), %%rsp" ::: "memory", "cc");
    drv::metric("instructions", nstep);
}
// x86: is the instruction at p a locked read-modify-write, or xchg?
static bool locked_insn(unsigned char const* p)
{
    bool lock = false; for (;; ++p) { if (*p == 0xf0) lock = true; else if (!(*p == 0x66 || *p == 0x67 || *p == 0x2e || *p == 0x36 || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0xf2 || *p == 0xf3)) break; }
    if ((*p & 0xf0) == 0x40) ++p; return lock || *p == 0x86 || *p == 0x87;
}
static bool is_syscall(unsigned char const* p) { return p && p[0] == 0x0f && p[1] == 0x05; }
static std::string insn(unsigned char const* p) { std::string r; char b[8]; for (int i = 0; p && i < 10; ++i) { snprintf(b, sizeof b, "%02x ", p[i]); r += b; } return r; }

static unsigned char snap[128], snap2[128], nb_pre[64], nb_post[64]; static size_t osz; static unsigned char* om;
static void fill_neighbours() { om = (unsigned char*)X->mem(); osz = X->size(); for (int i = 0; i < 64; ++i) { nb_pre[i] = (unsigned char)R(256); nb_post[i] = (unsigned char)R(256); } std::memcpy(om - 64, nb_pre, 64); std::memcpy(om + osz, nb_post, 64); }
static unsigned locked_total, changes; static bool rmw_class, lockfree; static std::vector<unsigned char> lib_snap; static bool lib_touched; static bool saw_syscall; static int post_first, d1_at_change, d4_set; static unsigned change_step;
static size_t lib_size() { size_t n = 0; if (__start_libbss) n += size_t(__stop_libbss - __start_libbss); if (__start_libdata) n += size_t(__stop_libdata - __start_libdata); return n; }
static bool lib_changed() { size_t a = __start_libbss ? size_t(__stop_libbss - __start_libbss) : 0, b = __start_libdata ? size_t(__stop_libdata - __start_libdata) : 0; return (a && std::memcmp(lib_snap.data(), __start_libbss, a)) || (b && std::memcmp(lib_snap.data() + a, __start_libdata, b)); }
static void lib_save() { size_t a = __start_libbss ? size_t(__stop_libbss - __start_libbss) : 0, b = __start_libdata ? size_t(__stop_libdata - __start_libdata) : 0; lib_snap.resize(a + b + 1); if (a) std::memcpy(lib_snap.data(), __start_libbss, a); if (b) std::memcpy(lib_snap.data() + a, __start_libdata, b); }
static bool done_cas(int s) { return !(X->slot_info(s).cls & C_CAS) || X->slot_flag(s); }
static size_t nops_total; static std::vector<std::pair<unsigned, unsigned> > work; // (object, op), for the objects of a scenario
static void make_work(bool lf, bool lk) { work.clear(); for (unsigned i = 0; i < objs.size(); ++i) if (objs[i]->lock_free() ? lf : lk) for (unsigned o = 0; o < objs[i]->nops(); ++o) work.push_back(std::make_pair(i, o)); }
static void pick(uint64_t n)
{
    // n runs over the table in an order that mixes objects
    size_t k = size_t((n * 7919u) % work.size()); if (work.size() % 7919u == 0) k = size_t(n % work.size());
    X = objs[work[k].first]; X->reset(R); X->set_op(0, work[k].second, R); D1 = D3 = D4 = D5 = P1 = Q1 = S1 = 0;
}
static std::string what() { return X->name() + " init=" + X->init_text() + " " + X->slot_text(0); }

// ------------------------------------------------------------------ passive: one step in the whole operation changes the object, atomically
static void step_passive(unsigned char const*)
{
    if (std::memcmp(om, snap, osz))
    {
        ++changes; if (changes == 1) { change_step = nstep; std::memcpy(snap2, om, osz); d1_at_change = D1; }
        if (rmw_class && lockfree && !locked_insn(pc_prev)) bad("not-atomic", "the object is modified by an instruction without a lock prefix: %s", insn(pc_prev).c_str());
        std::memcpy(snap, om, osz);
    }
    if (std::memcmp(om - 64, nb_pre, 64) || std::memcmp(om + osz, nb_post, 64)) bad("neighbour", "bytes next to the object changed");
    if (!lib_touched && lib_changed()) lib_touched = true;
    if (is_syscall(pc_prev)) saw_syscall = true;
}
static void passive(uint64_t n, char prop)
{
    pick(n); fill_neighbours(); lockfree = X->lock_free(); Info i = X->slot_info(0); rmw_class = (i.cls & C_MOD) && !(i.cls & C_STORE);
    std::memcpy(snap, om, osz); changes = 0; lib_touched = saw_syscall = false; lib_save(); d1_at_change = -1;
    stepped(X, 0, step_passive);
    static const int s0[] = { 0 };
    drv::distinct(drv::mix(X->outcome_hash(1) * 31 + nstep * 131 + changes)); drv::metric("operations", 1); if (lib_touched) drv::metric("used_internal_lock", 1); if (changes) drv::metric("changed_object", 1);
    if (n < 3) drv::sample("%s: %u instructions, %u changes of the object, internal lock %s", what().c_str(), nstep, changes, lib_touched ? "used" : "not used");
    if (bad_kind) fail(bad_kind, "%s: %s", what().c_str(), bad_msg);
    if (prop == 'A' && lockfree && changes > 1) fail("torn", "%s: the object changes %u times", what().c_str(), changes);
    if (prop == 'A' && lockfree && nstep > 5000) fail("not-lock-free", "%s takes more than %u instructions with nobody interfering", what().c_str(), nstep);
    if (!X->explains(0, nullptr, 0) || (!(i.cls & C_WEAK) && !X->final_is(s0, 1))) fail("wrong-result", "%s -> %s, final %s", what().c_str(), X->slot_result(0).c_str(), X->final_text().c_str());
    if (prop == 'L')
    {
        if (lockfree && lib_touched) fail("claim", "%s is reported lock-free but the operation uses the internal locks", what().c_str());
        if (lockfree && saw_syscall) fail("claim", "%s is reported lock-free but the operation makes a system call", what().c_str());
        if (!lockfree && lib_size() && !lib_touched) fail("claim", "%s is reported not lock-free but the operation does not use the internal locks", what().c_str());
    }
    // a release operation publishes what was written before it; nothing of what follows an acquire operation happens before it
    if (prop == 'A' && changes && i.release() && done_cas(0) && d1_at_change == 0) fail("compiler-reorder", "%s: the modification is visible before a preceding write", what().c_str());
    if (prop == 'A' && changes && (i.cls & C_RES) && i.acquire() && done_cas(0) && d1_at_change == 2) fail("compiler-reorder", "%s: a write that follows the operation is visible before its modification", what().c_str());
}

// ------------------------------------------------------------------ interference at one or several instruction boundaries
static unsigned at[8], nat_, kdone; static uint64_t t_call[AnyBase::NS], t_ret[AnyBase::NS];
static void interfere() { int a = D1, b = P1, c = Q1, d = S1, e = D5; X->run(1 + int(kdone)); D1 = a; P1 = b; Q1 = c; S1 = d; D5 = e; t_call[1 + kdone] = 100 * nstep + 2 * kdone; t_ret[1 + kdone] = 100 * nstep + 2 * kdone + 1; ++kdone; }
static void step_interfere(unsigned char const*) { while (kdone < nat_ && at[kdone] <= nstep) interfere(); }
static void step_count(unsigned char const*) {}
static bool mod_op(Info const& i) { return (i.cls & C_MOD) != 0; }
static bool any_op(Info const& i) { (void)i; return true; }
static void interference(uint64_t n)
{
    pick(n); stepped(X, 0, step_count); unsigned N = nstep; uint64_t rs = drv::S().rs;
    if (N > 3000) fail("not-lock-free", "%s takes more than 3000 instructions with nobody interfering", what().c_str());
    for (unsigned k = 1; k <= N; ++k)
    {
        // the same operation, interfered with after instruction k (and perhaps again later)
        drv::S().rs = rs; pick(n); drv::S().rs = drv::mix(rs + k); D1 = D3 = D4 = D5 = 0;
        nat_ = 1 + (R(3) == 0 ? 1 + R(4) : 0); at[0] = k; for (unsigned j = 1; j < nat_; ++j) at[j] = at[j - 1] + R(12);
        for (unsigned j = 0; j < nat_; ++j) X->choose(1 + int(j), R(8) ? mod_op : any_op, R);
        kdone = 0; stepped(X, 0, step_interfere); unsigned m = kdone; t_call[0] = 0; t_ret[0] = 100ull * max_steps * 2;
        if (nstep >= max_steps) fail("livelock", "%s does not complete although only %u operations interfered", what().c_str(), m);
        drv::metric("interferences", m); drv::distinct(drv::mix(X->outcome_hash(int(1 + m)) ^ k * 1000003));
        if (!X->linearizable(int(1 + m), t_call, t_ret, true))
        {
            std::string s; for (unsigned j = 0; j < m; ++j) s += " | after instruction " + std::to_string(at[j]) + ": " + X->slot_text(1 + int(j)) + " -> " + X->slot_result(1 + int(j));
            fail("not-atomic", "%s -> %s final %s is not explained by%s", what().c_str(), X->slot_result(0).c_str(), X->final_text().c_str(), s.c_str());
        }
        if (n < 2 && k == N / 2) drv::sample("%s interrupted after instruction %u of %u by %s", what().c_str(), k, N, X->slot_text(1).c_str());
    }
}

// ------------------------------------------------------------------ ordering of plain accesses around the operation, as a signal handler sees it
static unsigned when; static bool applied; static int ord_mode, p1_before;
static void step_order(unsigned char const*)
{
    if (ord_mode == 0) // at instruction 'when': write data, then modify the object
    {
        if (nstep >= when && !applied) { applied = true; D3 = 9; int a = D1, b = P1, c = Q1, d = S1, e = D5; X->run(1); D1 = a; P1 = b; Q1 = c; S1 = d; D5 = e; }
    }
    else if (ord_mode == 1) // as soon as the modification is visible: change what was read before it
    {
        if (!applied && std::memcmp(om, snap, osz)) { applied = true; D4 = 7; d1_at_change = D1; }
    }
    else // as soon as a following write is visible: modify the object
    {
        if (!applied && (D5 == 1 || D1 == 2)) { applied = true; int a = D1, b = P1, c = Q1, d = S1, e = D5; X->run(1); D1 = a; P1 = b; Q1 = c; S1 = d; D5 = e; }
    }
}
static bool acquires(Info const& i, bool ok) { return (i.cls & C_CAS) ? (ok ? i.acquire() : i.facquire()) : (i.cls & C_RES) && i.acquire(); }
static void order(uint64_t n)
{
    pick(n); Info i = X->slot_info(0); stepped(X, 0, step_count); unsigned N = nstep; uint64_t rs = drv::S().rs; static const int s0[] = { 0 }, s1[] = { 1 };
    // publishing
    if ((i.cls & C_MOD) && i.release())
    {
        drv::S().rs = rs; pick(n); D1 = D3 = D4 = D5 = 0; fill_neighbours(); std::memcpy(snap, om, osz); applied = false; ord_mode = 1; d1_at_change = 0; stepped(X, 0, step_order); drv::metric("publish_checks", applied);
        if (applied && d1_at_change == 0) fail("compiler-reorder", "%s: a write before the release operation is not done when its modification is visible", what().c_str());
        if (applied && P1 == 7) fail("compiler-reorder", "%s: a read before the release operation is done after its modification", what().c_str());
    }
    if (!(i.acquire() || i.facquire()) || !(i.cls & C_RES)) return;
    // acquiring: reads after it
    for (unsigned k = 1; k <= N + 2; ++k)
    {
        drv::S().rs = rs; pick(n); drv::S().rs = drv::mix(rs + k); D1 = D3 = D4 = D5 = S1 = Q1 = 0; X->choose(1, mod_op, R); if (X->slot_info(1).cls & C_WEAK) continue; when = k; applied = false; ord_mode = 0; stepped(X, 0, step_order);
        if (!applied) break; bool with = X->explains(0, s1, 1), without = X->explains(0, nullptr, 0); drv::metric("acquire_checks", with && !without);
        if (with && !without && acquires(i, X->slot_flag(0)) && S1 != 9) fail("compiler-reorder", "%s -> %s: a read after the acquire operation is done before it (modified by %s after instruction %u)", what().c_str(), X->slot_result(0).c_str(), X->slot_text(1).c_str(), k);
        drv::distinct(drv::mix(X->outcome_hash(2) ^ k * 77));
    }
    // acquiring: writes after it
    drv::S().rs = rs; pick(n); D1 = D3 = D4 = D5 = 0; X->choose(1, mod_op, R); applied = false; ord_mode = 2; stepped(X, 0, step_order);
    if (applied && !(X->slot_info(1).cls & C_WEAK)) { bool without = X->explains(0, nullptr, 0), with = X->explains(0, s1, 1); drv::metric("postwrite_checks", 1); if (with && !without && acquires(i, X->slot_flag(0))) fail("compiler-reorder", "%s: a write after the acquire operation is done before it", what().c_str()); }
    (void)s0;
}

// ------------------------------------------------------------------ neighbours change at every instruction boundary
static void step_neighbours(unsigned char const*)
{
    if (std::memcmp(om - 64, nb_pre, 64) || std::memcmp(om + osz, nb_post, 64)) { bad("neighbour", "a byte next to the object was overwritten (instruction %u: %s)", nstep, insn(pc_prev).c_str()); return; }
    for (int j = 0; j < 16; ++j) { nb_pre[63 - j] = (unsigned char)(nb_pre[63 - j] * 5 + nstep + 1); nb_post[j] = (unsigned char)(nb_post[j] * 7 + nstep + 3); }
    std::memcpy(om - 64, nb_pre, 64); std::memcpy(om + osz, nb_post, 64); drv::S().metrics["neighbour_changes"] += 0;
}
static uint64_t nb_changes;
static void neighbours(uint64_t n)
{
    pick(n); fill_neighbours(); stepped(X, 0, step_neighbours); nb_changes += nstep; static const int s0[] = { 0 };
    if (!bad_kind && (std::memcmp(om - 64, nb_pre, 64) || std::memcmp(om + osz, nb_post, 64))) bad("neighbour", "a byte next to the object was overwritten at the end");
    drv::metric("neighbour_changes", nstep); drv::distinct(drv::mix(X->outcome_hash(1) + nstep));
    if (bad_kind) fail(bad_kind, "%s: %s", what().c_str(), bad_msg);
    if (nstep >= max_steps) fail("livelock", "%s does not complete while its neighbours change", what().c_str());
    if (!X->explains(0, nullptr, 0) || (!(X->slot_info(0).cls & C_WEAK) && !X->final_is(s0, 1))) fail("wrong-result", "%s -> %s, final %s while its neighbours change", what().c_str(), X->slot_result(0).c_str(), X->final_text().c_str());
}

// ------------------------------------------------------------------ fences
static boost::atomic<int> FX(0);
typedef void (*Fn)(); struct FenceCase { char const* name; Fn fn; bool rel, acq; };
#define FENCE_CASES(K, O, REL, ACQ) \
    { #K "(" #O ") store", [] { P1 = D4; D1 = 1; boost::K(boost::O); FX.store(1, boost::memory_order_relaxed); D1 = 2; }, REL, false }, \
    { #K "(" #O ") exchange", [] { P1 = D4; D1 = 1; boost::K(boost::O); (void)FX.exchange(1, boost::memory_order_relaxed); D1 = 2; }, REL, false }, \
    { #K "(" #O ") opaque_or", [] { P1 = D4; D1 = 1; boost::K(boost::O); FX.opaque_or(1, boost::memory_order_relaxed); D1 = 2; }, REL, false }, \
    { #K "(" #O ") load", [] { Q1 = D3; fx_seen = FX.load(boost::memory_order_relaxed); boost::K(boost::O); S1 = D3; D5 = 1; }, false, ACQ }, \
    { #K "(" #O ") fetch_add", [] { Q1 = D3; fx_seen = FX.fetch_add(4, boost::memory_order_relaxed); boost::K(boost::O); S1 = D3; D5 = 1; }, false, ACQ }, \
    { #K "(" #O ") plain", [] { P1 = D4; D1 = 1; boost::K(boost::O); FP = 1; D1 = 2; }, REL, false }, \
    { #K "(" #O ") plain load", [] { Q1 = D3; fx_seen = FP; boost::K(boost::O); S1 = D3; D5 = 1; }, false, ACQ }
static int FP, fx_seen; static volatile int* const vFP = &FP;
static FenceCase const fcases[] = {
    FENCE_CASES(atomic_thread_fence, memory_order_release, true, false), FENCE_CASES(atomic_thread_fence, memory_order_acquire, false, true), FENCE_CASES(atomic_thread_fence, memory_order_consume, false, true),
    FENCE_CASES(atomic_thread_fence, memory_order_acq_rel, true, true), FENCE_CASES(atomic_thread_fence, memory_order_seq_cst, true, true),
    FENCE_CASES(atomic_signal_fence, memory_order_release, true, false), FENCE_CASES(atomic_signal_fence, memory_order_acquire, false, true), FENCE_CASES(atomic_signal_fence, memory_order_consume, false, true),
    FENCE_CASES(atomic_signal_fence, memory_order_acq_rel, true, true), FENCE_CASES(atomic_signal_fence, memory_order_seq_cst, true, true) };
static void stepped_fn(Fn fn, void (*f)(unsigned char const*))
{
    on_step = f; nstep = 0; pc_now = pc_prev = nullptr; bad_kind = nullptr; tracing = 1;
    __asm__ __volatile__("lea -256(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 256(%%rsp), %%rsp" ::: "memory", "cc");
    fn(); tracing = 0;
    __asm__ __volatile__("lea -256(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tlea 256(%%rsp), %%rsp" ::: "memory", "cc");
    drv::metric("instructions", nstep);
}
static int fmode; static bool fseen; static int volatile raw_fx() { return *(int volatile*)&FX; }
static void step_fence(unsigned char const*)
{
    if (fmode == 0) { if (!applied && ((raw_fx() & 1) || *vFP == 1)) { applied = true; d1_at_change = D1; D4 = 7; } }
    else if (fmode == 1) { if (!applied && nstep >= when) { applied = true; D3 = 9; __asm__ __volatile__("" ::: "memory"); *(int volatile*)&FX = 1; *vFP = 1; } }
    else { if (!applied && D5 == 1) { applied = true; *(int volatile*)&FX = 1; *vFP = 1; } }
}
static void fences(uint64_t n)
{
    size_t const NC = sizeof fcases / sizeof *fcases; FenceCase const& c = fcases[n % NC];
    auto clear = [] { D1 = D3 = D4 = D5 = P1 = Q1 = S1 = 0; FP = 0; fx_seen = 0; FX.store(0); applied = false; __asm__ __volatile__("" ::: "memory"); };
    clear(); stepped_fn(c.fn, step_count); unsigned N = nstep; drv::metric("fence_cases", 1);
    if (c.rel)
    {
        clear(); fmode = 0; stepped_fn(c.fn, step_fence); __asm__ __volatile__("" ::: "memory"); drv::metric("fence_publish_checks", applied);
        if (applied && d1_at_change == 0) fail("fence", "%s: the store after the fence is visible before the write that precedes the fence", c.name);
        if (applied && P1 == 7) fail("fence", "%s: a read before the fence is done after the store that follows it", c.name);
    }
    if (c.acq)
    {
        for (unsigned k = 1; k <= N + 1; ++k)
        {
            clear(); fmode = 1; when = k; stepped_fn(c.fn, step_fence); __asm__ __volatile__("" ::: "memory"); if (!applied) break; drv::metric("fence_acquire_checks", fx_seen & 1); drv::distinct(drv::mix(n % NC * 4096 + k * 2 + (fx_seen & 1)));
            if ((fx_seen & 1) && S1 != 9) fail("fence", "%s: a read after the fence is done before the load that precedes it", c.name);
        }
        clear(); fmode = 2; stepped_fn(c.fn, step_fence); __asm__ __volatile__("" ::: "memory"); if (applied && (fx_seen & 1)) fail("fence", "%s: a write after the fence is done before the load that precedes it", c.name);
    }
    if (n < 3) drv::sample("%s: %u instructions", c.name, N);
}

int main(int argc, char** argv)
{
    drv::setup(argc, argv, "step"); register_all(); uint64_t N = drv::S().iters;
    static char alt[1 << 16]; stack_t ss; std::memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, nullptr);
    make_work(true, false); if (!work.empty()) drv::scenario("atomic", N, [](uint64_t n) { passive(n, 'A'); });
    if (!work.empty()) drv::scenario("interfere", N, interference);
    if (!work.empty()) drv::scenario("order", N, order);
    make_work(true, true); drv::scenario("neighbours", N, neighbours);
    drv::scenario("claims", N, [](uint64_t n) { passive(n, 'L'); });
    drv::scenario("fences", N, fences);
    return drv::finish();
}
