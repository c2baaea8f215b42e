// Objects to wait on, and clocks to wait with: every way to wait, with results as indices into known values.
// The includer defines, before: uint32_t R(uint32_t), IPC(X), int64_t rd(int clock) in nanoseconds.
#pragma once
#include "ops.hpp"
#include <boost/atomic.hpp>
#include <chrono>
#include <ctime>
// ------------------------------------------------------------------ clocks
enum { CK_PLAIN = 100, CK_COARSE = 101, CK_THROW = 102, CK_JUMP = 103 };
template<int Id, class Dur = std::chrono::nanoseconds> struct VClk
{
    typedef Dur duration; typedef typename Dur::rep rep; typedef typename Dur::period period; typedef std::chrono::time_point<VClk, Dur> time_point; static constexpr bool is_steady = false;
    static time_point now() noexcept { return time_point(std::chrono::duration_cast<Dur>(std::chrono::nanoseconds(rd(Id)))); }
};
typedef VClk<CK_PLAIN> PlainClk; typedef VClk<CK_COARSE, std::chrono::milliseconds> CoarseClk; typedef VClk<CLOCK_MONOTONIC> MonoClk; typedef VClk<CLOCK_BOOTTIME> BootClk; typedef VClk<CK_JUMP> JumpClk;
typedef VClk<CK_PLAIN, std::chrono::seconds> SecClk;
typedef VClk<CK_PLAIN, std::chrono::duration<double, std::nano> > FpClk;
typedef std::chrono::duration<int64_t, std::ratio<1, 3000000000> > thirds;
struct ThirdClk
{
    typedef thirds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<ThirdClk> time_point; static constexpr bool is_steady = false;
    static time_point now() noexcept { int64_t t = rd(CK_PLAIN); return time_point(thirds(t > INT64_MAX / 3 ? INT64_MAX : t < INT64_MIN / 3 ? INT64_MIN : 3 * t)); }
};
struct clock_error {};
static int throw_after = -1; static uint64_t clock_throws = 0;
struct ThrowClk
{
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<ThrowClk> time_point; static constexpr bool is_steady = false;
    static time_point now() { int64_t t = rd(CK_THROW); if (throw_after >= 0 && throw_after-- == 0) { ++clock_throws; throw clock_error(); } return time_point(duration(t)); }
};
namespace boost { namespace atomics {
template<> struct posix_clock_traits<MonoClk> { static constexpr clockid_t clock_id = CLOCK_MONOTONIC; static timespec to_timespec(MonoClk::time_point t) noexcept { timespec r; int64_t n = t.time_since_epoch().count(); r.tv_sec = n / 1000000000; r.tv_nsec = n % 1000000000; if (r.tv_nsec < 0) { --r.tv_sec; r.tv_nsec += 1000000000; } return r; } };
template<> struct posix_clock_traits<BootClk> { static constexpr clockid_t clock_id = CLOCK_BOOTTIME; static timespec to_timespec(BootClk::time_point t) noexcept { timespec r; int64_t n = t.time_since_epoch().count(); r.tv_sec = n / 1000000000; r.tv_nsec = n % 1000000000; if (r.tv_nsec < 0) { --r.tv_sec; r.tv_nsec += 1000000000; } return r; } };
} }
enum Method { M_WAIT, M_STEADY, M_SYSTEM, M_PLAIN, M_MONO, M_BOOT, M_FOR, M_COARSE, M_SYSSEC, M_JUMP, M_FORMS, M_THROW, M_N };
static char const* mname[] = { "wait", "wait_until(steady_clock)", "wait_until(system_clock)", "wait_until(user clock)", "wait_until(user clock on CLOCK_MONOTONIC)", "wait_until(user clock on CLOCK_BOOTTIME)", "wait_for(ns)", "wait_until(ms user clock)",
    "wait_until(system_clock, seconds)", "wait_until(jumping user clock)", "wait_for(ms)", "wait_until(throwing clock)" };
static int clk_of(int m) { switch (m) { case M_SYSTEM: case M_SYSSEC: return CLOCK_REALTIME; case M_PLAIN: return CK_PLAIN; case M_BOOT: return CLOCK_BOOTTIME; case M_COARSE: return CK_COARSE; case M_JUMP: return CK_JUMP; case M_THROW: return CK_THROW; default: return CLOCK_MONOTONIC; } }
// granularity of the deadline in ns
static int64_t gran_of(int m) { return m == M_COARSE || m == M_FORMS ? 1000000 : m == M_SYSSEC ? 1000000000 : 1; }

// ------------------------------------------------------------------ objects
struct Res { int idx; bool timeout, threw; };
static const boost::memory_order wo[] = { boost::memory_order_relaxed, boost::memory_order_consume, boost::memory_order_acquire, boost::memory_order_seq_cst };
static const boost::memory_order so[] = { boost::memory_order_relaxed, boost::memory_order_release, boost::memory_order_seq_cst };
template<class T> T dirty(T v) { return v; }
inline Pad5 dirty(Pad5 v) { Pad5 r;
#if defined(__GNUC__) && !defined(__clang__)
    std::memset((void*)&r, int(R(256)), sizeof r);
#else
    std::memset((void*)&r, 0, sizeof r);
#endif
    r.a = v.a; r.c = v.c; return r; }
struct WBase
{
    int nv = 3; void const* lockid = nullptr; char const* tn;
    virtual ~WBase() {} virtual std::string name() = 0; virtual bool lock_free() = 0; virtual bool native() = 0; virtual bool ipc() = 0; virtual void init(int mode) = 0; virtual void* mem() = 0; virtual size_t size() = 0;
    virtual void set(int k, int how, int order) = 0; virtual void reset(int k) = 0; virtual int get() = 0; virtual int load(int order) = 0; virtual Res wait(int k, int m, int64_t d, int order) = 0; virtual void notify_one() = 0; virtual void notify_all() = 0;
    virtual void rmw_touch() = 0;
};
template<class Acc> struct WObj : WBase
{
    typedef typename Acc::T T; Acc* h; T v[3];
    WObj(char const* n, void* where) { tn = n; h = new (where) Acc(); if (sizeof(T) == 1 && std::is_same<T, bool>::value) nv = 2; }
    std::string name() override { return std::string(Acc::wname()) + "<" + tn + ">"; } bool lock_free() override { return h->get().is_lock_free(); } bool native() override { return h->get().has_native_wait_notify(); } bool ipc() override { return Acc::ipc; } void* mem() override { return h->mem(); } size_t size() override { return h->size(); }
    void init(int mode) override
    {
        uint64_t a = mode ? 0 : R(0x7fffffff), b = a + 1 + R(100), c = b + 1 + R(100);
        if (mode == 1) { a = 5; b = 5 + (1ull << 32); c = 0x05000000; } // values that differ in few bits
        v[0] = maker<T>::make(a); v[1] = maker<T>::make(b); v[2] = maker<T>::make(c);
        if (same_bits(v[0], v[1])) v[1] = maker<T>::make(a + 1); if (nv > 2 && (same_bits(v[2], v[1]) || same_bits(v[2], v[0]))) v[2] = maker<T>::make(a + 2);
        if (nv > 2 && (same_bits(v[2], v[1]) || same_bits(v[2], v[0]))) v[2] = maker<T>::make(a + 3); if (nv == 2) v[2] = v[0];
    }
    int index(T const& x) { for (int i = 0; i < nv; ++i) if (same_bits(x, v[i])) return i; return -1; }
    void reset(int k) override { poke(*h, v[k % nv]); } int get() override { return index(peek(*h)); }
    template<class W> static void do_set(W&& w, T const& x, T e, int how, int order)
    {
        switch (how) { case 0: w.store(dirty(x), so[order]); break; case 1: w.exchange(dirty(x), so[order]); break; default: { T q = e; for (int i = 0; i < 100; ++i) if (w.compare_exchange_strong(q, dirty(x), so[order], boost::memory_order_relaxed)) break; } }
    }
    static void do_set(boost::atomic_flag& w, bool x, bool, int, int order) { if (x) w.test_and_set(so[order]); else w.clear(so[order]); }
    IPC(static void do_set(boost::ipc_atomic_flag& w, bool x, bool, int, int order) { if (x) w.test_and_set(so[order]); else w.clear(so[order]); })
    void set(int k, int how, int order) override { do_set(h->get(), v[k % nv], v[0], how, order); }
    template<class W> static T do_load(W&& w, int order) { return w.load(wo[order]); } static bool do_load(boost::atomic_flag& w, int order) { return w.test(wo[order]); }
    IPC(static bool do_load(boost::ipc_atomic_flag& w, int order) { return w.test(wo[order]); })
    int load(int order) override { return index(do_load(h->get(), order)); }
    template<class W> static void do_touch(W&& w) { T e{}; w.compare_exchange_weak(e, e, boost::memory_order_relaxed); } static void do_touch(boost::atomic_flag& w) { (void)w.test(); }
    IPC(static void do_touch(boost::ipc_atomic_flag& w) { (void)w.test(); })
    void rmw_touch() override { do_touch(h->get()); }
    template<class C> Res until(T old, int64_t d, boost::memory_order o) { auto r = h->get().wait_until(old, std::chrono::time_point<C, std::chrono::nanoseconds>(std::chrono::nanoseconds(d)), o); return Res{ index(r.value), r.timeout, false }; }
    Res wait(int k, int m, int64_t d, int order) override
    {
        namespace c = std::chrono; T old = dirty(v[k % nv]); boost::memory_order o = wo[order];
        switch (m)
        {
        case M_WAIT: { T r = waitv(h->get(), old, o); return Res{ index(r), false, false }; }
        case M_STEADY: return until<c::steady_clock>(old, d, o);
        case M_SYSTEM: return until<c::system_clock>(old, d, o);
        case M_PLAIN: // the same deadline in other units and representations; which ones depends on the deadline
            if (d > -(int64_t(1) << 52) && d < (int64_t(1) << 52)) switch (unsigned(d) % 8)
            {
            case 0: { auto r = h->get().wait_until(old, FpClk::time_point(c::duration<double, std::nano>(double(d))), o); return Res{ index(r.value), r.timeout, false }; }
            case 1: { auto r = h->get().wait_until(old, ThirdClk::time_point(thirds(3 * d)), o); return Res{ index(r.value), r.timeout, false }; }
            case 2: { auto r = h->get().wait_until(old, ThirdClk::time_point(thirds(3 * d - 1)), o); return Res{ index(r.value), r.timeout, false }; }
            case 3: { auto r = h->get().wait_until(old, FpClk::time_point(c::duration<double, std::nano>(double(d) - 0.25)), o); return Res{ index(r.value), r.timeout, false }; }
            }
            return until<PlainClk>(old, d, o);
        case M_MONO: return until<MonoClk>(old, d, o);
        case M_BOOT: return until<BootClk>(old, d, o);
        case M_JUMP: return until<JumpClk>(old, d, o);
        case M_FOR: { auto r = h->get().wait_for(old, c::nanoseconds(d), o); return Res{ index(r.value), r.timeout, false }; }
        case M_FORMS:
            if (d >= -128 && d < 128) { auto r = h->get().wait_for(old, c::duration<signed char, std::milli>((signed char)(d)), o); return Res{ index(r.value), r.timeout, false }; }
            if (d >= 128 && d < 4096) { auto r = h->get().wait_for(old, c::duration<unsigned short, std::milli>((unsigned short)(d)), o); return Res{ index(r.value), r.timeout, false }; }
            if (d >= INT32_MIN && d <= INT32_MAX && d % 2) { auto r = h->get().wait_for(old, c::duration<int, std::milli>(int(d)), o); return Res{ index(r.value), r.timeout, false }; }
            { auto r = h->get().wait_for(old, c::milliseconds(d), o); return Res{ index(r.value), r.timeout, false }; }
        case M_COARSE: { auto r = h->get().wait_until(old, CoarseClk::time_point(c::milliseconds(d)), o); return Res{ index(r.value), r.timeout, false }; }
        case M_SYSSEC:
            if (d >= 0 && d <= UINT32_MAX && d % 2) { auto r = h->get().wait_until(old, c::time_point<c::system_clock, c::duration<unsigned> >(c::duration<unsigned>(unsigned(d))), o); return Res{ index(r.value), r.timeout, false }; }
            { auto r = h->get().wait_until(old, c::time_point<c::system_clock, c::seconds>(c::seconds(d)), o); return Res{ index(r.value), r.timeout, false }; }
        case M_THROW: try { return until<ThrowClk>(old, d, o); } catch (clock_error const&) { return Res{ -2, false, true }; }
        }
        return Res{ -1, false, false };
    }
    template<class W> static T waitv(W&& w, T const& old, boost::memory_order o) { return w.wait(old, o); }
    void notify_one() override { h->get().notify_one(); } void notify_all() override { h->get().notify_all(); }
};
