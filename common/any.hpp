// Type-erased objects with recorded operations: each slot holds one operation with its operands and observed result.
#pragma once
#include "ops.hpp"
#include <memory>
#include <cstdio>

namespace ops {
struct Info { char const* name; int order, forder; unsigned cls;
    bool acquire() const { return o_acq(order); } bool facquire() const { return o_acq(forder); }
    bool release() const { return order == int(boost::memory_order_release) || order == int(boost::memory_order_acq_rel) || order == int(boost::memory_order_seq_cst); }
    bool seq_cst() const { return order == int(boost::memory_order_seq_cst) && forder == int(boost::memory_order_seq_cst); }
    bool relaxed() const { return order == int(boost::memory_order_relaxed); }
    static bool o_acq(int o) { return o == int(boost::memory_order_acquire) || o == int(boost::memory_order_consume) || o == int(boost::memory_order_acq_rel) || o == int(boost::memory_order_seq_cst); } };
typedef bool (*Pred)(Info const&);
typedef uint32_t (*Rnd)(uint32_t);

struct AnyBase
{
    static const int NS = 24;
    virtual ~AnyBase() {}
    virtual std::string name() const = 0; virtual bool lock_free() = 0; virtual bool ipc() const = 0; virtual void* mem() = 0; virtual size_t size() = 0;
    virtual size_t nops() const = 0; virtual Info info(size_t op) const = 0; virtual bool aliased() const = 0;
    virtual void reset(Rnd r) = 0;                       // new initial value, all slots empty
    virtual bool choose(int s, Pred p, Rnd r) = 0;       // a random operation with random operands
    virtual void set_op(int s, size_t op, Rnd r) = 0;
    virtual void run(int s) = 0;
    virtual Info slot_info(int s) const = 0;
    virtual std::string slot_text(int s) const = 0; virtual std::string slot_result(int s) const = 0; virtual bool slot_flag(int s) const = 0;
    // would slot s, executed after prior[0..n) (each with the result it really had), return what it returned?
    virtual bool explains(int s, int const* prior, int n) const = 0;
    virtual bool explains_exact(int s) const = 0;        // as the model, not allowing a spurious failure
    // as explains, but for a hypothetical result: would it differ from the one after prior2?
    virtual bool distinguishes(int s, int const* p1, int n1, int const* p2, int n2) const = 0;
    // linearizability search over slots with call/return stamps; the final value must match too
    virtual bool linearizable(int n, uint64_t const* call, uint64_t const* ret, bool check_final) = 0;
    virtual void restore() = 0;                          // the initial value again, operations kept
    virtual bool serializable(int n, int const* thr, bool check_final) = 0; // as linearizable, by program order of each thread only
    virtual std::string final_text() = 0; virtual std::string init_text() const = 0;
    virtual bool final_is(int const* seq, int n) = 0;
    virtual uint64_t outcome_hash(int n) const = 0;
    virtual void wait(int order) = 0; virtual void notify_all() = 0; virtual void notify_one() = 0; virtual bool differs_from_init() = 0;
};

template<class A> auto any_wait(A&& a, typename std::remove_reference<A>::type::value_type const& v, int o) -> decltype(a.wait(v), void())
{
    if (o == int(boost::memory_order_relaxed)) a.wait(v, boost::memory_order_relaxed); else if (o == int(boost::memory_order_consume)) a.wait(v, boost::memory_order_consume); else if (o == int(boost::memory_order_acquire)) a.wait(v, boost::memory_order_acquire); else a.wait(v);
}
template<class F> void flag_wait(F& a, bool v, int o)
{
    if (o == int(boost::memory_order_relaxed)) a.wait(v, boost::memory_order_relaxed); else if (o == int(boost::memory_order_consume)) a.wait(v, boost::memory_order_consume); else if (o == int(boost::memory_order_acquire)) a.wait(v, boost::memory_order_acquire); else a.wait(v);
}
inline void any_wait(boost::atomic_flag& a, bool v, int o) { flag_wait(a, v, o); }
#ifndef NO_IPC
inline void any_wait(boost::ipc_atomic_flag& a, bool v, int o) { flag_wait(a, v, o); }
#endif

template<class Acc> struct Any : AnyBase
{
    typedef typename Acc::T T; typedef Op<Acc> O;
    Table<Acc> t; alignas(64) Acc h; T I; T pool[4]; char const* tname;
    struct Slot { O const* op; Io<T> io; } sl[NS];
    explicit Any(char const* tn) : t(table_of<Acc>::make()), tname(tn) { std::memset((void*)&I, 0, sizeof I); }
    std::string name() const override { return std::string(Acc::wname()) + "<" + tname + ">"; }
    bool lock_free() override { return h.get().is_lock_free(); } bool ipc() const override { return Acc::ipc; } void* mem() override { return h.mem(); } size_t size() override { return h.size(); }
    bool aliased() const override { return Acc::ref; }
    size_t nops() const override { return t.v.size(); }
    static Info inf(O const& o) { return Info{ o.name, o.order, o.forder, o.cls }; }
    Info info(size_t i) const override { return inf(t.v[i]); }
#ifdef ANY_VALUE
    static T value(Rnd r) { return ANY_VALUE<T>(r); }
    static T plain_value(Rnd r) { uint64_t x = r(16) == 0 ? 0 : r(3) ? uint64_t(r(0xffffffffu)) << 32 | r(0xffffffffu) : r(10); return maker<T>::make(x); }
#else
    static T value(Rnd r) { uint64_t x = r(16) == 0 ? 0 : r(3) ? uint64_t(r(0xffffffffu)) << 32 | r(0xffffffffu) : r(10); return maker<T>::make(x); }
#endif
    void reset(Rnd r) override { I = value(r); for (auto& p : pool) p = value(r); pool[0] = I; poke(h, I); for (auto& s : sl) s.op = nullptr; }
    void set_op(int s, size_t op, Rnd r) override
    {
        Slot& x = sl[s]; std::memset((void*)&x.io, 0, sizeof x.io); x.op = &t.v[op];
        x.io.a = r(3) ? value(r) : pool[r(4)]; x.io.e = r(2) ? I : pool[r(4)]; x.io.d = long(r(9)) - 4; if (x.io.d == 0) x.io.d = 5;
#ifdef ANY_VALUE
        if (r(2)) x.io.d = long(int64_t(uint64_t(r(0xffffffffu)) << 32 | r(0xffffffffu)) >> (20 + r(40))); // distant differences too
#endif
        x.io.bit = r(unsigned(sizeof(T) * 8)); OPS_SET_CONST(x.io);
    }
    bool choose(int s, Pred p, Rnd r) override
    {
        unsigned n = 0; for (auto& o : t.v) if (p(inf(o))) ++n; if (!n) return false;
        unsigned k = r(n); for (size_t i = 0; i < t.v.size(); ++i) if (p(inf(t.v[i])) && k-- == 0) { set_op(s, i, r); return true; } return false;
    }
    void run(int s) override { sl[s].io.has = 0; sl[s].op->run(h, sl[s].io); }
    Info slot_info(int s) const override { return inf(*sl[s].op); }
    std::string slot_text(int s) const override { return op_text(*sl[s].op, sl[s].io); } std::string slot_result(int s) const override { return show_result(sl[s].io, value_bytes<T>::value); }
    bool slot_flag(int s) const override { return sl[s].io.rf; }
    static bool opaque_reads_old(char const* n) { return !std::strncmp(n, "fetch_", 6); }
    // applies slot s to state v; returns whether the actual result is explained
    bool step(int s, T& v) const
    {
        Slot const& x = sl[s]; Io<T> m = x.io; m.has = 0; T before = v; x.op->model(v, m);
        if ((x.op->cls & C_WEAK) && !x.io.rf && x.io.has) { v = before; return same_bits(x.io.rv, before); }
        // the value an arithmetic operation reads is exact; a NaN it computes may differ in sign and payload
        if ((x.op->cls & C_APPROX) && (x.io.has & H_V) && both_nan(m.rv, x.io.rv)) return !same_bits(m.rv, before) || !opaque_reads_old(x.op->name) || same_bits(x.io.rv, before);
        return same_result(m, x.io);
    }
    bool explains(int s, int const* p, int n) const override { T v = I; for (int i = 0; i < n; ++i) step(p[i], v); return step(s, v); }
    bool explains_exact(int s) const override { T v = I; Io<T> m = sl[s].io; m.has = 0; sl[s].op->model(v, m); return same_result(m, sl[s].io, (sl[s].op->cls & C_APPROX) != 0); }
    bool distinguishes(int s, int const* p1, int n1, int const* p2, int n2) const override
    {
        T v1 = I, v2 = I; auto go = [&](T& v, int const* p, int n) { for (int i = 0; i < n; ++i) { Io<T> m = sl[p[i]].io; m.has = 0; sl[p[i]].op->model(v, m); } };
        go(v1, p1, n1); go(v2, p2, n2); Io<T> a = sl[s].io, b = sl[s].io; a.has = b.has = 0; sl[s].op->model(v1, a); sl[s].op->model(v2, b); return !same_result(a, b);
    }
    T fin;
    bool dfs(int n, uint64_t const* call, uint64_t const* ret, uint32_t done, T v, bool cf) const
    {
        if (done == (1u << n) - 1) return !cf || same_bits(v, fin);
        uint64_t mr = ~0ull; for (int i = 0; i < n; ++i) if (!(done >> i & 1) && ret[i] < mr) mr = ret[i];
        for (int i = 0; i < n; ++i) if (!(done >> i & 1) && call[i] <= mr) { T w = v; if (step(i, w) && dfs(n, call, ret, done | 1u << i, w, cf)) return true; }
        return false;
    }
    bool linearizable(int n, uint64_t const* call, uint64_t const* ret, bool cf) override { fin = peek(h); return dfs(n, call, ret, 0, I, cf); }
    void restore() override { poke(h, I); }
    bool sdfs(int n, int const* thr, uint32_t done, T v, bool cf) const
    {
        if (done == (1u << n) - 1) return !cf || same_bits(v, fin) || both_nan(v, fin);
        uint32_t tried = 0;
        for (int i = 0; i < n; ++i) if (!(done >> i & 1) && !(tried >> thr[i] & 1)) { tried |= 1u << thr[i]; T w = v; if (step(i, w) && sdfs(n, thr, done | 1u << i, w, cf)) return true; }
        return false;
    }
    bool serializable(int n, int const* thr, bool cf) override { fin = peek(h); return sdfs(n, thr, 0, I, cf); }
    std::string final_text() override { T v = peek(h); return show(v, value_bytes<T>::value); } std::string init_text() const override { return show(I, value_bytes<T>::value); }
    bool final_is(int const* p, int n) override { T v = I; for (int i = 0; i < n; ++i) step(p[i], v); T f = peek(h); return same_bits(v, f) || (n && (sl[p[n - 1]].op->cls & C_APPROX) && both_nan(v, f)); }
    uint64_t outcome_hash(int n) const override { uint64_t x = 1469598103934665603ull; for (int i = 0; i < n; ++i) if (sl[i].op) { std::string s = show_result(sl[i].io, value_bytes<T>::value); for (char c : s) x = (x ^ (unsigned char)c) * 1099511628211ull; x = (x ^ uint64_t(sl[i].op - t.v.data())) * 1099511628211ull; } for (char c : name()) x = (x ^ (unsigned char)c) * 1099511628211ull; return x; }
    void wait(int order) override { any_wait(h.get(), I, order); }
    void notify_all() override { h.get().notify_all(); } void notify_one() override { h.get().notify_one(); }
    bool differs_from_init() override { return !same_bits(peek(h), I); }
};
} // namespace ops
