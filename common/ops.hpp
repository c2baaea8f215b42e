// Table of every operation of every atomic wrapper, each with a reference model in exact arithmetic.
// Shared by all drivers (differential, linearizability, message passing, litmus, single-stepping, stress).
#pragma once
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include <cstring>
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <vector>
#include <limits>
#include <string>

namespace ops {

using boost::memory_order;
#if defined(__SIZEOF_INT128__)
typedef __int128 i128; typedef unsigned __int128 u128;
#endif

// ---------------------------------------------------------------- value types
template<unsigned N> struct Bytes // no padding, alignment 1
{
    unsigned char b[N];
    static Bytes make(uint64_t x) { Bytes r; for (unsigned i = 0; i < N; ++i) { r.b[i] = (unsigned char)(x >> ((i % 8) * 8)) ^ (unsigned char)(i / 8 * 0x5b); } return r; }
};
template<unsigned N> struct Words // no padding, alignment 8
{
    uint64_t w[N];
    static Words make(uint64_t x) { Words r; for (unsigned i = 0; i < N; ++i) r.w[i] = x * (2 * i + 1) + i; return r; }
};
struct Pad5 { uint32_t a; uint8_t c; }; // 3 bytes of trailing padding
struct PadMid { uint8_t a; uint64_t b; };
struct PadBig { uint8_t a; uint64_t b; uint16_t c; }; // never lock-free
enum E32 : int32_t { E32_zero = 0 };
enum class E8 : uint8_t { zero = 0 };
enum class E64 : uint64_t { zero = 0 };
struct S12 { int32_t v[3]; };

enum Kind { K_INT, K_BOOL, K_ENUM, K_FP, K_PTR, K_VPTR, K_STRUCT };
template<class T> struct is_int : std::integral_constant<bool, std::is_integral<T>::value && !std::is_same<T, bool>::value> {};
#if defined(__SIZEOF_INT128__)
template<> struct is_int<i128> : std::true_type {}; template<> struct is_int<u128> : std::true_type {};
#endif
template<class T> struct kind_of { static constexpr Kind value = std::is_same<T, bool>::value ? K_BOOL : is_int<T>::value ? K_INT : std::is_enum<T>::value ? K_ENUM : std::is_floating_point<T>::value ? K_FP :
    std::is_pointer<T>::value ? (std::is_void<typename std::remove_pointer<T>::type>::value ? K_VPTR : K_PTR) : K_STRUCT; };

template<unsigned N> struct uint_n; template<> struct uint_n<1> { typedef uint8_t type; }; template<> struct uint_n<2> { typedef uint16_t type; }; template<> struct uint_n<4> { typedef uint32_t type; }; template<> struct uint_n<8> { typedef uint64_t type; };
#if defined(__SIZEOF_INT128__)
template<> struct uint_n<16> { typedef u128 type; };
#endif
template<class T, Kind K = kind_of<T>::value> struct bits; // value <-> unsigned bits
template<class T> struct bits<T, K_INT> { typedef typename uint_n<sizeof(T)>::type U; static U get(T v) { return U(v); } static T put(U u) { return T(u); } };
template<class T> struct bits<T, K_ENUM> { typedef typename uint_n<sizeof(T)>::type U; static U get(T v) { return U(typename std::underlying_type<T>::type(v)); } static T put(U u) { return T(typename std::underlying_type<T>::type(u)); } };
template<class T> struct bits<T, K_PTR> { typedef uintptr_t U; static U get(T v) { return U(v); } static T put(U u) { return T(u); } };

// size of the part of the object representation that carries the value
template<class T> struct value_bytes { static constexpr size_t value = std::is_same<T, long double>::value ? 10 : sizeof(T); };
template<class T> inline bool same_bits(T const& a, T const& b) { return std::memcmp((void const*)&a, (void const*)&b, value_bytes<T>::value) == 0; }
template<> inline bool same_bits<Pad5>(Pad5 const& a, Pad5 const& b) { return a.a == b.a && a.c == b.c; }
template<> inline bool same_bits<PadMid>(PadMid const& a, PadMid const& b) { return a.a == b.a && a.b == b.b; }
template<> inline bool same_bits<PadBig>(PadBig const& a, PadBig const& b) { return a.a == b.a && a.b == b.b && a.c == b.c; }

// make a value of T from 64 random bits
template<class T, Kind K = kind_of<T>::value> struct maker;
template<class T> struct maker<T, K_INT> { static T make(uint64_t x) { T r = T(x); if (sizeof(T) == 16) r = T((typename uint_n<sizeof(T)>::type(x * 0x9e3779b97f4a7c15ULL ^ (x >> 7)) << (sizeof(T) * 4)) | r); return r; } };
template<class T> struct maker<T, K_BOOL> { static T make(uint64_t x) { return x & 1; } };
template<class T> struct maker<T, K_ENUM> { static T make(uint64_t x) { return bits<T>::put(typename bits<T>::U(x)); } };
template<class T> struct maker<T, K_FP> { static T make(uint64_t x) { return T(int64_t(x << 40) >> 40); } };
template<class T> struct maker<T, K_PTR> { static T make(uint64_t x) { typedef typename std::remove_pointer<T>::type P; return T(uintptr_t(0x100000000ULL + (x & 0xffffff) * sizeof(P))); } };
template<class T> struct maker<T, K_VPTR> { static T make(uint64_t x) { return T(uintptr_t(x)); } };
template<class T> struct maker<T, K_STRUCT> { static T make(uint64_t x) { return T::make(x); } };
template<> struct maker<Pad5, K_STRUCT> { static Pad5 make(uint64_t x) { Pad5 r; r.a = uint32_t(x); r.c = uint8_t(x >> 32); return r; } };
template<> struct maker<PadMid, K_STRUCT> { static PadMid make(uint64_t x) { PadMid r; r.a = uint8_t(x); r.b = x * 77; return r; } };
template<> struct maker<PadBig, K_STRUCT> { static PadBig make(uint64_t x) { PadBig r; r.a = uint8_t(x); r.b = x * 77; r.c = uint16_t(x >> 9); return r; } };

// ---------------------------------------------------------------- operation table
enum Has { H_V = 1, H_F = 2 };           // which results an operation has
enum Cls { C_MOD = 1, C_RES = 2, C_WEAK = 4, C_CAS = 8, C_DEFAULT = 16, C_OPERATOR = 32, C_OPAQUE = 64, C_LOAD = 128, C_STORE = 256, C_APPROX = 512 };
template<class T> struct Io
{
    T a, e; long d; unsigned bit;        // operand, expected, pointer difference, bit number
    T rv; bool rf; unsigned has;         // results
    void v(T const& x) { rv = x; has |= H_V; } void f(bool x) { rf = x; has |= H_F; }
};
template<class T> inline typename std::enable_if<std::is_floating_point<T>::value, bool>::type both_nan(T const& a, T const& b) { return __builtin_isnan(a) && __builtin_isnan(b); }
template<class T> inline typename std::enable_if<!std::is_floating_point<T>::value, bool>::type both_nan(T const&, T const&) { return false; }
template<class T> inline bool same_result(Io<T> const& x, Io<T> const& y, bool approx = false)
{
    if (x.has != y.has) return false;
    if ((x.has & H_F) && x.rf != y.rf) return false;
    if ((x.has & H_V) && !same_bits(x.rv, y.rv)) return approx && both_nan(x.rv, y.rv);
    return true;
}
template<class Acc> struct Op
{
    typedef typename Acc::T T;
    char const* name; int order, forder; unsigned cls;
    void (*run)(Acc&, Io<T>&);
    void (*model)(T&, Io<T>&);
    bool acquire() const { return order == int(boost::memory_order_acquire) || order == int(boost::memory_order_consume) || order == int(boost::memory_order_acq_rel) || order == int(boost::memory_order_seq_cst); }
    bool release() const { return order == int(boost::memory_order_release) || order == int(boost::memory_order_acq_rel) || order == int(boost::memory_order_seq_cst); }
    bool facquire() const { return forder == int(boost::memory_order_acquire) || forder == int(boost::memory_order_consume) || forder == int(boost::memory_order_acq_rel) || forder == int(boost::memory_order_seq_cst); }
    bool seq_cst() const { return order == int(boost::memory_order_seq_cst) && forder == int(boost::memory_order_seq_cst); }
};
inline char const* order_name(int o)
{
    return o == int(boost::memory_order_relaxed) ? "relaxed" : o == int(boost::memory_order_consume) ? "consume" : o == int(boost::memory_order_acquire) ? "acquire" : o == int(boost::memory_order_release) ? "release" : o == int(boost::memory_order_acq_rel) ? "acq_rel" : "seq_cst";
}

// ---------------------------------------------------------------- accessors
template<class TT> struct AccAtomic { typedef TT T; typedef boost::atomic<T> W; static char const* wname() { return "atomic"; } static constexpr bool ipc = false, ref = false; W obj; AccAtomic() : obj(T()) {} W& get() { return obj; } void* mem() { return &obj; } size_t size() { return sizeof(obj); } };
template<class TT> struct AccIpc { typedef TT T; typedef boost::ipc_atomic<T> W; static char const* wname() { return "ipc_atomic"; } static constexpr bool ipc = true, ref = false; W obj; AccIpc() : obj(T()) {} W& get() { return obj; } void* mem() { return &obj; } size_t size() { return sizeof(obj); } };
template<class TT> struct AccRef { typedef TT T; typedef boost::atomic_ref<T> W; static char const* wname() { return "atomic_ref"; } static constexpr bool ipc = false, ref = true; alignas(W::required_alignment) T obj; AccRef() : obj() {} W get() { return W(obj); } void* mem() { return &obj; } size_t size() { return sizeof(obj); } };
template<class TT> struct AccIpcRef { typedef TT T; typedef boost::ipc_atomic_ref<T> W; static char const* wname() { return "ipc_atomic_ref"; } static constexpr bool ipc = true, ref = true; alignas(W::required_alignment) T obj; AccIpcRef() : obj() {} W get() { return W(obj); } void* mem() { return &obj; } size_t size() { return sizeof(obj); } };

template<class Acc> struct Table { typedef Op<Acc> O; std::vector<O> v; void add(char const* n, int o, int fo, unsigned cls, void (*r)(Acc&, Io<typename Acc::T>&), void (*m)(typename Acc::T&, Io<typename Acc::T>&)) { v.push_back(O{ n, o, fo, cls, r, m }); } };

// With OPS_CONST the operands of every operation are compile-time constants
template<class T, Kind K = kind_of<T>::value> struct const_operand { static void set(Io<T>& io) { io.d = 1; io.bit = 3; } };
template<class T> struct const_operand<T, K_INT> { static void set(Io<T>& io) { io.a = T(1); io.d = 1; io.bit = 3; } };
template<class T> struct const_operand<T, K_FP> { static void set(Io<T>& io) { io.a = T(1); io.d = 1; } };
#ifdef OPS_CONST
#define OPS_SET_CONST(io) const_operand<T>::set(io)
#else
#define OPS_SET_CONST(io) (void)0
#endif
#ifndef OPS_PRE // plain accesses a driver wants before and after each operation, in the same function
#define OPS_PRE
#define OPS_POST
#endif
#define OPS_L(RUN) [](Acc& h, Io<T>& io) { auto&& a = h.get(); (void)a; (void)io; OPS_SET_CONST(io); OPS_PRE; RUN; OPS_POST; }
#define OPS_M(MODEL) [](T& s, Io<T>& io) { (void)s; (void)io; MODEL; }
// forms with an explicit order / with the default order
#define OPS_ADD(NAME, CLS, CALL, MODEL) t.add(NAME, int(O), int(O), CLS, OPS_L(CALL), OPS_M(MODEL))
#define OPS_ADDD(NAME, CLS, CALL, MODEL) t.add(NAME, int(boost::memory_order_seq_cst), int(boost::memory_order_seq_cst), (CLS) | C_DEFAULT, OPS_L(CALL), OPS_M(MODEL))

template<class T> inline void model_cas(T& s, Io<T>& io) { bool ok = same_bits(s, io.e); io.f(ok); if (ok) { io.v(io.e); s = io.a; } else io.v(s); }

template<class Acc, memory_order O> struct reg_load { static void add(Table<Acc>& t) { typedef typename Acc::T T; OPS_ADD("load", C_RES | C_LOAD, io.v(a.load(O)), io.v(s)); } };
template<class Acc, memory_order O> struct reg_store { static void add(Table<Acc>& t) { typedef typename Acc::T T; OPS_ADD("store", C_MOD | C_STORE, a.store(io.a, O), s = io.a); } };
template<class Acc, memory_order O> struct reg_xchg
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T;
        OPS_ADD("exchange", C_MOD | C_RES, io.v(a.exchange(io.a, O)), io.v(s); s = io.a);
        OPS_ADD("compare_exchange_strong(1)", C_MOD | C_RES | C_CAS, { T e = io.e; bool r = a.compare_exchange_strong(e, io.a, O); io.v(e); io.f(r); }, model_cas(s, io));
        OPS_ADD("compare_exchange_weak(1)", C_MOD | C_RES | C_CAS | C_WEAK, { T e = io.e; bool r = a.compare_exchange_weak(e, io.a, O); io.v(e); io.f(r); }, model_cas(s, io));
        t.v[t.v.size() - 1].forder = t.v[t.v.size() - 2].forder = int(O == boost::memory_order_acq_rel ? boost::memory_order_acquire : O == boost::memory_order_release ? boost::memory_order_relaxed : O);
    }
};
template<class Acc, memory_order O, memory_order FO> struct reg_cas2
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T;
        t.add("compare_exchange_strong(2)", int(O), int(FO), C_MOD | C_RES | C_CAS, OPS_L({ T e = io.e; bool r = a.compare_exchange_strong(e, io.a, O, FO); io.v(e); io.f(r); }), OPS_M(model_cas(s, io)));
        t.add("compare_exchange_weak(2)", int(O), int(FO), C_MOD | C_RES | C_CAS | C_WEAK, OPS_L({ T e = io.e; bool r = a.compare_exchange_weak(e, io.a, O, FO); io.v(e); io.f(r); }), OPS_M(model_cas(s, io)));
    }
};
template<class T> inline T m_add(T x, T y) { typedef typename bits<T>::U U; return bits<T>::put(U(bits<T>::get(x) + bits<T>::get(y))); }
template<class T> inline T m_sub(T x, T y) { typedef typename bits<T>::U U; return bits<T>::put(U(bits<T>::get(x) - bits<T>::get(y))); }
template<class T> inline T m_neg(T x) { typedef typename bits<T>::U U; return bits<T>::put(U(U(0) - bits<T>::get(x))); }
template<class T> inline T m_and(T x, T y) { typedef typename bits<T>::U U; return bits<T>::put(U(bits<T>::get(x) & bits<T>::get(y))); }
template<class T> inline T m_or(T x, T y) { typedef typename bits<T>::U U; return bits<T>::put(U(bits<T>::get(x) | bits<T>::get(y))); }
template<class T> inline T m_xor(T x, T y) { typedef typename bits<T>::U U; return bits<T>::put(U(bits<T>::get(x) ^ bits<T>::get(y))); }
template<class T> inline T m_not(T x) { typedef typename bits<T>::U U; return bits<T>::put(U(~bits<T>::get(x))); }
template<class T> inline bool m_nz(T x) { return bits<T>::get(x) != 0; }
template<class T> inline T m_bit(unsigned b) { typedef typename bits<T>::U U; return bits<T>::put(U(U(1) << b)); }
template<class T> inline bool m_tst(T x, unsigned b) { typedef typename bits<T>::U U; return (bits<T>::get(x) >> b) & U(1); }

template<class Acc, memory_order O> struct reg_arith // integral
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES, MO = C_MOD | C_OPAQUE;
        OPS_ADD("fetch_add", MR, io.v(a.fetch_add(io.a, O)), io.v(s); s = m_add(s, io.a));
        OPS_ADD("fetch_sub", MR, io.v(a.fetch_sub(io.a, O)), io.v(s); s = m_sub(s, io.a));
        OPS_ADD("fetch_negate", MR, io.v(a.fetch_negate(O)), io.v(s); s = m_neg(s));
        OPS_ADD("add", MR, io.v(a.add(io.a, O)), s = m_add(s, io.a); io.v(s));
        OPS_ADD("sub", MR, io.v(a.sub(io.a, O)), s = m_sub(s, io.a); io.v(s));
        OPS_ADD("negate", MR, io.v(a.negate(O)), s = m_neg(s); io.v(s));
        OPS_ADD("opaque_add", MO, a.opaque_add(io.a, O), s = m_add(s, io.a));
        OPS_ADD("opaque_sub", MO, a.opaque_sub(io.a, O), s = m_sub(s, io.a));
        OPS_ADD("opaque_negate", MO, a.opaque_negate(O), s = m_neg(s));
        OPS_ADD("add_and_test", MR, io.f(a.add_and_test(io.a, O)), s = m_add(s, io.a); io.f(m_nz(s)));
        OPS_ADD("sub_and_test", MR, io.f(a.sub_and_test(io.a, O)), s = m_sub(s, io.a); io.f(m_nz(s)));
        OPS_ADD("negate_and_test", MR, io.f(a.negate_and_test(O)), s = m_neg(s); io.f(m_nz(s)));
    }
};
template<class Acc, memory_order O> struct reg_bits // integral and enum
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES, MO = C_MOD | C_OPAQUE;
        OPS_ADD("fetch_and", MR, io.v(a.fetch_and(io.a, O)), io.v(s); s = m_and(s, io.a));
        OPS_ADD("fetch_or", MR, io.v(a.fetch_or(io.a, O)), io.v(s); s = m_or(s, io.a));
        OPS_ADD("fetch_xor", MR, io.v(a.fetch_xor(io.a, O)), io.v(s); s = m_xor(s, io.a));
        OPS_ADD("fetch_complement", MR, io.v(a.fetch_complement(O)), io.v(s); s = m_not(s));
        OPS_ADD("bitwise_and", MR, io.v(a.bitwise_and(io.a, O)), s = m_and(s, io.a); io.v(s));
        OPS_ADD("bitwise_or", MR, io.v(a.bitwise_or(io.a, O)), s = m_or(s, io.a); io.v(s));
        OPS_ADD("bitwise_xor", MR, io.v(a.bitwise_xor(io.a, O)), s = m_xor(s, io.a); io.v(s));
        OPS_ADD("bitwise_complement", MR, io.v(a.bitwise_complement(O)), s = m_not(s); io.v(s));
        OPS_ADD("opaque_and", MO, a.opaque_and(io.a, O), s = m_and(s, io.a));
        OPS_ADD("opaque_or", MO, a.opaque_or(io.a, O), s = m_or(s, io.a));
        OPS_ADD("opaque_xor", MO, a.opaque_xor(io.a, O), s = m_xor(s, io.a));
        OPS_ADD("opaque_complement", MO, a.opaque_complement(O), s = m_not(s));
        OPS_ADD("and_and_test", MR, io.f(a.and_and_test(io.a, O)), s = m_and(s, io.a); io.f(m_nz(s)));
        OPS_ADD("or_and_test", MR, io.f(a.or_and_test(io.a, O)), s = m_or(s, io.a); io.f(m_nz(s)));
        OPS_ADD("xor_and_test", MR, io.f(a.xor_and_test(io.a, O)), s = m_xor(s, io.a); io.f(m_nz(s)));
        OPS_ADD("complement_and_test", MR, io.f(a.complement_and_test(O)), s = m_not(s); io.f(m_nz(s)));
        OPS_ADD("bit_test_and_set", MR, io.f(a.bit_test_and_set(io.bit, O)), io.f(m_tst(s, io.bit)); s = m_or(s, m_bit<T>(io.bit)));
        OPS_ADD("bit_test_and_reset", MR, io.f(a.bit_test_and_reset(io.bit, O)), io.f(m_tst(s, io.bit)); s = m_and(s, m_not(m_bit<T>(io.bit))));
        OPS_ADD("bit_test_and_complement", MR, io.f(a.bit_test_and_complement(io.bit, O)), io.f(m_tst(s, io.bit)); s = m_xor(s, m_bit<T>(io.bit)));
    }
};
template<class Acc, memory_order O> struct reg_fp
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES | C_APPROX, MO = C_MOD | C_OPAQUE | C_APPROX;
        OPS_ADD("fetch_add", MR, io.v(a.fetch_add(io.a, O)), io.v(s); s = T(s + io.a));
        OPS_ADD("fetch_sub", MR, io.v(a.fetch_sub(io.a, O)), io.v(s); s = T(s - io.a));
        OPS_ADD("fetch_negate", MR, io.v(a.fetch_negate(O)), io.v(s); s = -s);
        OPS_ADD("add", MR, io.v(a.add(io.a, O)), s = T(s + io.a); io.v(s));
        OPS_ADD("sub", MR, io.v(a.sub(io.a, O)), s = T(s - io.a); io.v(s));
        OPS_ADD("negate", MR, io.v(a.negate(O)), s = -s; io.v(s));
        OPS_ADD("opaque_add", MO, a.opaque_add(io.a, O), s = T(s + io.a));
        OPS_ADD("opaque_sub", MO, a.opaque_sub(io.a, O), s = T(s - io.a));
        OPS_ADD("opaque_negate", MO, a.opaque_negate(O), s = -s);
    }
};
template<class T> inline T m_padd(T p, long d) { typedef typename std::remove_pointer<T>::type P; return T(uintptr_t(p) + uintptr_t(d) * sizeof(P)); }
template<class Acc, memory_order O> struct reg_ptr
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES, MO = C_MOD | C_OPAQUE;
        OPS_ADD("fetch_add", MR, io.v(a.fetch_add(io.d, O)), io.v(s); s = m_padd(s, io.d));
        OPS_ADD("fetch_sub", MR, io.v(a.fetch_sub(io.d, O)), io.v(s); s = m_padd(s, -io.d));
        OPS_ADD("add", MR, io.v(a.add(io.d, O)), s = m_padd(s, io.d); io.v(s));
        OPS_ADD("sub", MR, io.v(a.sub(io.d, O)), s = m_padd(s, -io.d); io.v(s));
        OPS_ADD("opaque_add", MO, a.opaque_add(io.d, O), s = m_padd(s, io.d));
        OPS_ADD("opaque_sub", MO, a.opaque_sub(io.d, O), s = m_padd(s, -io.d));
        OPS_ADD("add_and_test", MR, io.f(a.add_and_test(io.d, O)), s = m_padd(s, io.d); io.f(uintptr_t(s) != 0));
        OPS_ADD("sub_and_test", MR, io.f(a.sub_and_test(io.d, O)), s = m_padd(s, -io.d); io.f(uintptr_t(s) != 0));
    }
};
// forms without an order argument, and operators
template<class Acc> struct reg_def_base
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned OPR = C_OPERATOR;
        OPS_ADDD("load()", C_RES | C_LOAD, io.v(a.load()), io.v(s));
        OPS_ADDD("operator T", C_RES | C_LOAD | OPR, { T r = a; io.v(r); }, io.v(s));
        OPS_ADDD("store()", C_MOD | C_STORE, a.store(io.a), s = io.a);
        OPS_ADDD("operator=", C_MOD | C_STORE | OPR, a = io.a, s = io.a);
        OPS_ADDD("exchange()", C_MOD | C_RES, io.v(a.exchange(io.a)), io.v(s); s = io.a);
        OPS_ADDD("compare_exchange_strong()", C_MOD | C_RES | C_CAS, { T e = io.e; bool r = a.compare_exchange_strong(e, io.a); io.v(e); io.f(r); }, model_cas(s, io));
        OPS_ADDD("compare_exchange_weak()", C_MOD | C_RES | C_CAS | C_WEAK, { T e = io.e; bool r = a.compare_exchange_weak(e, io.a); io.v(e); io.f(r); }, model_cas(s, io));
    }
};
template<class Acc> struct reg_def_arith
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES, MO = C_MOD | C_OPAQUE, OPR = MR | C_OPERATOR; const T one = T(1); (void)one;
        OPS_ADDD("fetch_add()", MR, io.v(a.fetch_add(io.a)), io.v(s); s = m_add(s, io.a));
        OPS_ADDD("fetch_sub()", MR, io.v(a.fetch_sub(io.a)), io.v(s); s = m_sub(s, io.a));
        OPS_ADDD("fetch_negate()", MR, io.v(a.fetch_negate()), io.v(s); s = m_neg(s));
        OPS_ADDD("add()", MR, io.v(a.add(io.a)), s = m_add(s, io.a); io.v(s));
        OPS_ADDD("sub()", MR, io.v(a.sub(io.a)), s = m_sub(s, io.a); io.v(s));
        OPS_ADDD("negate()", MR, io.v(a.negate()), s = m_neg(s); io.v(s));
        OPS_ADDD("opaque_add()", MO, a.opaque_add(io.a), s = m_add(s, io.a));
        OPS_ADDD("opaque_sub()", MO, a.opaque_sub(io.a), s = m_sub(s, io.a));
        OPS_ADDD("opaque_negate()", MO, a.opaque_negate(), s = m_neg(s));
        OPS_ADDD("add_and_test()", MR, io.f(a.add_and_test(io.a)), s = m_add(s, io.a); io.f(m_nz(s)));
        OPS_ADDD("sub_and_test()", MR, io.f(a.sub_and_test(io.a)), s = m_sub(s, io.a); io.f(m_nz(s)));
        OPS_ADDD("negate_and_test()", MR, io.f(a.negate_and_test()), s = m_neg(s); io.f(m_nz(s)));
        OPS_ADDD("x++", OPR, io.v(a++), io.v(s); s = m_add(s, T(1)));
        OPS_ADDD("++x", OPR, io.v(++a), s = m_add(s, T(1)); io.v(s));
        OPS_ADDD("x--", OPR, io.v(a--), io.v(s); s = m_sub(s, T(1)));
        OPS_ADDD("--x", OPR, io.v(--a), s = m_sub(s, T(1)); io.v(s));
        OPS_ADDD("+=", OPR, io.v(a += io.a), s = m_add(s, io.a); io.v(s));
        OPS_ADDD("-=", OPR, io.v(a -= io.a), s = m_sub(s, io.a); io.v(s));
    }
};
template<class Acc> struct reg_def_bits
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES, MO = C_MOD | C_OPAQUE, OPR = MR | C_OPERATOR;
        OPS_ADDD("fetch_and()", MR, io.v(a.fetch_and(io.a)), io.v(s); s = m_and(s, io.a));
        OPS_ADDD("fetch_or()", MR, io.v(a.fetch_or(io.a)), io.v(s); s = m_or(s, io.a));
        OPS_ADDD("fetch_xor()", MR, io.v(a.fetch_xor(io.a)), io.v(s); s = m_xor(s, io.a));
        OPS_ADDD("fetch_complement()", MR, io.v(a.fetch_complement()), io.v(s); s = m_not(s));
        OPS_ADDD("bitwise_and()", MR, io.v(a.bitwise_and(io.a)), s = m_and(s, io.a); io.v(s));
        OPS_ADDD("bitwise_or()", MR, io.v(a.bitwise_or(io.a)), s = m_or(s, io.a); io.v(s));
        OPS_ADDD("bitwise_xor()", MR, io.v(a.bitwise_xor(io.a)), s = m_xor(s, io.a); io.v(s));
        OPS_ADDD("bitwise_complement()", MR, io.v(a.bitwise_complement()), s = m_not(s); io.v(s));
        OPS_ADDD("opaque_and()", MO, a.opaque_and(io.a), s = m_and(s, io.a));
        OPS_ADDD("opaque_or()", MO, a.opaque_or(io.a), s = m_or(s, io.a));
        OPS_ADDD("opaque_xor()", MO, a.opaque_xor(io.a), s = m_xor(s, io.a));
        OPS_ADDD("opaque_complement()", MO, a.opaque_complement(), s = m_not(s));
        OPS_ADDD("and_and_test()", MR, io.f(a.and_and_test(io.a)), s = m_and(s, io.a); io.f(m_nz(s)));
        OPS_ADDD("or_and_test()", MR, io.f(a.or_and_test(io.a)), s = m_or(s, io.a); io.f(m_nz(s)));
        OPS_ADDD("xor_and_test()", MR, io.f(a.xor_and_test(io.a)), s = m_xor(s, io.a); io.f(m_nz(s)));
        OPS_ADDD("complement_and_test()", MR, io.f(a.complement_and_test()), s = m_not(s); io.f(m_nz(s)));
        OPS_ADDD("bit_test_and_set()", MR, io.f(a.bit_test_and_set(io.bit)), io.f(m_tst(s, io.bit)); s = m_or(s, m_bit<T>(io.bit)));
        OPS_ADDD("bit_test_and_reset()", MR, io.f(a.bit_test_and_reset(io.bit)), io.f(m_tst(s, io.bit)); s = m_and(s, m_not(m_bit<T>(io.bit))));
        OPS_ADDD("bit_test_and_complement()", MR, io.f(a.bit_test_and_complement(io.bit)), io.f(m_tst(s, io.bit)); s = m_xor(s, m_bit<T>(io.bit)));
        OPS_ADDD("&=", OPR, io.v(a &= io.a), s = m_and(s, io.a); io.v(s));
        OPS_ADDD("|=", OPR, io.v(a |= io.a), s = m_or(s, io.a); io.v(s));
        OPS_ADDD("^=", OPR, io.v(a ^= io.a), s = m_xor(s, io.a); io.v(s));
    }
};
template<class Acc> struct reg_def_fp
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES | C_APPROX, MO = C_MOD | C_OPAQUE | C_APPROX, OPR = MR | C_OPERATOR;
        OPS_ADDD("fetch_add()", MR, io.v(a.fetch_add(io.a)), io.v(s); s = T(s + io.a));
        OPS_ADDD("fetch_sub()", MR, io.v(a.fetch_sub(io.a)), io.v(s); s = T(s - io.a));
        OPS_ADDD("fetch_negate()", MR, io.v(a.fetch_negate()), io.v(s); s = -s);
        OPS_ADDD("add()", MR, io.v(a.add(io.a)), s = T(s + io.a); io.v(s));
        OPS_ADDD("sub()", MR, io.v(a.sub(io.a)), s = T(s - io.a); io.v(s));
        OPS_ADDD("negate()", MR, io.v(a.negate()), s = -s; io.v(s));
        OPS_ADDD("opaque_add()", MO, a.opaque_add(io.a), s = T(s + io.a));
        OPS_ADDD("opaque_sub()", MO, a.opaque_sub(io.a), s = T(s - io.a));
        OPS_ADDD("opaque_negate()", MO, a.opaque_negate(), s = -s);
        OPS_ADDD("+=", OPR, io.v(a += io.a), s = T(s + io.a); io.v(s));
        OPS_ADDD("-=", OPR, io.v(a -= io.a), s = T(s - io.a); io.v(s));
    }
};
template<class Acc> struct reg_def_ptr
{
    static void add(Table<Acc>& t)
    {
        typedef typename Acc::T T; const unsigned MR = C_MOD | C_RES, MO = C_MOD | C_OPAQUE, OPR = MR | C_OPERATOR;
        OPS_ADDD("fetch_add()", MR, io.v(a.fetch_add(io.d)), io.v(s); s = m_padd(s, io.d));
        OPS_ADDD("fetch_sub()", MR, io.v(a.fetch_sub(io.d)), io.v(s); s = m_padd(s, -io.d));
        OPS_ADDD("add()", MR, io.v(a.add(io.d)), s = m_padd(s, io.d); io.v(s));
        OPS_ADDD("sub()", MR, io.v(a.sub(io.d)), s = m_padd(s, -io.d); io.v(s));
        OPS_ADDD("opaque_add()", MO, a.opaque_add(io.d), s = m_padd(s, io.d));
        OPS_ADDD("opaque_sub()", MO, a.opaque_sub(io.d), s = m_padd(s, -io.d));
        OPS_ADDD("add_and_test()", MR, io.f(a.add_and_test(io.d)), s = m_padd(s, io.d); io.f(uintptr_t(s) != 0));
        OPS_ADDD("sub_and_test()", MR, io.f(a.sub_and_test(io.d)), s = m_padd(s, -io.d); io.f(uintptr_t(s) != 0));
        OPS_ADDD("x++", OPR, io.v(a++), io.v(s); s = m_padd(s, 1));
        OPS_ADDD("++x", OPR, io.v(++a), s = m_padd(s, 1); io.v(s));
        OPS_ADDD("x--", OPR, io.v(a--), io.v(s); s = m_padd(s, -1));
        OPS_ADDD("--x", OPR, io.v(--a), s = m_padd(s, -1); io.v(s));
        OPS_ADDD("+=", OPR, io.v(a += io.d), s = m_padd(s, io.d); io.v(s));
        OPS_ADDD("-=", OPR, io.v(a -= io.d), s = m_padd(s, -io.d); io.v(s));
    }
};
template<class Acc, memory_order O, Kind K = kind_of<typename Acc::T>::value> struct reg_kind { static void add(Table<Acc>&) {} };
template<class Acc, memory_order O> struct reg_kind<Acc, O, K_INT> { static void add(Table<Acc>& t) { reg_arith<Acc, O>::add(t); reg_bits<Acc, O>::add(t); } };
template<class Acc, memory_order O> struct reg_kind<Acc, O, K_ENUM> { static void add(Table<Acc>& t) { reg_bits<Acc, O>::add(t); } };
template<class Acc, memory_order O> struct reg_kind<Acc, O, K_FP> { static void add(Table<Acc>& t) { reg_fp<Acc, O>::add(t); } };
template<class Acc, memory_order O> struct reg_kind<Acc, O, K_PTR> { static void add(Table<Acc>& t) { reg_ptr<Acc, O>::add(t); } };
template<class Acc, Kind K = kind_of<typename Acc::T>::value> struct reg_def { static void add(Table<Acc>& t) { reg_def_base<Acc>::add(t); } };
template<class Acc> struct reg_def<Acc, K_INT> { static void add(Table<Acc>& t) { reg_def_base<Acc>::add(t); reg_def_arith<Acc>::add(t); reg_def_bits<Acc>::add(t); } };
template<class Acc> struct reg_def<Acc, K_ENUM> { static void add(Table<Acc>& t) { reg_def_base<Acc>::add(t); reg_def_bits<Acc>::add(t); } };
template<class Acc> struct reg_def<Acc, K_FP> { static void add(Table<Acc>& t) { reg_def_base<Acc>::add(t); reg_def_fp<Acc>::add(t); } };
template<class Acc> struct reg_def<Acc, K_PTR> { static void add(Table<Acc>& t) { reg_def_base<Acc>::add(t); reg_def_ptr<Acc>::add(t); } };

#ifndef OPS_ORDERS
#define OPS_ORDERS 2 // 0: default forms and seq_cst/relaxed only, 1: + acquire/release/acq_rel, 2: everything
#endif
template<class Acc> Table<Acc> make_table()
{
    Table<Acc> t; reg_def<Acc>::add(t);
    using namespace boost;
    reg_load<Acc, memory_order_relaxed>::add(t); reg_load<Acc, memory_order_seq_cst>::add(t); reg_store<Acc, memory_order_relaxed>::add(t); reg_store<Acc, memory_order_seq_cst>::add(t);
    reg_xchg<Acc, memory_order_relaxed>::add(t); reg_xchg<Acc, memory_order_seq_cst>::add(t); reg_kind<Acc, memory_order_relaxed>::add(t);
#if OPS_ORDERS >= 1
    reg_load<Acc, memory_order_acquire>::add(t); reg_store<Acc, memory_order_release>::add(t);
    reg_xchg<Acc, memory_order_acquire>::add(t); reg_xchg<Acc, memory_order_release>::add(t); reg_xchg<Acc, memory_order_acq_rel>::add(t);
    reg_kind<Acc, memory_order_acquire>::add(t); reg_kind<Acc, memory_order_release>::add(t);
    reg_cas2<Acc, memory_order_release, memory_order_relaxed>::add(t); reg_cas2<Acc, memory_order_acq_rel, memory_order_acquire>::add(t); reg_cas2<Acc, memory_order_seq_cst, memory_order_relaxed>::add(t); reg_cas2<Acc, memory_order_seq_cst, memory_order_seq_cst>::add(t); reg_cas2<Acc, memory_order_acquire, memory_order_acquire>::add(t);
#endif
#if OPS_ORDERS >= 2
    reg_load<Acc, memory_order_consume>::add(t); reg_xchg<Acc, memory_order_consume>::add(t);
    reg_kind<Acc, memory_order_consume>::add(t); reg_kind<Acc, memory_order_acq_rel>::add(t); reg_kind<Acc, memory_order_seq_cst>::add(t);
    reg_cas2<Acc, memory_order_relaxed, memory_order_relaxed>::add(t); reg_cas2<Acc, memory_order_acquire, memory_order_relaxed>::add(t); reg_cas2<Acc, memory_order_consume, memory_order_consume>::add(t); reg_cas2<Acc, memory_order_acq_rel, memory_order_relaxed>::add(t); reg_cas2<Acc, memory_order_seq_cst, memory_order_acquire>::add(t); reg_cas2<Acc, memory_order_seq_cst, memory_order_consume>::add(t); reg_cas2<Acc, memory_order_consume, memory_order_relaxed>::add(t);
#endif
    return t;
}

// ---------------------------------------------------------------- atomic_flag
template<class F> struct AccFlagT { typedef bool T; typedef F W; static char const* wname() { return sizeof(F) ? "flag" : ""; } static constexpr bool ref = false; template<class I> static void constants(I&) {} F obj; F& get() { return obj; } void* mem() { return &obj; } size_t size() { return sizeof(obj); } };
struct AccFlag : AccFlagT<boost::atomic_flag> { static char const* wname() { return "atomic_flag"; } static constexpr bool ipc = false; };
struct AccIpcFlag : AccFlagT<boost::ipc_atomic_flag> { static char const* wname() { return "ipc_atomic_flag"; } static constexpr bool ipc = true; };
template<class Acc, memory_order O> void reg_flag_rmw(Table<Acc>& t) { typedef bool T; OPS_ADD("test_and_set", C_MOD | C_RES, io.v(a.test_and_set(O)), io.v(s); s = true); }
template<class Acc, memory_order O> void reg_flag_clear(Table<Acc>& t) { typedef bool T; OPS_ADD("clear", C_MOD | C_STORE, a.clear(O), s = false); }
template<class Acc, memory_order O> void reg_flag_test(Table<Acc>& t) { typedef bool T; OPS_ADD("test", C_RES | C_LOAD, io.v(a.test(O)), io.v(s)); }
template<class Acc> Table<Acc> make_flag_table()
{
    typedef bool T; Table<Acc> t; using namespace boost;
    OPS_ADDD("test_and_set()", C_MOD | C_RES, io.v(a.test_and_set()), io.v(s); s = true); OPS_ADDD("clear()", C_MOD | C_STORE, a.clear(), s = false); OPS_ADDD("test()", C_RES | C_LOAD, io.v(a.test()), io.v(s));
    reg_flag_rmw<Acc, memory_order_relaxed>(t); reg_flag_rmw<Acc, memory_order_consume>(t); reg_flag_rmw<Acc, memory_order_acquire>(t); reg_flag_rmw<Acc, memory_order_release>(t); reg_flag_rmw<Acc, memory_order_acq_rel>(t); reg_flag_rmw<Acc, memory_order_seq_cst>(t);
    reg_flag_clear<Acc, memory_order_relaxed>(t); reg_flag_clear<Acc, memory_order_release>(t); reg_flag_clear<Acc, memory_order_seq_cst>(t);
    reg_flag_test<Acc, memory_order_relaxed>(t); reg_flag_test<Acc, memory_order_consume>(t); reg_flag_test<Acc, memory_order_acquire>(t); reg_flag_test<Acc, memory_order_seq_cst>(t);
    return t;
}
template<class Acc> struct table_of { static Table<Acc> make() { return make_table<Acc>(); } };
template<> struct table_of<AccFlag> { static Table<AccFlag> make() { return make_flag_table<AccFlag>(); } };
#ifndef NO_IPC
template<> struct table_of<AccIpcFlag> { static Table<AccIpcFlag> make() { return make_flag_table<AccIpcFlag>(); } };
#endif
template<class Acc> struct type_name { static std::string get(); };
// sets / reads the value with no other thread around
template<class Acc> inline void poke(Acc& h, typename Acc::T const& v) { h.get().store(v, boost::memory_order_relaxed); }
template<class Acc> inline typename Acc::T peek(Acc& h) { return h.get().load(boost::memory_order_relaxed); }
template<> inline void poke<AccFlag>(AccFlag& h, bool const& v) { if (v) h.get().test_and_set(boost::memory_order_relaxed); else h.get().clear(boost::memory_order_relaxed); }
template<> inline bool peek<AccFlag>(AccFlag& h) { return h.get().test(boost::memory_order_relaxed); }
#ifndef NO_IPC
template<> inline void poke<AccIpcFlag>(AccIpcFlag& h, bool const& v) { if (v) h.get().test_and_set(boost::memory_order_relaxed); else h.get().clear(boost::memory_order_relaxed); }
template<> inline bool peek<AccIpcFlag>(AccIpcFlag& h) { return h.get().test(boost::memory_order_relaxed); }
#endif
template<class T> inline std::string show(T const& v, size_t n = sizeof(T)) { char b[80]; std::string r; unsigned char const* p = (unsigned char const*)&v; for (size_t i = n; i-- > 0;) { snprintf(b, sizeof b, "%02x", p[i]); r += b; } return r; }
template<> inline std::string show<Pad5>(Pad5 const& v, size_t) { return "a=" + show(v.a) + " c=" + show(v.c); }
template<> inline std::string show<PadMid>(PadMid const& v, size_t) { return "a=" + show(v.a) + " b=" + show(v.b); }
template<> inline std::string show<PadBig>(PadBig const& v, size_t) { return "a=" + show(v.a) + " b=" + show(v.b) + " c=" + show(v.c); }
template<class T> inline std::string show_result(Io<T> const& io, size_t n = sizeof(T)) { std::string r = "{"; if (io.has & H_F) r += io.rf ? "true " : "false "; if (io.has & H_V) r += show(io.rv, n); return r + "}"; }
template<class Acc> std::string op_text(Op<Acc> const& o, Io<typename Acc::T> const& io)
{ std::string r = std::string(o.name) + "[" + order_name(o.order) + (o.cls & C_CAS ? std::string("/") + order_name(o.forder) : std::string()) + "] a=" + show(io.a); if (o.cls & C_CAS) r += " e=" + show(io.e); r += " d=" + std::to_string(io.d) + " bit=" + std::to_string(io.bit); return r; }
} // namespace ops
