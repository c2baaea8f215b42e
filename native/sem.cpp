// Differential monitor: every operation of every wrapper and type, on special and random values, against exact arithmetic.
// Objects lie against inaccessible pages. With CONSTS the operands are compile-time constants (immediate operands).
#include <cstdint>
#include <type_traits>
namespace sem { template<class T> T value(uint32_t (*r)(uint32_t)); }
#define ANY_VALUE sem::value
#ifdef CONSTS
#define OPS_PRE Acc::constants(io)
#define OPS_POST
#endif
#include "../common/any.hpp"
#include "../common/drv.hpp"
#include <sys/mman.h>
#include <cmath>
#ifndef GROUP
#define GROUP 0
#endif
#ifndef NO_IPC
#define IPC(X) X
#else
#define IPC(X)
#endif
using namespace ops; using drv::rnd; using drv::fail;

namespace sem {
template<class T, Kind K = kind_of<T>::value> struct gen { static T make(uint32_t (*r)(uint32_t)) { return maker<T>::make(uint64_t(r(0xffffffffu)) << 32 | r(0xffffffffu)); } };
template<class T> struct gen_int
{
    typedef typename bits<T>::U U;
    static T make(uint32_t (*r)(uint32_t))
    {
        unsigned const W = sizeof(T) * 8; U u = 0; for (unsigned i = 0; i < sizeof(T); i += 4) u = U(U(u << (W > 32 ? 32 : 0)) | U(r(0xffffffffu) ^ r(2) << 31));
        switch (r(8)) { case 0: u = U(r(3)); break; case 1: u = U(U(0) - U(1) - U(r(3))); break; case 2: u = U(U(1) << (W - 1)); break; case 3: u = U(U(1) << (W - 1)) - U(1 + r(2)); break; case 4: u = U(1) << r(W); break; case 5: u = U((U(1) << r(W)) - U(1)); if (r(2)) u = U(~u); break; default: break; }
        return bits<T>::put(u);
    }
};
template<class T> struct gen<T, K_INT> : gen_int<T> {}; template<class T> struct gen<T, K_ENUM> : gen_int<T> {};
template<class T> struct gen<T, K_BOOL> { static T make(uint32_t (*r)(uint32_t)) { return r(2) != 0; } };
template<class T> struct gen<T, K_FP>
{
    static T make(uint32_t (*r)(uint32_t))
    {
        typedef std::numeric_limits<T> L;
        switch (r(12))
        {
        case 0: return r(2) ? T(0) : T(-0.0); case 1: return r(2) ? L::infinity() : -L::infinity(); case 2: return r(2) ? L::quiet_NaN() : -L::quiet_NaN(); case 3: return r(2) ? L::denorm_min() : -T(r(1000)) * L::denorm_min();
        case 4: return r(2) ? L::max() : -L::max(); case 5: return r(2) ? L::min() : -L::min(); case 6: return T(1) + L::epsilon() * T(r(4)); case 7: return T(int(r(2001)) - 1000) / T(8);
        default: { T m = T(1) + T(r(0xffffffffu)) / T(4294967296.0); int e = int(r(L::max_exponent - L::min_exponent)) + L::min_exponent; T v = r(3) ? std::ldexp(m, int(r(40)) - 20) : std::ldexp(m, e); return r(2) ? v : -v; }
        }
    }
};
template<class T> struct gen<T, K_STRUCT> { static T make(uint32_t (*r)(uint32_t)) { uint64_t x = uint64_t(r(0xffffffffu)) << 32 | r(0xffffffffu); if (r(4) == 0) x = r(3); T v; std::memset((void*)&v, int(r(256)), sizeof v); T w = maker<T>::make(x); put(v, w); return v; }
    template<class U> static void put(U& d, U const& s) { d = s; } static void put(Pad5& d, Pad5 const& s) { d.a = s.a; d.c = s.c; } static void put(PadMid& d, PadMid const& s) { d.a = s.a; d.b = s.b; } static void put(PadBig& d, PadBig const& s) { d.a = s.a; d.b = s.b; d.c = s.c; } };
template<class T> T value(uint32_t (*r)(uint32_t)) { return gen<T>::make(r); }
}

// objects against an inaccessible page: END after, START before
static size_t const PG = 4096;
static unsigned char* pages(size_t n) { size_t k = (n + PG - 1) / PG; unsigned char* p = (unsigned char*)mmap(nullptr, (k + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + PG, k * PG, PROT_READ | PROT_WRITE); std::memset(p + PG, 0xa7, k * PG); return p + PG; }
template<class O> static O* place(bool end) { unsigned char* p = pages(sizeof(O)); size_t k = (sizeof(O) + PG - 1) / PG * PG; return (O*)(end ? p + k - sizeof(O) : p); }
struct NoConst { template<class I> static void constants(I&) {} };
#define ACC_BODY(NAME) typedef TT T; static char const* wname() { return NAME; } template<class I> static void constants(I& io) { C::constants(io); }
template<class TT, bool E = true, class C = NoConst> struct PgAtomic { ACC_BODY("atomic") typedef boost::atomic<T> W; static constexpr bool ipc = false, ref = false; W* p; PgAtomic() : p(new (place<W>(E)) W(T())) {} W& get() { return *p; } void* mem() { return p; } size_t size() { return sizeof(W); } };
template<class TT, bool E = true, class C = NoConst> struct PgVol { ACC_BODY("volatile atomic") typedef boost::atomic<T> W; static constexpr bool ipc = false, ref = false; W* p; PgVol() : p(new (place<W>(E)) W(T())) {} W volatile& get() { return *p; } void* mem() { return p; } size_t size() { return sizeof(W); } };
template<class TT, bool E = true, class C = NoConst> struct PgRef { ACC_BODY("atomic_ref") typedef boost::atomic_ref<T> W; static constexpr bool ipc = false, ref = true; T* p; PgRef() : p(new (place<T>(E)) T()) {} W get() { return W(*p); } void* mem() { return p; } size_t size() { return sizeof(T); } };
template<class TT, bool E = true, class C = NoConst> struct PgRefC { ACC_BODY("copy of const atomic_ref") typedef boost::atomic_ref<T> W; static constexpr bool ipc = false, ref = true; T* p; W const* w; PgRefC() : p(new (place<T>(E)) T()), w(new W(*p)) {} W const get() { W const c(*w); return W(c); } void* mem() { return p; } size_t size() { return sizeof(T); } };
#ifndef NO_IPC
template<class TT, bool E = true, class C = NoConst> struct PgIpc { ACC_BODY("ipc_atomic") typedef boost::ipc_atomic<T> W; static constexpr bool ipc = true, ref = false; W* p; PgIpc() : p(new (place<W>(E)) W(T())) {} W& get() { return *p; } void* mem() { return p; } size_t size() { return sizeof(W); } };
template<class TT, bool E = true, class C = NoConst> struct PgIpcRef { ACC_BODY("ipc_atomic_ref") typedef boost::ipc_atomic_ref<T> W; static constexpr bool ipc = true, ref = true; T* p; PgIpcRef() : p(new (place<T>(E)) T()) {} W get() { return W(*p); } void* mem() { return p; } size_t size() { return sizeof(T); } };
#endif
// the object under a reference is written directly, with arbitrary padding; a reference constructed later has to cope
template<class T, Kind K = kind_of<T>::value> struct assign { static void go(T& d, T const& s) { d = s; } };
template<class T> struct assign<T, K_STRUCT> { static void go(T& d, T const& s) { sem::gen<T, K_STRUCT>::put(d, s); } };
template<class T, bool E, class C> void poke(PgRef<T, E, C>& h, T const& v) { std::memset((void*)h.p, int(rnd(256)), sizeof(T)); assign<T>::go(*h.p, v); }
namespace ops { template<class T> void any_wait(boost::atomic<T> volatile& a, T const& v, int) { a.wait(v); } }

static std::vector<AnyBase*> objs; static std::vector<int> kinds;
template<class Acc> static void reg(char const* tn) { objs.push_back(new Any<Acc>(tn)); kinds.push_back(kind_of<typename Acc::T>::value); }
#ifdef CONSTS
// operands as constants: i-th constant of the value type
template<class T, int I, Kind K = kind_of<T>::value> struct cv { static constexpr T get() { return T(); } };
template<class U> constexpr U cbits(int i) { return i == 0 ? U(0) : i == 1 ? U(1) : i == 2 ? U(~U(0)) : i == 3 ? U(2) : i == 4 ? U(U(~U(0)) << (sizeof(U) * 8 - 1)) : i == 5 ? U(U(~U(0)) >> 1) : i == 6 ? U(127) : i == 7 ? U(128) : i == 8 ? U(U(0) - U(128)) : i == 9 ? U(U(0) - U(129)) : i == 10 ? U(0x80000000u) : i == 11 ? U(U(0) - U(0x80000000u)) : i == 12 ? U(0x7fffffffu) : i == 13 ? U(U(0x55) * (U(~U(0)) / U(255))) : i == 14 ? U(U(1) << (sizeof(U) * 4)) : U(U(0) - U(2)); }
template<class T, int I> struct cv<T, I, K_INT> { static constexpr T get() { return T(cbits<typename bits<T>::U>(I)); } };
template<class T, int I> struct cv<T, I, K_ENUM> { static constexpr T get() { return T(cbits<typename bits<T>::U>(I)); } };
template<class T, int I> struct cv<T, I, K_BOOL> { static constexpr T get() { return I & 1; } };
template<class T, int I> struct cv<T, I, K_FP> { static constexpr T get() { return I == 0 ? T(0) : I == 1 ? T(1) : I == 2 ? T(-1) : I == 3 ? T(-0.0) : I == 4 ? T(0.5) : T(I) * T(1.25); } };
template<class T, int I> struct cv<T, I, K_PTR> { static constexpr T get() { return nullptr; } };
template<class T, int I> struct Konst { static void constants(Io<T>& io) { io.a = cv<T, I>::get(); constexpr long d[] = { 0, 1, -1, 2, 127, 128, -128, -129, 16, 31, 32, -16, -17, 1000000, 4096, -2 }; constexpr long D = d[I]; io.d = D; constexpr unsigned B = unsigned(I * 11) % (sizeof(T) * 8); constexpr unsigned B2 = I == 15 ? sizeof(T) * 8 - 1 : B; io.bit = B2; if (I % 3 == 1) io.e = cv<T, (I + 3) & 15>::get(); } };
template<template<class, bool, class> class P, class T, int I> static void regk1(char const* tn) { reg<P<T, true, Konst<T, I> > >(tn); }
template<template<class, bool, class> class P, class T> static void regk(char const* tn)
{
#if CONSTS == 1
    regk1<P, T, 0>(tn); regk1<P, T, 1>(tn); regk1<P, T, 2>(tn); regk1<P, T, 3>(tn); regk1<P, T, 4>(tn); regk1<P, T, 5>(tn); regk1<P, T, 6>(tn); regk1<P, T, 7>(tn);
#else
    regk1<P, T, 8>(tn); regk1<P, T, 9>(tn); regk1<P, T, 10>(tn); regk1<P, T, 11>(tn); regk1<P, T, 12>(tn); regk1<P, T, 13>(tn); regk1<P, T, 14>(tn); regk1<P, T, 15>(tn);
#endif
}
static void register_all()
{
#if GROUP == 0 || GROUP == 1
    regk<PgAtomic, uint8_t>("uint8"); regk<PgAtomic, int32_t>("int32"); regk<PgRef, int16_t>("int16");
#endif
#if GROUP == 0 || GROUP == 2
    regk<PgAtomic, uint64_t>("uint64"); regk<PgRef, int8_t>("int8"); regk<PgAtomic, S12*>("s12*"); regk<PgAtomic, double>("double");
#endif
#if GROUP == 0 || GROUP == 3
    regk<PgVol, int64_t>("int64"); regk<PgRef, uint32_t>("uint32"); regk<PgAtomic, uint16_t>("uint16");
#endif
#if GROUP == 0 || GROUP == 4
    regk<PgAtomic, i128>("int128"); regk<PgRef, int*>("int*"); regk<PgAtomic, E8>("enum8"); regk<PgRef, float>("float");
#endif
}
#else
static void register_all()
{
#if GROUP == 0 || GROUP == 1
    reg<PgAtomic<uint8_t> >("uint8"); reg<PgRef<int16_t> >("int16"); reg<PgAtomic<int32_t, false> >("int32"); reg<PgRefC<uint64_t> >("uint64"); reg<PgAtomic<double> >("double"); reg<PgAtomic<int*> >("int*"); reg<PgAtomic<bool> >("bool"); reg<PgRef<Bytes<3> > >("bytes3");
#endif
#if GROUP == 0 || GROUP == 2
    reg<PgVol<int8_t> >("int8"); reg<PgAtomic<uint16_t> >("uint16"); IPC(reg<PgIpc<uint32_t> >("uint32");) reg<PgAtomic<int64_t> >("int64"); reg<PgAtomic<float> >("float"); reg<PgAtomic<E32> >("enum32"); reg<PgAtomic<Bytes<3> > >("bytes3"); reg<PgRef<void*> >("void*");
#endif
#if GROUP == 0 || GROUP == 3
    reg<PgAtomic<i128> >("int128"); reg<PgRef<u128> >("uint128"); reg<PgRef<long double> >("longdouble"); reg<PgAtomic<Words<2> > >("words2"); reg<PgAtomic<Bytes<24> > >("bytes24"); reg<PgRef<S12*, false> >("s12*"); reg<PgAtomic<E8> >("enum8"); IPC(reg<PgIpcRef<int32_t> >("int32");)
#endif
#if GROUP == 0 || GROUP == 4
    reg<PgAtomic<long double> >("longdouble"); reg<PgVol<uint64_t> >("uint64"); reg<PgRef<uint32_t, false> >("uint32"); reg<PgRef<double> >("double"); reg<PgRef<float> >("float"); IPC(reg<PgIpc<int16_t> >("int16"); reg<PgIpcRef<uint8_t> >("uint8"); reg<PgIpc<double> >("double");) reg<PgRef<E64> >("enum64"); reg<PgAtomic<wchar_t> >("wchar_t"); reg<PgAtomic<char16_t> >("char16_t");
#if defined(__GNUC__) && !defined(__clang__)
    reg<PgAtomic<Pad5> >("pad5"); reg<PgRef<Pad5> >("pad5"); reg<PgAtomic<PadMid> >("padmid"); reg<PgRef<PadMid> >("padmid"); reg<PgAtomic<PadBig> >("padbig"); reg<PgRef<PadBig> >("padbig");
#endif
#endif
}
#endif
static AnyBase* X; static uint32_t R(uint32_t n) { return rnd(n); }
static std::vector<std::pair<unsigned, unsigned> > work;
static void run(uint64_t n)
{
    size_t k = size_t((n * 7919u) % work.size()); if (work.size() % 7919u == 0) k = size_t(n % work.size());
    X = objs[work[k].first]; static const int s0[] = { 0 };
    for (int rep = 0; rep < 8; ++rep)
    {
        drv::litter(); X->reset(R); X->set_op(0, work[k].second, R); Info i = X->slot_info(0); bool weak_failed = false;
        for (int tries = 0; ; ++tries) { drv::litter(); X->run(0); weak_failed = (i.cls & C_WEAK) && !X->slot_flag(0) && !X->explains_exact(0); if (!weak_failed) break; if (tries > 100000) fail("livelock", "%s init=%s %s keeps failing", X->name().c_str(), X->init_text().c_str(), X->slot_text(0).c_str()); drv::metric("weak_failures", 1); }
        drv::metric("operations", 1); drv::distinct(drv::mix(X->outcome_hash(1)));
        if (!X->explains(0, nullptr, 0)) fail("wrong-result", "%s init=%s %s -> %s", X->name().c_str(), X->init_text().c_str(), X->slot_text(0).c_str(), X->slot_result(0).c_str());
        if (!X->final_is(s0, 1)) fail("wrong-value", "%s init=%s %s -> %s leaves %s", X->name().c_str(), X->init_text().c_str(), X->slot_text(0).c_str(), X->slot_result(0).c_str(), X->final_text().c_str());
        if (n < 4 && rep == 0) drv::sample("%s init=%s %s -> %s final %s", X->name().c_str(), X->init_text().c_str(), X->slot_text(0).c_str(), X->slot_result(0).c_str(), X->final_text().c_str());
    }
}
// only what lies around the object counts: inaccessible pages and the rest of the object's own pages
static void reach(uint64_t n)
{
    size_t k = size_t((n * 7919u) % work.size()); if (work.size() % 7919u == 0) k = size_t(n % work.size());
    X = objs[work[k].first]; unsigned char* m = (unsigned char*)X->mem(); size_t sz = X->size(); unsigned char* p = (unsigned char*)((uintptr_t)m & ~(uintptr_t)(PG - 1)); size_t tot = ((size_t)(m - p) + sz + PG - 1) / PG * PG;
    static std::vector<unsigned char> want; if (want.size() < tot) want.resize(tot, 0xa7);
    for (int rep = 0; rep < 3; ++rep)
    {
        drv::litter(); X->reset(R); X->set_op(0, work[k].second, R); X->run(0); drv::metric("operations", 1); drv::distinct(drv::mix(X->outcome_hash(1)));
        if (std::memcmp(p, &want[0], size_t(m - p)) || std::memcmp(m + sz, &want[0], size_t(p + tot - (m + sz)))) fail("neighbours", "%s init=%s %s changed bytes outside the object", X->name().c_str(), X->init_text().c_str(), X->slot_text(0).c_str());
    }
}
int main(int argc, char** argv)
{
    drv::setup(argc, argv, "sem"); register_all(); uint64_t N = drv::S().iters;
    auto make = [](bool fp, bool cas) { work.clear(); for (unsigned i = 0; i < objs.size(); ++i) for (unsigned o = 0; o < objs[i]->nops(); ++o) { bool c = (objs[i]->info(o).cls & C_CAS) != 0; if (cas ? c : !c && (kinds[i] == K_FP) == fp) work.push_back(std::make_pair(i, o)); } return !work.empty(); };
    if (make(false, false)) drv::scenario("int", N, run);
    if (make(true, false)) drv::scenario("fp", N, run);
    if (make(false, true)) drv::scenario("cas", N, run);
    if (!drv::S().only.empty()) { work.clear(); for (unsigned i = 0; i < objs.size(); ++i) for (unsigned o = 0; o < objs[i]->nops(); ++o) work.push_back(std::make_pair(i, o)); drv::scenario("reach", N, reach); }
    return drv::finish();
}
