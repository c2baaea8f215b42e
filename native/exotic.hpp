// Value types one rarely sees: empty classes, bit-fields, unions, pointers to members, reused tail padding, over-aligned
// types, nullptr_t. All operations, with the padding of every argument set to noise. Included by layout.cpp.
#include <array>
#include <complex>
#include <chrono>
#include <cstddef>
namespace exo {
struct Empty {}; struct Bits { unsigned a : 3; unsigned b : 7; int c : 5; }; struct OneBit { bool b : 1; }; struct Wide { unsigned long long a : 1, b : 40; };
union Un { int i; float f; }; struct UnS { union { char c; double d; } u; short s; }; struct B0 { int x; char c; }; struct Der : B0 { char d; };
struct LD { long double x; }; struct ZS { _Complex long double z; char c; }; struct ZT { _Complex long double z; }; struct In { char a; short b; }; struct Arr { In v[3]; }; struct BA { bool b[5]; }; struct Nest { Empty e; char c; B0 b; };
struct M { int f(int) { return 1; } int g(int) { return 2; } int a, b, c; }; enum class E8 : unsigned char {}; enum E0 { e0, e1 }; enum EB : bool { no, yes }; typedef float V4 __attribute__((vector_size(16))); typedef short V2 __attribute__((vector_size(4)));
struct alignas(16) Al16 { char c; }; struct alignas(32) Al32 { int a; }; struct alignas(64) Al64 { char c[3]; }; struct Fun { int (*f)(char const*, ...); short s; };
typedef int (M::*PF)(int); typedef int M::*PD; typedef int (*FP)(uint64_t); typedef void const volatile* CV; typedef std::array<char, 3> A3; typedef std::array<short, 3> A6;
template<int K> static int fun(uint64_t) { return K; }
template<class T> static void dirty(T& p, T const& v) { unsigned char g[sizeof(T)]; for (auto& x : g) x = (unsigned char)rnd(256); std::memcpy((void*)std::addressof(p), g, sizeof(T)); p = v; }
// each operation in a frame of its own, on a littered stack
#define OWN template<class W, class T> __attribute__((noinline)) static
OWN void f_new(void* p, T const& v) { new (p) W(v); }
OWN void f_store(W& a, T const& v) { a.store(v); } OWN T f_load(W& a, T const*) { return a.load(); } OWN T f_exchange(W& a, T const& v) { return a.exchange(v); }
OWN bool f_strong(W& a, T& e, T const& v) { return a.compare_exchange_strong(e, v); } OWN bool f_weak(W& a, T& e, T const& v) { return a.compare_exchange_weak(e, v); } OWN T f_wait(W& a, T const& o) { return a.wait(o); }
#undef OWN
template<class W, class T, class EQ> static void ops(W& a, T const& u, T const& v, EQ same, char const* n)
{
    using drv::litter; T const* tag = nullptr;
    T d = u, e = u, o = u; dirty(d, u); litter(); f_store(a, d); CHECK(same(f_load(a, tag), u), "%s: load after store", n); dirty(d, v); litter(); T r = f_exchange(a, d); CHECK(same(r, u) && same(f_load(a, tag), v), "%s: exchange", n);
    bool eqv = same(u, v);
    if (!eqv) { dirty(e, u); litter(); CHECK(!f_strong(a, e, u) && same(e, v) && same(f_load(a, tag), v), "%s: compare_exchange_strong(other value) succeeds", n); dirty(e, u); litter(); CHECK(!f_weak(a, e, u) && same(e, v), "%s: compare_exchange_weak(other value) succeeds", n); }
    dirty(e, v); dirty(d, u); litter(); CHECK(f_strong(a, e, d) && same(e, v) && same(f_load(a, tag), u), "%s: compare_exchange_strong(held value) fails", n);
    dirty(e, u); int k = 0; litter(); while (!f_weak(a, e, v)) { CHECK(same(e, u), "%s: a spurious failure reports another value", n); CHECK(++k < 1000, "%s: compare_exchange_weak never succeeds", n); } CHECK(same(f_load(a, tag), v), "%s: compare_exchange_weak", n);
    if (!eqv) { dirty(o, u); litter(); CHECK(same(f_wait(a, o), v), "%s: wait returns another value", n); auto q = a.wait_for(o, std::chrono::seconds(100)); CHECK(!q.timeout && same(q.value, v), "%s: wait_for on another value", n); }
    dirty(o, v); litter(); auto q = a.wait_for(o, std::chrono::microseconds(1)); CHECK(q.timeout && same(q.value, v), "%s: wait_for on the held value returned without a timeout", n); a.notify_one(); a.notify_all();
}
#ifndef NO_IPC
template<class T, bool> struct ipc { template<class EQ> static void go(T const&, T const&, EQ, char const*) {} };
template<class T> struct ipc<T, true> { template<class EQ> static void go(T const& u, T const& v, EQ same, char const* n) { boost::ipc_atomic<T> a(u); CHECK(same(a.load(), u), "%s: construction (ipc)", n); ops(a, u, v, same, n); } };
#endif
template<class T, class EQ> static void all(T u, T v, EQ same, char const* n)
{
    typedef boost::atomic<T> W; typedef boost::atomic_ref<T> R; struct alignas(W) Mem { unsigned char m[sizeof(W)]; } m; for (auto& x : m.m) x = (unsigned char)rnd(256);
    { T d = u; dirty(d, u); drv::litter(); f_new<W>((void*)m.m, d); W& a = *(W*)m.m; CHECK(same(f_load(a, (T const*)nullptr), u), "%s: construction", n); { T e = u; dirty(e, u); drv::litter(); CHECK(f_strong(a, e, u), "%s: compare_exchange_strong(constructed value) fails", n); } CHECK(same(a.load(), u) && same(a.value(), u), "%s: construction", n); ops(a, u, v, same, n); a.~W(); }
    struct Box { unsigned char pre[64]; alignas(R::required_alignment) T t; unsigned char post[64]; } b; std::memset((void*)&b, 0x5a, sizeof b); dirty(b.t, u);
    { R a(b.t); CHECK(same(a.load(), u), "%s: reference", n); ops(a, u, v, same, n); R c(a); T w = u; dirty(w, u); c = w; CHECK(same(b.t, u), "%s: assignment through a copied reference", n); }
    for (auto x : b.pre) CHECK(x == 0x5a, "%s: bytes before the object changed", n); for (auto x : b.post) CHECK(x == 0x5a, "%s: bytes after the object changed", n);
#ifndef NO_IPC
    ipc<T, boost::ipc_atomic<T>::is_always_lock_free>::go(u, v, same, n);
#endif
    drv::metric("exotic_types", 1);
}
#define EXO(T, U, V, ...) all<T>(U, V, [](T const& x, T const& y) -> bool { return __VA_ARGS__; }, #T)
static void run(uint64_t n)
{
    uint64_t r = rnd64(), s = r ^ (uint64_t(1) << rnd(64)); drv::distinct(n); drv::sample("types with bit-fields, pointers to members, no value bits, unusual alignment");
    { Wide u = { 0, 0 }, v; u.a = r & 1; u.b = r >> 1; v.a = s & 1; v.b = s >> 1; (void)u; (void)v;
#ifndef BOOST_ATOMIC_NO_CLEAR_PADDING
    EXO(Wide, u, v, x.a == y.a && x.b == y.b);
#endif
    }
    EXO(PF, (r & 1) ? &M::f : &M::g, (s & 2) ? &M::f : PF(), x == y); EXO(PD, (r & 1) ? &M::a : &M::b, (s & 1) ? &M::c : PD(), x == y); EXO(FP, (r & 1) ? &fun<1> : &fun<2>, (s & 2) ? &fun<1> : FP(), x == y);
    EXO(EB, EB(r & 1), EB(s & 1), x == y); { V4 u = { float(int(r)), 1, float(int(r >> 32)), 2 }, v = { float(int(s)), 1, float(int(s >> 32)), 2 }; EXO(V4, u, v, std::memcmp(&x, &y, 16) == 0); V2 k = { short(r), short(r >> 16) }, l = { short(s), short(s >> 16) }; EXO(V2, k, l, std::memcmp(&x, &y, 4) == 0); }
    EXO(E8, E8(r), E8(s), x == y); EXO(E0, E0(r & 1), E0(s & 1), x == y); EXO(char16_t, char16_t(r), char16_t(s), x == y); EXO(wchar_t, wchar_t(r), wchar_t(s), x == y); EXO(CV, CV(uintptr_t(r)), CV(uintptr_t(s)), x == y);
    { Un u, v; u.i = int(r); v.i = int(s); EXO(Un, u, v, x.i == y.i); } { BA u, v; for (int i = 0; i < 5; ++i) { u.b[i] = r >> i & 1; v.b[i] = s >> i & 1; } EXO(BA, u, v, std::memcmp(&x, &y, 5) == 0); }
    { A3 u = { { char(r), char(r >> 8), char(r >> 16) } }, v = { { char(s), char(s >> 8), char(s >> 16) } }; EXO(A3, u, v, x == y); } { A6 u = { { short(r), short(r >> 16), short(r >> 32) } }, v = { { short(s), short(s >> 16), short(s >> 32) } }; EXO(A6, u, v, x == y); }
    { std::chrono::nanoseconds u{ int64_t(r) }, v{ int64_t(s) }; EXO(std::chrono::nanoseconds, u, v, x == y); }
    { typedef std::complex<float> CF; CF u(float(int(r)), float(int(r >> 32))), v(float(int(s)), float(int(s >> 32))); EXO(CF, u, v, x == y); }
#ifndef BOOST_ATOMIC_NO_CLEAR_PADDING
    { typedef std::complex<long double> CL; CL u(float(int(r)), float(int(r >> 32))), v(float(int(s)), float(int(s >> 32))); EXO(CL, u, v, x == y); typedef _Complex long double ZL; ZL zu, zv; std::memset(&zu, 0, sizeof zu); __real__ zu = u.real(); __imag__ zu = u.imag(); __real__ zv = v.real(); __imag__ zv = v.imag(); EXO(ZL, zu, zv, x == y); ZS su = { zu, 1 }, sv = { zv, 1 }; EXO(ZS, su, sv, x.z == y.z && x.c == y.c); ZT tu = { zu }, tv = { zv }; EXO(ZT, tu, tv, x.z == y.z); }
    EXO(Empty, Empty(), Empty(), (void)x, (void)y, true); EXO(std::nullptr_t, nullptr, nullptr, (void)x, (void)y, true);
    { Bits u = { unsigned(r) & 7, unsigned(r >> 3) & 127, int(r >> 10 & 15) }, v = { unsigned(s) & 7, unsigned(s >> 3) & 127, int(s >> 10 & 15) }; EXO(Bits, u, v, x.a == y.a && x.b == y.b && x.c == y.c); }
    { OneBit u = { bool(r & 1) }, v = { bool(s & 1) }; EXO(OneBit, u, v, x.b == y.b); }
    { Der u, v; u.x = int(r); u.c = char(r >> 32); u.d = char(r >> 40); v.x = int(s); v.c = char(s >> 32); v.d = char(s >> 40); EXO(Der, u, v, x.x == y.x && x.c == y.c && x.d == y.d); }
    { LD u = { (long double)int64_t(r) }, v = { (long double)int64_t(s) }; EXO(LD, u, v, x.x == y.x); } { Arr u = {}, v = {}; for (int i = 0; i < 3; ++i) { u.v[i].a = char(r >> i * 8); u.v[i].b = short(r >> i * 16); v.v[i].a = char(s >> i * 8); v.v[i].b = short(s >> i * 16); } EXO(Arr, u, v, x.v[0].a == y.v[0].a && x.v[1].a == y.v[1].a && x.v[2].a == y.v[2].a && x.v[0].b == y.v[0].b && x.v[1].b == y.v[1].b && x.v[2].b == y.v[2].b); }
    { Nest u = {}, v = {}; u.c = char(r); u.b.x = int(r >> 8); u.b.c = char(r >> 40); v.c = char(s); v.b.x = int(s >> 8); v.b.c = char(s >> 40); EXO(Nest, u, v, x.c == y.c && x.b.x == y.b.x && x.b.c == y.b.c); }
    { Al16 u = { char(r) }, v = { char(s) }; EXO(Al16, u, v, x.c == y.c); } { Al32 u = { int(r) }, v = { int(s) }; EXO(Al32, u, v, x.a == y.a); } { Al64 u = { { char(r), char(r >> 8), char(r >> 16) } }, v = { { char(s), char(s >> 8), char(s >> 16) } }; EXO(Al64, u, v, std::memcmp(x.c, y.c, 3) == 0); }
    { Fun u = { nullptr, short(r) }, v = { nullptr, short(s) }; EXO(Fun, u, v, x.f == y.f && x.s == y.s); }
#endif
}
} // namespace exo
