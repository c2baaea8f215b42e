// Objects: initial values, static initialization, size and alignment in every context, value(), conversions, copies of
// references, agreement of capability constants and macros.
#include "layout.hpp"
#include "../common/drv.hpp"
#include <sys/mman.h>
#include <new>
#include <memory>
#include <type_traits>
using drv::fail; using drv::rnd; using drv::rnd64;

static uint64_t checks;
#define CHECK(c, ...) do { ++checks; if (!(c)) fail("layout", __VA_ARGS__); } while (0)
template<class T> static bool eq(T const& a, T const& b) { return std::memcmp((void const*)&a, (void const*)&b, std::is_same<T, long double>::value ? 10 : sizeof(T)) == 0; }

// ------------------------------------------------------------------ static initialization
// The constructor of 'early' runs before every dynamic initializer of this program; constant-initialized objects already have their values.
#if defined(__has_builtin)
#if __has_builtin(__builtin_bit_cast)
#define HAVE_BIT_CAST 1
#endif
#endif
static int early_bad; static char const* early_what = "";
template<class T> static void early_check(boost::atomic<T> const& a, T const& v, char const* n) { unsigned char const* p = (unsigned char const*)&a; if (std::memcmp(p, (void const*)&v, sizeof v)) { early_bad = 1; early_what = n; } }
template<class T, class W> static void early_check_ipc(W const& a, T const& v, char const* n) { unsigned char const* p = (unsigned char const*)&a; if (std::memcmp(p, (void const*)&v, sizeof v)) { early_bad = 1; early_what = n; } }
#define STAT(n, T, ...) extern boost::atomic<T> n;
#define LIST_SURE(X) X(s_bool, bool, true) X(s_char, char, 'x') X(s_schar, signed char, -7) X(s_uchar, unsigned char, 200) X(s_wchar, wchar_t, L'w') X(s_c16, char16_t, u'q') X(s_c32, char32_t, U'z') X(s_short, short, -1234) X(s_ushort, unsigned short, 54321) X(s_int, int, -123456) X(s_uint, unsigned, 3000000000u) X(s_long, long, -5000000000L) \
    X(s_ulong, unsigned long, 0xf123456789abcdefUL) X(s_llong, long long, -77LL) X(s_ullong, unsigned long long, 88ULL) X(s_i128, __int128, ((__int128)7 << 64) + 9) X(s_eu, EU, EU(9)) X(s_el, EL, EL(-9))
#define LIST_CAST(X) X(s_float, float, 1.5f) X(s_double, double, -2.25) X(s_p2, P2, P2{ 3, 4 })
LIST_SURE(STAT)
#ifdef HAVE_BIT_CAST
LIST_CAST(STAT)
#endif
#ifndef NO_IPC
extern boost::ipc_atomic<int> s_ipc; extern boost::ipc_atomic<unsigned long> s_ipc_ul; extern boost::ipc_atomic_flag s_ipc_flag;
#endif
extern boost::atomic_flag s_flag; extern boost::atomic_flag s_flag_init;
struct Early
{
    Early()
    {
#define EC(n, T, ...) early_check<T>(n, static_cast<T>(__VA_ARGS__), #n);
        LIST_SURE(EC)
#ifdef HAVE_BIT_CAST
        LIST_CAST(EC)
#endif
#ifndef NO_IPC
        early_check_ipc<int>(s_ipc, 77, "ipc_atomic<int>"); early_check_ipc<unsigned long>(s_ipc_ul, 78, "ipc_atomic<unsigned long>");
#endif
    }
};
static Early early __attribute__((init_priority(101)));
#define DEFN(n, T, ...) boost::atomic<T> n(static_cast<T>(__VA_ARGS__));
LIST_SURE(DEFN)
#ifdef HAVE_BIT_CAST
LIST_CAST(DEFN)
#endif
#ifndef NO_IPC
boost::ipc_atomic<int> s_ipc(77); boost::ipc_atomic<unsigned long> s_ipc_ul{ 78 }; boost::ipc_atomic_flag s_ipc_flag;
#define IPC_FLAG_SET s_ipc_flag.test()
#else
#define IPC_FLAG_SET false
#endif
boost::atomic_flag s_flag; boost::atomic_flag s_flag_init = BOOST_ATOMIC_FLAG_INIT;
boost::atomic<int> shared_int(5); boost::atomic<P40> shared_p40; boost::atomic<P4> shared_p4; boost::atomic<long double> shared_ld; boost::atomic_flag shared_flag;
static void statics(uint64_t n)
{
    if (early_bad) fail("static-init", "%s, initialised with a constant, did not have its value before dynamic initialization", early_what);
#define NOW(n, T, ...) CHECK(eq<T>(n.load(), static_cast<T>(__VA_ARGS__)), "static object %s lost its initial value", #n);
    if (n == 0) { LIST_SURE(NOW) CHECK(!s_flag.test() && !IPC_FLAG_SET && !s_flag_init.test(), "a default-initialised flag is set"); }
    drv::metric("static_objects", 24); drv::distinct(n);
    drv::sample("%d namespace-scope atomics had their values before the first dynamic initializer", 24);
}

// ------------------------------------------------------------------ one type
template<class T> struct rv { static T make() { T v; unsigned char* p = (unsigned char*)&v; for (size_t i = 0; i < sizeof v; ++i) p[i] = (unsigned char)rnd(256); return v; } };
template<> struct rv<bool> { static bool make() { return rnd(2); } };
template<> struct rv<float> { static float make() { return float(int(rnd(100000)) - 50000) / 8; } };
template<> struct rv<double> { static double make() { return double(int64_t(rnd64() >> 20)) / 1024; } };
template<> struct rv<long double> { static long double make() { return (long double)(int64_t)(rnd64()) / 1024; } };
#ifdef __cpp_aligned_new
#define ALIGNED_NEW 1
#else
#define ALIGNED_NEW 0
#endif
template<class W> struct Member { char c; W a; char d; };
template<class W> struct Derived : W { Derived() {} char z; };
template<class W, class T> static void object(char const* wn, char const* tn)
{
    T const dv = T(); T v = rv<T>::make(), w = rv<T>::make();
    size_t const A = alignof(W), Z = sizeof(W); bool lf = W::is_always_lock_free;
    CHECK(Z >= sizeof(T) && A >= alignof(T) && Z % A == 0, "%s<%s>: size %zu alignment %zu", wn, tn, Z, A);
    if (lf) CHECK((Z & (Z - 1)) == 0 && A >= Z, "%s<%s> is lock-free with size %zu and alignment %zu", wn, tn, Z, A);
    CHECK(Z <= (sizeof(T) < 16 ? 2 * sizeof(T) : sizeof(T) + A), "%s<%s>: %zu bytes for a value of %zu", wn, tn, Z, sizeof(T));
    // default construction over garbage: heap, array, member, automatic
    unsigned fillb = rnd(256);
    { void* p = aligned_alloc(A < 16 ? 16 : A, (Z + 15 + A) / (A < 16 ? 16 : A) * (A < 16 ? 16 : A)); std::memset(p, int(fillb), Z); W* o = new (p) W; CHECK(eq<T>(o->load(), dv) && eq<T>(o->value(), dv), "%s<%s>: default-constructed value is not T()", wn, tn); o->~W(); std::memset(p, int(fillb), Z); o = new (p) W(); CHECK(eq<T>(o->load(), dv), "%s<%s>(): not T()", wn, tn); o->~W();
      std::memset(p, int(fillb), Z); o = new (p) W{}; CHECK(eq<T>(o->load(), dv), "%s<%s>{}: not T()", wn, tn); o->~W(); std::memset(p, int(fillb), Z); o = new (p) W(v); CHECK(eq<T>(o->load(), v), "%s<%s>(v): not v", wn, tn);
      CHECK((void*)std::addressof(o->value()) == p, "%s<%s>: value() is elsewhere", wn, tn);
      T e = v; CHECK(o->compare_exchange_strong(e, w) && eq<T>(e, v), "%s<%s>(v): compare_exchange(v, w) fails", wn, tn); CHECK(eq<T>(o->load(), w) && eq<T>(T(*o), w) && eq<T>(o->value(), w) && eq<T>(const_cast<W const&>(*o).value(), w) && eq<T>(T(const_cast<W const&>(*o)), w) && eq<T>(T(const_cast<W const volatile&>(*o)), w), "%s<%s>: value(), conversion and load disagree", wn, tn);
      o->value() = v; CHECK(eq<T>(o->load(), v), "%s<%s>: writing through value() is not seen", wn, tn);
      T r = (*o = w); CHECK(eq<T>(r, w) && eq<T>(o->load(), w), "%s<%s>: assignment", wn, tn); r = (const_cast<W volatile&>(*o) = v); CHECK(eq<T>(r, v) && eq<T>(o->load(), v), "%s<%s>: assignment (volatile)", wn, tn);
      CHECK(o->is_lock_free() == const_cast<W const volatile&>(*o).is_lock_free() && (!lf || o->is_lock_free()), "%s<%s>: is_lock_free contradicts is_always_lock_free", wn, tn); CHECK(!W::always_has_native_wait_notify || o->has_native_wait_notify(), "%s<%s>: has_native_wait_notify contradicts always_has_native_wait_notify", wn, tn);
      free(p); }
    { unsigned const N = 5; std::unique_ptr<W[]> h(new W[N]); W a[N]; Member<W> m[3]; static W s[N]; W* all[] = { &h[0], &h[4], &a[0], &a[3], &m[0].a, &m[2].a, &s[1], &s[4] };
      for (W* o : all) { if (A > 16 && !ALIGNED_NEW && o >= &h[0] && o < &h[0] + N) continue; CHECK(uintptr_t(o) % (lf ? Z : alignof(T)) == 0, "%s<%s> object at %p is misaligned", wn, tn, (void*)o); CHECK(eq<T>(o->load(), dv) || (o >= s && o < s + N), "%s<%s>: element not value-initialised", wn, tn); }
      for (unsigned i = 0; i < N; ++i) h[i].store(i & 1 ? v : w); for (unsigned i = 0; i < N; ++i) { T r = h[i].exchange(i & 1 ? w : v); CHECK(eq<T>(r, i & 1 ? v : w), "%s<%s>: neighbouring array elements interfere", wn, tn); }
      m[1].c = 'c'; m[1].d = 'd'; m[1].a.store(v); T e = v; m[1].a.compare_exchange_strong(e, w); CHECK(m[1].c == 'c' && m[1].d == 'd' && eq<T>(m[1].a.load(), w), "%s<%s>: member changes its neighbours", wn, tn);
      Derived<W> d; d.z = 'z'; d.store(v); CHECK(d.z == 'z' && eq<T>(d.exchange(w), v) && d.z == 'z', "%s<%s>: base class subobject", wn, tn); }
    drv::metric("objects", 1);
}
template<class R, class T> static void reference(char const* wn, char const* tn)
{
    struct Box { unsigned char pre[16]; alignas(R::required_alignment) T v; unsigned char post[16]; }; Box b; unsigned f = rnd(256); std::memset((void*)&b, int(f), sizeof b); T v = rv<T>::make(), w = rv<T>::make(); b.v = v;
    CHECK(R::required_alignment >= alignof(T) && (R::required_alignment & (R::required_alignment - 1)) == 0, "%s<%s>::required_alignment is %zu", wn, tn, size_t(R::required_alignment));
    if (R::is_always_lock_free) CHECK(R::required_alignment % sizeof(T) == 0, "%s<%s> is lock-free with required_alignment %zu", wn, tn, size_t(R::required_alignment));
    auto same = [&](T const& x, char const* what) { CHECK(eq<T>(b.v, x), "%s<%s>: %s changes the value", wn, tn, what); for (unsigned char c : b.pre) CHECK(c == f, "%s<%s>: %s changes memory before the object", wn, tn, what); for (unsigned char c : b.post) CHECK(c == f, "%s<%s>: %s changes memory behind the object", wn, tn, what); };
    { R r(b.v); same(v, "constructing a reference"); R c(r); R const k(c); same(v, "copying a reference"); CHECK(&r.value() == &b.v && &c.value() == &b.v && &k.value() == &b.v, "%s<%s>: a reference refers to another object", wn, tn);
      CHECK(eq<T>(r.load(), v) && eq<T>(c.load(), v) && eq<T>(T(k), v), "%s<%s>: a reference reads another value", wn, tn); same(v, "load"); T e = w; if (!eq<T>(v, w)) { CHECK(!k.compare_exchange_strong(e, v) && eq<T>(e, v), "%s<%s>: compare_exchange", wn, tn); same(v, "a failing compare_exchange"); }
      T o = k.exchange(w); CHECK(eq<T>(o, v), "%s<%s>: exchange", wn, tn); same(w, "exchange"); CHECK(eq<T>(r.load(), w) && eq<T>(c.load(), w), "%s<%s>: copies disagree", wn, tn); T a = (k = v); CHECK(eq<T>(a, v), "%s<%s>: assignment returns another value", wn, tn); same(v, "assignment"); r.notify_all(); r.notify_one(); same(v, "notify"); if (!eq<T>(v, w)) { T g = c.wait(w); CHECK(eq<T>(g, v), "%s<%s>: wait", wn, tn); same(v, "wait"); }
      CHECK(r.is_lock_free() == k.is_lock_free() && (!R::is_always_lock_free || r.is_lock_free()), "%s<%s>: is_lock_free", wn, tn); }
    same(v, "destroying references"); b.v = w; { R r(b.v); CHECK(eq<T>(r.load(), w), "%s<%s>: a new reference does not see a direct write", wn, tn); }
    drv::metric("references", 1);
}
// the types that inter-process objects support, by size, whatever the library claims about them
#ifdef __GCC_HAVE_SYNC_COMPARE_AND_SWAP_16
static constexpr size_t MAXLF = 16;
#else
static constexpr size_t MAXLF = 8;
#endif
template<class T, bool> struct ipc_cases { static void go(char const*) {} };
#ifndef NO_IPC
template<class T, bool> struct ipc_ref_cases { static void go(char const*) {} };
template<class T> struct ipc_ref_cases<T, true> { static void go(char const* n) { reference<boost::ipc_atomic_ref<T>, T>("ipc_atomic_ref", n); } };
template<class T> struct ipc_cases<T, true> { static void go(char const* n) { object<boost::ipc_atomic<T>, T>("ipc_atomic", n); ipc_ref_cases<T, (sizeof(T) <= MAXLF && (sizeof(T) & (sizeof(T) - 1)) == 0)>::go(n); } };
#endif
static View const here[] = {
#define V(T) view_of<T>(),
    LAYOUT_TYPES(V) };
template<class T> static void type(char const* n, int i)
{
    object<boost::atomic<T>, T>("atomic", n); reference<boost::atomic_ref<T>, T>("atomic_ref", n); ipc_cases<T, (sizeof(T) <= MAXLF)>::go(n);
    View const& a = here[i]; View const& b = other_views[i];
    CHECK(a.size == b.size && a.align == b.align && a.ref_align == b.ref_align && a.lf == b.lf && a.ref_lf == b.ref_lf && a.native == b.native, "atomic<%s> differs between translation units: size %zu/%zu alignment %zu/%zu", n, a.size, b.size, a.align, b.align);
    drv::distinct(drv::mix(uint64_t(i) * 1000003 + drv::S().exec_no));
    if (drv::S().exec_no == 0) drv::sample("atomic<%s>: size %zu alignment %zu lock-free %d native wait %d, atomic_ref required_alignment %zu lock-free %d", n, a.size, a.align, int(a.lf), int(a.native), a.ref_align, int(a.ref_lf));
}
static void types(uint64_t)
{
    int i = 0;
#define GO(T) type<T>(#T, i++);
    LAYOUT_TYPES(GO)
    int x = int(rnd(1000000)); P40 p = rv<P40>::make(); P4 q = rv<P4>::make(); other_set(x, p, q);
    CHECK(shared_int.load() == x && eq<P40>(shared_p40.load(), p) && eq<P4>(shared_p4.load(), q) && other_int() == x, "a value stored in one translation unit is not seen in another"); q = rv<P4>::make(); shared_p4.store(q); CHECK(eq<P4>(other_p4(), q), "a value stored in one translation unit is not seen in another");
    shared_flag.clear(); CHECK(!other_flag_set() && shared_flag.test(), "flag shared between translation units");
}
// ------------------------------------------------------------------ types with hostile operators, without a default constructor, or classes with a base
template<size_t N> struct alignas(N == 4 ? 4 : N == 8 ? 8 : N == 16 ? 16 : 1) Odd
{
    unsigned char b[N];
    explicit Odd(uint64_t x) { for (size_t i = 0; i < N; ++i) { b[i] = (unsigned char)(x >> (i % 8 * 8)); if (i % 8 == 7) x = x * 0x9E3779B97F4A7C15ull + 1; } }
    Odd* operator&() { static unsigned char z[64]; return reinterpret_cast<Odd*>(z); } Odd const* operator&() const { static unsigned char z[64]; return reinterpret_cast<Odd const*>(z); }
    bool operator==(Odd const&) const { return N % 8 == 0; } bool operator!=(Odd const&) const { return N % 8 == 0; } bool operator!() const { return true; }
    template<class T> Odd& operator,(T const&) { b[0] ^= 0xff; return *this; } template<class T> friend T const& operator,(T const& x, Odd const&) { std::abort(); return x; }
    bool is(Odd const& o) const { return std::memcmp(b, o.b, N) == 0; }
    void* operator new(size_t) = delete;
};
template<class W, class T> static void odd_ops(W& a, T const& v, T const& w, char const* n)
{
    CHECK(a.load().is(v) && a.value().is(v) && T(a).is(v), "%s: another value than the one it was made from", n);
    T e = w; CHECK(!a.compare_exchange_strong(e, w) && e.is(v) && a.load().is(v), "%s: compare_exchange_strong succeeds with another value (bitwise comparison)", n);
    e = w; CHECK(!a.compare_exchange_weak(e, w) && e.is(v), "%s: compare_exchange_weak succeeds with another value", n);
    CHECK(a.compare_exchange_strong(e, w) && e.is(v) && a.load().is(w), "%s: compare_exchange_strong(held value) fails", n); a.store(v); CHECK(a.exchange(w).is(v) && a.load().is(w), "%s: exchange", n); T r = (a = v); CHECK(r.is(v) && a.load().is(v), "%s: assignment", n);
    CHECK(a.wait(w).is(v), "%s: wait", n);
    auto x = a.wait_for(w, std::chrono::seconds(100)); CHECK(!x.timeout && x.value.is(v), "%s: wait_for an object with another value (bitwise comparison)", n);
    auto y = a.wait_for(v, std::chrono::microseconds(100)); CHECK(y.timeout && y.value.is(v), "%s: wait_for an unchanged object", n);
    a.notify_one(); a.notify_all();
}
#ifndef NO_IPC
template<class T, bool> struct odd_ipc { static void go(T const&, T const&, char const*) {} };
template<class T> struct odd_ipc<T, true> { static void go(T const& v, T const& w, char const* n) { boost::ipc_atomic<T> a(v); odd_ops(a, v, w, n); T o(v); boost::ipc_atomic_ref<T> r(o); odd_ops(r, v, w, n); } };
#endif
template<size_t N> static void odd(char const* n)
{
    typedef Odd<N> T; uint64_t x = rnd64(); T v(x), w(x ^ uint64_t(1) << rnd(N < 8 ? 8 * N : 64));
    { boost::atomic<T> a(v); odd_ops(a, v, w, n); } { T o(v); { boost::atomic_ref<T> r(o); odd_ops(r, v, w, n); boost::atomic_ref<T> c(r); c.store(w); } CHECK(o.is(w), "%s: atomic_ref", n); }
    { T o(v); auto r = boost::make_atomic_ref(o); r.store(w); CHECK(o.is(w) && std::addressof(r.value()) == std::addressof(o), "%s: make_atomic_ref", n); }
#ifndef NO_IPC
    odd_ipc<T, (N <= MAXLF && (N & (N - 1)) == 0)>::go(v, w, n);
#endif
    drv::metric("hostile_types", 1);
}
static void hostile(uint64_t n)
{
    odd<1>("atomic<Odd<1>>"); odd<3>("atomic<Odd<3>>"); odd<4>("atomic<Odd<4>>"); odd<8>("atomic<Odd<8>>"); odd<16>("atomic<Odd<16>>"); odd<24>("atomic<Odd<24>>");
    drv::distinct(n); drv::sample("types with overloaded &, ==, !=, comma and without default constructor");
}
// ------------------------------------------------------------------ rare value types
#include "exotic.hpp"

// ------------------------------------------------------------------ references to cv types, make_ functions, deduction
static void forms(uint64_t n)
{
    int x = int(rnd(1000)); int const y = x; int volatile z = x; unsigned char cc = (unsigned char)x;
    { boost::atomic_ref<int const> r(y); CHECK(r.load() == x && int(r) == x && &r.value() == &y, "atomic_ref<int const>"); boost::atomic_ref<int const> c(r); CHECK(c.wait(x + 1) == x, "atomic_ref<int const>::wait"); }
    { boost::atomic_ref<int volatile> r(z); CHECK(r.load() == x && r.fetch_add(3) == x && r.exchange(x) == x + 3 && z == x, "atomic_ref<int volatile>"); }
    { auto r = boost::make_atomic_ref(x); static_assert(std::is_same<decltype(r), boost::atomic_ref<int> >::value, ""); CHECK(++r == x && &r.value() == &x, "make_atomic_ref"); auto k = boost::make_atomic_ref(y); CHECK(k.load() == y, "make_atomic_ref(const)"); }
#ifndef NO_IPC
    { auto r = boost::make_ipc_atomic_ref(cc); unsigned char o = r--; CHECK((unsigned char)(o - 1) == cc, "make_ipc_atomic_ref"); }
    { alignas(16) unsigned char p[32]; std::memset(p, 0xff, sizeof p); boost::ipc_atomic_flag* i = new (p + 16) boost::ipc_atomic_flag(); CHECK(!i->test(), "default-constructed ipc flag is set"); }
#endif
#if __cplusplus >= 201703L
    { boost::atomic_ref r(x); int o = r.fetch_xor(5); CHECK((o ^ 5) == x, "class template argument deduction"); }
#ifndef NO_IPC
    { boost::ipc_atomic_ref q(x); int o = q.fetch_or(8); CHECK((o | 8) == x, "class template argument deduction"); }
#endif
#endif
    { boost::atomic_flag f, g = BOOST_ATOMIC_FLAG_INIT; CHECK(!f.test() && !g.test() && !f.test_and_set() && f.test() && f.test_and_set(), "flag"); f.clear(); CHECK(!f.test(), "flag clear"); boost::atomic_flag* h = new boost::atomic_flag; CHECK(!h->test(), "flag on the heap is set"); delete h; void* p = malloc(64); std::memset(p, 0xff, 64); h = new (p) boost::atomic_flag; CHECK(!h->test(), "default-constructed flag over garbage is set"); CHECK(boost::atomic_flag::is_always_lock_free == f.is_lock_free() || f.is_lock_free(), "flag is_lock_free"); free(p); }
    // aliases
#define AL(A, T) CHECK((std::is_same<boost::A::value_type, T>::value && std::is_same<boost::A, boost::atomic<T> >::value), "boost::" #A " is not atomic<" #T ">");
    AL(atomic_char, char) AL(atomic_uchar, unsigned char) AL(atomic_schar, signed char) AL(atomic_ushort, unsigned short) AL(atomic_short, short) AL(atomic_uint, unsigned) AL(atomic_int, int) AL(atomic_ulong, unsigned long) AL(atomic_long, long) AL(atomic_ullong, unsigned long long) AL(atomic_llong, long long) AL(atomic_address, void*) AL(atomic_bool, bool) AL(atomic_wchar_t, wchar_t) AL(atomic_char16_t, char16_t) AL(atomic_char32_t, char32_t)
    AL(atomic_uint8_t, uint8_t) AL(atomic_int8_t, int8_t) AL(atomic_uint16_t, uint16_t) AL(atomic_int16_t, int16_t) AL(atomic_uint32_t, uint32_t) AL(atomic_int32_t, int32_t) AL(atomic_uint64_t, uint64_t) AL(atomic_int64_t, int64_t) AL(atomic_int_least8_t, int_least8_t) AL(atomic_uint_least8_t, uint_least8_t) AL(atomic_int_least16_t, int_least16_t) AL(atomic_uint_least16_t, uint_least16_t) AL(atomic_int_least32_t, int_least32_t) AL(atomic_uint_least32_t, uint_least32_t) AL(atomic_int_least64_t, int_least64_t) AL(atomic_uint_least64_t, uint_least64_t)
    AL(atomic_int_fast8_t, int_fast8_t) AL(atomic_uint_fast8_t, uint_fast8_t) AL(atomic_int_fast16_t, int_fast16_t) AL(atomic_uint_fast16_t, uint_fast16_t) AL(atomic_int_fast32_t, int_fast32_t) AL(atomic_uint_fast32_t, uint_fast32_t) AL(atomic_int_fast64_t, int_fast64_t) AL(atomic_uint_fast64_t, uint_fast64_t) AL(atomic_intmax_t, intmax_t) AL(atomic_uintmax_t, uintmax_t) AL(atomic_size_t, size_t) AL(atomic_ptrdiff_t, ptrdiff_t) AL(atomic_intptr_t, intptr_t) AL(atomic_uintptr_t, uintptr_t) AL(atomic_float_t, float) AL(atomic_double_t, double) AL(atomic_long_double_t, long double)
    CHECK(!(std::is_copy_constructible<boost::atomic<int> >::value) && !(std::is_copy_assignable<boost::atomic<int> >::value) && !(std::is_copy_assignable<boost::atomic_ref<int> >::value) && (std::is_copy_constructible<boost::atomic_ref<int> >::value), "copyability");
    drv::distinct(n); drv::metric("forms", 1); drv::sample("cv references, make_ functions, flags and aliases");
}
// ------------------------------------------------------------------ capability macros agree with the types
template<class W> static void claim(char const* n, int macro, bool lf_const, bool lf_now)
{
    CHECK(macro >= 0 && macro <= 2, "%s is %d", n, macro); CHECK((macro == 2) == lf_const, "%s is %d but the constant says %d", n, macro, int(lf_const)); CHECK(!lf_const || lf_now, "%s: always but not now", n); CHECK(macro != 0 || !lf_now, "%s is 0 but the object says yes", n);
    drv::metric("claims", 1); drv::distinct(drv::mix(reinterpret_cast<uintptr_t>(n) * 3 + unsigned(macro) * 2 + lf_now));
}
#define CL(M, ...) { boost::atomic<__VA_ARGS__> a; claim<boost::atomic<__VA_ARGS__> >("BOOST_ATOMIC_" #M "_LOCK_FREE", BOOST_ATOMIC_##M##_LOCK_FREE, boost::atomic<__VA_ARGS__>::is_always_lock_free, a.is_lock_free()); \
    claim<boost::atomic<__VA_ARGS__> >("BOOST_ATOMIC_HAS_NATIVE_" #M "_WAIT_NOTIFY", BOOST_ATOMIC_HAS_NATIVE_##M##_WAIT_NOTIFY, boost::atomic<__VA_ARGS__>::always_has_native_wait_notify, a.has_native_wait_notify()); }
#define CLI(M, ...) CL(M, __VA_ARGS__) { boost::ipc_atomic<__VA_ARGS__> a; claim<boost::ipc_atomic<__VA_ARGS__> >("BOOST_ATOMIC_HAS_NATIVE_" #M "_IPC_WAIT_NOTIFY", BOOST_ATOMIC_HAS_NATIVE_##M##_IPC_WAIT_NOTIFY, boost::ipc_atomic<__VA_ARGS__>::always_has_native_wait_notify, a.has_native_wait_notify()); CHECK(a.is_lock_free(), "ipc_atomic that is not lock-free"); }
#ifdef NO_IPC
#undef CLI
#define CLI CL
#endif
static void claims(uint64_t n)
{
    CLI(BOOL, bool) CLI(CHAR, char) CLI(CHAR16_T, char16_t) CLI(CHAR32_T, char32_t) CLI(WCHAR_T, wchar_t) CLI(SHORT, short) CLI(SHORT, unsigned short) CLI(INT, int) CLI(INT, unsigned) CLI(LONG, long) CLI(LLONG, long long) CLI(POINTER, int*) CLI(ADDRESS, void*) CLI(INT8, uint8_t) CLI(INT16, int16_t) CLI(INT32, uint32_t) CLI(POINTER, P2*) CLI(INT64, uint64_t) CLI(FLOAT, float) CLI(DOUBLE, double)
    CL(INT128, __int128) CL(LONG_DOUBLE, long double) CL(INT128, P4) CLI(INT64, P2) CLI(INT8, EU)
#if defined(__cpp_char8_t)
    CLI(CHAR8_T, char8_t)
#endif
    { boost::atomic_flag f; claim<boost::atomic_flag>("BOOST_ATOMIC_FLAG_LOCK_FREE", BOOST_ATOMIC_FLAG_LOCK_FREE, boost::atomic_flag::is_always_lock_free, f.is_lock_free()); claim<boost::atomic_flag>("BOOST_ATOMIC_HAS_NATIVE_FLAG_WAIT_NOTIFY", BOOST_ATOMIC_HAS_NATIVE_FLAG_WAIT_NOTIFY, boost::atomic_flag::always_has_native_wait_notify, f.has_native_wait_notify()); }
#ifndef NO_IPC
    { boost::ipc_atomic_flag f; claim<boost::ipc_atomic_flag>("BOOST_ATOMIC_HAS_NATIVE_FLAG_IPC_WAIT_NOTIFY", BOOST_ATOMIC_HAS_NATIVE_FLAG_IPC_WAIT_NOTIFY, boost::ipc_atomic_flag::always_has_native_wait_notify, f.has_native_wait_notify()); CHECK(f.is_lock_free(), "ipc flag that is not lock-free"); }
#endif
#ifndef NO_IPC
    CHECK(boost::atomic_unsigned_lock_free::is_always_lock_free && boost::atomic_signed_lock_free::is_always_lock_free && boost::atomic_unsigned_lock_free::always_has_native_wait_notify, "atomic_unsigned_lock_free");
#endif
    { boost::atomic<P40> a; CHECK(!a.is_lock_free(), "a 40 byte object claims to be lock-free"); boost::atomic<Rgb> r; CHECK(r.is_lock_free() == bool(boost::atomic<uint32_t>::is_always_lock_free), "atomic of 3 bytes"); }
    drv::sample("capability macros for 24 types agree with the constants and members"); (void)n;
}
int main(int argc, char** argv)
{
    drv::setup(argc, argv, "layout"); uint64_t N = drv::S().iters;
    drv::scenario("statics", 1, statics); drv::scenario("types", N, types); drv::scenario("forms", N, forms); drv::scenario("hostile", N, hostile); drv::scenario("exotic", N, exo::run);
    drv::scenario("claims", 1, claims);
    drv::metric("checks", checks); return drv::finish();
}
