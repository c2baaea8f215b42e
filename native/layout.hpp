#pragma once
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <boost/atomic/capabilities.hpp>
#include <cstdint>
#include <cstddef>
struct Rgb { unsigned char r, g, b; };
struct P2 { uint32_t x, y; };
struct P4 { uint32_t v[4]; };
struct P40 { uint64_t w[5]; };
struct Pad1 { uint32_t a; uint8_t c; };
struct Deflt { int a = 5; short b = 7, c = -2; };
struct DefltBig { long v[6] = { 1, 2, 3, 4, 5, 6 }; };
struct alignas(64) Over { int v[3]; int z[13]; };
enum EU : uint8_t { EU0 = 0 };
enum class EL : int64_t { z = 0 };
typedef int (*FnPtr)(int);
// one translation unit's view of a type
struct View { size_t size, align, ref_align; bool lf, ref_lf, native; };
template<class T> View view_of() { View v = { sizeof(boost::atomic<T>), alignof(boost::atomic<T>), boost::atomic_ref<T>::required_alignment, boost::atomic<T>::is_always_lock_free, boost::atomic_ref<T>::is_always_lock_free, boost::atomic<T>::always_has_native_wait_notify }; return v; }
#define LAYOUT_TYPES(X) X(bool) X(char) X(signed char) X(unsigned char) X(wchar_t) X(char16_t) X(char32_t) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double) X(long double) \
    X(int*) X(void*) X(P40*) X(FnPtr) X(Rgb) X(P2) X(P4) X(P40) X(EU) X(EL) X(Deflt) X(DefltBig) X(Over) X(__int128)
extern View other_views[64]; extern char const* other_names[64];
extern boost::atomic<int> shared_int; extern boost::atomic<P40> shared_p40; extern boost::atomic<P4> shared_p4; extern boost::atomic<long double> shared_ld; extern boost::atomic_flag shared_flag;
int other_int(); P40 other_p40(); P4 other_p4(); void other_set(int, P40 const&, P4 const&); bool other_flag_set();
extern int other_inited;
