// The other translation unit of the layout monitor; includes the library's headers in another order.
#include <boost/atomic/fences.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include "layout.hpp"
#define V(T) view_of<T>(),
#define NM(T) #T,
View other_views[64] = { LAYOUT_TYPES(V) };
char const* other_names[64] = { LAYOUT_TYPES(NM) };
int other_int() { return shared_int.load(); }
P40 other_p40() { return shared_p40.load(); }
P4 other_p4() { return shared_p4.load(); }
void other_set(int i, P40 const& p, P4 const& q) { shared_int.store(i); shared_p40.store(p); shared_p4.store(q); }
bool other_flag_set() { return shared_flag.test_and_set(); }
