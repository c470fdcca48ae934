#define KE_SINGLE_THREADED
#include "amsym.h"
#include <amtl/am-threadlocal.h>
// Single-threaded mode: a plain container with the same interface.
template <typename T> static void one() {
    ke::ThreadLocal<T> tl;
    CHECKM(tl.get() == T() && !tl, "the default before anything is stored");
    CHECK(tl.allocate());
    T a = amsym_any<T>("a"), b = amsym_any<T>("b");
    tl = a;
    CHECKM(tl.get() == a && *tl == a && tl == a && !(tl != a), "what was stored is read");
    ke::ThreadLocal<T> other;
    other = b;
    CHECKM(tl.get() == a && other.get() == b, "variables are apart");
    tl.set(b);
    CHECKM(tl.get() == b && !tl == !b, "what was stored last is read");
    COVER("end");
}
ENTRY(single_int) { one<int>(); }
ENTRY(single_pointer) { one<void*>(); }
