// An object that knows whether it is alive, where it lives, and what it holds.
#pragma once
#include "amsym.h"
#include <assert.h>
#include <utility>
struct Tracked {
    enum : uint32_t { kAlive = 0xA11FEu, kDead = 0xDEADu };
    const Tracked* self;
    uint32_t magic;
    int value;
    int* extra;      // a heap block owned by the object, so that a leak or double free is visible as such
    static int& nlive() { static int n; return n; }
    static int& ncopies() { static int n; return n; }
    static int& nmoves() { static int n; return n; }
    static void reset() { nlive() = 0; ncopies() = 0; nmoves() = 0; }
    static unsigned live() { return (unsigned)nlive(); }
    void born(int v) { self = this; magic = kAlive; value = v; extra = new int(v); __atomic_fetch_add(&nlive(), 1, __ATOMIC_RELAXED); }
    void check() const {
        amsym_assert(magic == kAlive, "use of an object that is not alive");
        amsym_assert(self == this, "object was relocated without its constructor");
    }
    Tracked() { born(-1); }
    explicit Tracked(int v) { born(v); }
    Tracked(const Tracked& o) { o.check(); born(o.value); __atomic_fetch_add(&ncopies(), 1, __ATOMIC_RELAXED); }
    Tracked(Tracked&& o) noexcept { o.check(); born(o.value); o.value = -2; __atomic_fetch_add(&nmoves(), 1, __ATOMIC_RELAXED); }
    Tracked& operator=(const Tracked& o) { check(); o.check(); value = o.value; __atomic_fetch_add(&ncopies(), 1, __ATOMIC_RELAXED); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { check(); o.check(); int v = o.value; o.value = -2; value = v; __atomic_fetch_add(&nmoves(), 1, __ATOMIC_RELAXED); return *this; }
    ~Tracked() { check(); magic = kDead; delete extra; extra = nullptr; __atomic_fetch_sub(&nlive(), 1, __ATOMIC_RELAXED); }
    int get() const { check(); return value; }
    bool operator==(const Tracked& o) const { return get() == o.get(); }
    bool operator!=(const Tracked& o) const { return get() != o.get(); }
};
// The same for objects without room for a marker: a byte of value, registered by address.
struct TrackedByte {
    unsigned char value;
    enum { kMax = 256 };
    static const TrackedByte** at() { static const TrackedByte* a[kMax]; return a; }
    static int& n() { static int c; return c; }
    static void reset() { n() = 0; }
    static unsigned live() { return (unsigned)n(); }
    static int find(const TrackedByte* p) { for (int i = 0; i < n(); i++) if (at()[i] == p) return i; return -1; }
    void born(int v) {
        amsym_assert(find(this) < 0, "an object is constructed over a live one");
        amsym_assert(n() < kMax, "too many objects");
        at()[n()++] = this;
        value = (unsigned char)v;
    }
    void check() const { amsym_assert(find(this) >= 0, "use of an object that is not alive"); }
    TrackedByte() { born(0); }
    explicit TrackedByte(int v) { born(v); }
    TrackedByte(const TrackedByte& o) { o.check(); born(o.value); }
    TrackedByte(TrackedByte&& o) noexcept { o.check(); born(o.value); o.value = 255; }
    TrackedByte& operator=(const TrackedByte& o) { check(); o.check(); value = o.value; return *this; }
    TrackedByte& operator=(TrackedByte&& o) noexcept { check(); o.check(); unsigned char v = o.value; o.value = 255; value = v; return *this; }
    ~TrackedByte() { int i = find(this); amsym_assert(i >= 0, "an object that is not alive is destroyed"); if (i >= 0) at()[i] = at()[--n()]; }
    int get() const { check(); return value; }
    bool operator==(const TrackedByte& o) const { return get() == o.get(); }
    bool operator!=(const TrackedByte& o) const { return get() != o.get(); }
};
// A plain value whose equality looks at part of it only: code that uses == where identity of the value matters shows.
struct Twin {
    int key, data;
    Twin() : key(0), data(0) {}
    Twin(int k, int d) : key(k), data(d) {}
    bool operator==(const Twin& o) const { return key == o.key; }
    bool operator!=(const Twin& o) const { return key != o.key; }
    bool is(int k, int d) const { return key == k && data == d; }
};
