From f8a856ae7ad591442ea315b9bf9b8c2c6075acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 01/38] fix: Log2 looks at all 64 bits of its operand

__builtin_clz takes an unsigned int, so the upper half of a size_t was dropped.
---
 amtl/am-bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..9d1efa7 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,7 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
-    return 31 - __builtin_clz(number);
+    return sizeof(unsigned long long) * 8 - 1 - __builtin_clzll(number);
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
-- 
2.43.0


From 2922e2ebe3b034c6e54f216f13d843ffc25a9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 02/38] fix: IsUintAddSafe and IsUintMultiplySafe detect every
 overflow

The add test accepted every pair and the multiply test accepted products that
need one bit more than the sum of the operands' logarithms.
---
 amtl/am-bits.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 9d1efa7..c0a85cf 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -39,6 +39,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 
 #include <amtl/am-cxx.h>
 #include <amtl/am-platform.h>
@@ -182,11 +183,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return a <= std::numeric_limits<T>::max() - b;
 }
 
 static inline bool
@@ -214,9 +211,7 @@ IsUintMultiplySafe(const T& a, const T& b)
     if (a <= 1 || b <= 1)
         return true;
 
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return a <= std::numeric_limits<T>::max() / b;
 }
 
 static inline bool
-- 
2.43.0


From 20d4c38fe2098f1ab9e7e1b9d176cdb50c3543d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 03/38] fix: TryUint64Multiply detects overflow when the
 product wraps to zero

---
 amtl/am-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..289a326 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -37,7 +37,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From 0380f0b36567bb0b4ab384bb164538c8a6a3c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 04/38] fix: RefPtr assignment retains the new target before
 releasing the old one

Self-assignment, self-move, and assignment from something reachable only
through the current target used the target after it was destroyed.
---
 amtl/am-refcounting.h | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..22c1e65 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -264,30 +264,31 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
-        thing_ = thing;
-        AddRef();
+        T* incoming = thing;
+        if (incoming)
+            incoming->AddRef();
+        replace(incoming);
         return *this;
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
-        thing_ = other.take();
+        replace(other.take());
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
-        thing_ = other.thing_;
-        AddRef();
+        T* incoming = other.thing_;
+        if (incoming)
+            incoming->AddRef();
+        replace(incoming);
         return *this;
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
+        T* incoming = other.thing_;
         other.thing_ = nullptr;
+        replace(incoming);
         return *this;
     }
 
@@ -313,6 +314,14 @@ class RefPtr
         if (thing_)
             thing_->Release();
     }
+    // Takes over a reference to |incoming|. The old reference is dropped last,
+    // since that may destroy whatever |incoming| was reached through.
+    void replace(T* incoming) {
+        T* outgoing = thing_;
+        thing_ = incoming;
+        if (outgoing)
+            outgoing->Release();
+    }
 
   protected:
     T* thing_;
-- 
2.43.0


From 961dedbfa64e7628d4ab1972ea252d775a98ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 05/38] fix: VirtualRefcountedThreadsafe destroys the object
 when the last reference goes

fetch_sub returns the value before the subtraction, so the object was never
destroyed.
---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From f037cfc322ae0cbd305b882b888d72b8e83db000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/38] fix: AtomicRef acquires when it takes its lock

The exchange may read a value stored by a later unlock than the one the load
before it saw; without acquire ordering, what the previous lock holder did
(such as counting a reference) was not ordered before the new holder's work.
---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0


From 19818489a47b7bc512a3a37eb03ec9f719db9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 07/38] fix: HashTable can be destroyed after init() fails to
 allocate

init() recorded the capacity before allocating, so after a failed allocation
the destructor walked a null table.
---
 amtl/am-hashtable.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..befeb30 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -414,15 +414,14 @@ class HashTable : private AllocPolicy
             return false;
         }
 
-        minCapacity_ = uint32_t(capacity);
-
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        capacity_ = uint32_t(capacity);
+        minCapacity_ = capacity_;
         return true;
     }
 
-- 
2.43.0


From 3884197325f7c9db68d50aa8c29e8ad11172d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 08/38] fix: HashTable reports overflow instead of growing past
 its maximum capacity

grow() only compared the current capacity, which is a power of two and so
never reaches kMaxCapacity itself, with the limit.
---
 amtl/am-hashtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index befeb30..272a431 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From bd1f63207e7cb7a0685610b2479bb21d1d969b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 09/38] fix: integer hashes use unsigned arithmetic as their
 published definitions do

Signed operands made the multiplications and shifts overflow (undefined
behaviour), and the 32-bit hash shifted in sign bits.
---
 amtl/am-hashtable.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 272a431..1f0bfaf 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -601,8 +601,9 @@ FastHashCharSequence(const char* s, size_t length)
 
 // From http://burtleburtle.net/bob/hash/integer.html
 static inline uint32_t
-HashInt32(int32_t a)
+HashInt32(int32_t value)
 {
+    uint32_t a = uint32_t(value);
     a = (a ^ 61) ^ (a >> 16);
     a = a + (a << 3);
     a = a ^ (a >> 4);
@@ -613,14 +614,15 @@ HashInt32(int32_t a)
 
 // From http://www.cris.com/~Ttwang/tech/inthash.htm
 static inline uint32_t
-HashInt64(int64_t key)
+HashInt64(int64_t value)
 {
+    uint64_t key = uint64_t(value);
     key = (~key) + (key << 18); // key = (key << 18) - key - 1;
-    key = key ^ (uint64_t(key) >> 31);
+    key = key ^ (key >> 31);
     key = key * 21; // key = (key + (key << 2)) + (key << 4);
-    key = key ^ (uint64_t(key) >> 11);
+    key = key ^ (key >> 11);
     key = key + (key << 6);
-    key = key ^ (uint64_t(key) >> 22);
+    key = key ^ (key >> 22);
     return uint32_t(key);
 }
 
-- 
2.43.0


From e77c6279a7feb45966b65658d70d0217e2d0229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 10/38] fix: HashMap and HashSet return the allocator policy
 their table uses

---
 amtl/am-hashmap.h | 4 ++--
 amtl/am-hashset.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..1d35201 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..ea046dd 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From aad6de824c1238ea80ca13d67f46d28a956e7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 11/38] fix: StorageBuffer is aligned for types needing more
 than eight bytes

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From c1d3fde6b003f620f87464da1262d4a8e6d45525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 12/38] fix: Maybe's arrow operator returns a pointer

Returning a reference from address() did not compile when used.
---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From 4fc712ec0d36ba8c2f2b57ce507eb29f4c8d57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 13/38] fix: Maybe destroys the values it replaces and moves
 from

Assignment forgot the old value without destroying it (and lost the value on
self-assignment), and a move never destroyed the moved-from object.
---
 amtl/am-maybe.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..8fb3c5c 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -109,17 +109,25 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
-        copyFrom(other);
+        // Take the new value first: it may be ours, or live inside ours.
+        Maybe value(other);
+        reset();
+        moveFrom(std::move(value));
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
-        moveFrom(std::move(other));
+        Maybe value(std::move(other));
+        reset();
+        moveFrom(std::move(value));
         return *this;
     }
 
   private:
+    void reset() {
+        if (isValid())
+            t_.address()->~T();
+        initialized_ = false;
+    }
     void copyFrom(const Maybe& other) {
         if (other.initialized_) {
             init(*other.t_.address());
@@ -128,7 +136,7 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
         }
     }
 
-- 
2.43.0


From 04c28a5687541d6da4f8a43a50df37ee2710551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 14/38] fix: copying an empty non-const Function gives an empty
 Function

The callable template is a better match than the copy operations for non-const
lvalues, so the copy wrapped the empty original and was not empty itself.
---
 amtl/am-function.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..9266f15 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -196,8 +196,22 @@ class Function<ReturnType(ArgTypes...)>
         }
     }
 
+    static bool IsEmpty(const Function& other) {
+        return !other;
+    }
+    template <typename T>
+    static bool IsEmpty(const T&) {
+        return false;
+    }
+
     template <typename T>
     void assign(T&& obj) {
+        // A non-const Function arrives here rather than at the copy operations.
+        if (IsEmpty(obj)) {
+            impl_ = nullptr;
+            return;
+        }
+
         typedef typename std::decay<T>::type CallableType;
         typedef impl::FunctionHolder<CallableType, ReturnType, ArgTypes...> ImplType;
 
-- 
2.43.0


From dd49ff1463c57da88064d1ca904a844c3abe5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 15/38] fix: Function assignment survives assigning from itself
 or its own target

The old callable was destroyed before the new one was taken, and assignment
from a temporary callable copied it.
---
 amtl/am-function.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 9266f15..f253765 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -126,20 +126,20 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
-        assign(other);
+        Function value(other);
+        replace(std::move(value));
         return *this;
     }
     Function& operator =(Function&& other) {
-        destroy();
-        move(std::move(other));
+        Function value(std::move(other));
+        replace(std::move(value));
         return *this;
     }
 
     template <typename T>
     Function& operator =(T&& other) {
-        destroy();
-        assign(other);
+        Function value(std::forward<T>(other));
+        replace(std::move(value));
         return *this;
     }
 
@@ -171,6 +171,13 @@ class Function<ReturnType(ArgTypes...)>
         impl_ = nullptr;
     }
 
+    // The new value must be separate from ours: destroying the old callable may
+    // destroy whatever the new value was taken from.
+    void replace(Function&& value) {
+        destroy();
+        move(std::move(value));
+    }
+
     void* inline_buffer() {
         return &buffer_;
     }
-- 
2.43.0


From f24f1ab4666dbc6bfddf6860366ab822b6047ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 16/38] fix: FixedArray allocates from the policy it is given

---
 amtl/am-fixedarray.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..9cfdfea 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -43,7 +43,9 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(ap)
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
-- 
2.43.0


From 5787d30947a494c09d1cc0f246b5484b0a6537fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 17/38] fix: FixedArray assignment handles itself and frees
 what it replaces

Self-assignment copied from destroyed elements, self-move emptied the array,
and move assignment leaked the previous elements and storage.
---
 amtl/am-fixedarray.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 9cfdfea..8fe9d56 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -126,6 +126,9 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
+
         destruct();
         if (size_ != other.size()) {
             deallocate();
@@ -137,6 +140,11 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+
+        destruct();
+        deallocate();
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From fce1e02282161c1949021389074aa2eb3859bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 18/38] fix: FixedArray storage is freed by the policy that
 allocated it

Copying and moving an array left the allocator policy behind, so moved storage
was freed by a default-constructed policy.
---
 amtl/am-fixedarray.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 8fe9d56..b04ca55 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <utility>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -51,14 +52,18 @@ class FixedArray : private AllocPolicy
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other)
+     : AllocPolicy(other)
+    {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other)
+     : AllocPolicy(std::move(other))
+    {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -145,6 +150,7 @@ class FixedArray : private AllocPolicy
 
         destruct();
         deallocate();
+        static_cast<AllocPolicy&>(*this) = std::move(static_cast<AllocPolicy&>(other));
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From b07bc365156c7446e985462c33e25f7ba7f204a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 19/38] fix: FixedArray survives allocation failure and size
 overflow

A failed allocation left a non-zero size with no storage, which the destructor
then walked, and an element count that overflowed the byte size allocated too
little. Such a request is now reported, and the array keeps what it had.
---
 amtl/am-fixedarray.h | 55 ++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index b04ca55..992d171 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -35,6 +35,7 @@
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
+#include <amtl/am-bits.h>
 
 namespace ke {
 
@@ -42,7 +43,7 @@ template <typename T, typename AllocPolicy = SystemAllocatorPolicy>
 class FixedArray : private AllocPolicy
 {
   public:
-    FixedArray() : size_(0), data_(nullptr)
+    FixedArray()
     {}
     FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
      : AllocPolicy(ap)
@@ -66,6 +67,7 @@ class FixedArray : private AllocPolicy
     {
         size_ = other.size_;
         data_ = other.data_;
+        failed_ = other.failed_;
         other.size_ = 0;
         other.data_ = nullptr;
     }
@@ -89,13 +91,15 @@ class FixedArray : private AllocPolicy
     }
 
     ~FixedArray() {
-        destruct();
-        deallocate();
+        destruct(data_, size_);
+        deallocate(data_);
     }
 
+    // Returns false if the last construction or assignment could not allocate;
+    // the array then has its previous contents (none, if newly constructed).
     // This call may be skipped if the allocator policy is infallible.
     bool initialize() {
-        return size_ == 0 || !!data_;
+        return !failed_;
     }
 
     size_t size() const {
@@ -134,11 +138,16 @@ class FixedArray : private AllocPolicy
         if (this == &other)
             return *this;
 
-        destruct();
         if (size_ != other.size()) {
-            deallocate();
+            size_t old_size = size_;
+            T* old_data = data_;
             if (!allocate(other.size()))
                 return *this;
+            destruct(old_data, old_size);
+            deallocate(old_data);
+        } else {
+            destruct(data_, size_);
+            failed_ = false;
         }
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
@@ -148,11 +157,12 @@ class FixedArray : private AllocPolicy
         if (this == &other)
             return *this;
 
-        destruct();
-        deallocate();
+        destruct(data_, size_);
+        deallocate(data_);
         static_cast<AllocPolicy&>(*this) = std::move(static_cast<AllocPolicy&>(other));
         size_ = other.size_;
         data_ = other.data_;
+        failed_ = other.failed_;
         other.size_ = 0;
         other.data_ = nullptr;
         return *this;
@@ -172,22 +182,33 @@ class FixedArray : private AllocPolicy
     }
 
   private:
+    // On failure, the array is left as it was.
     bool allocate(size_t size) {
+        failed_ = true;
+        if (!IsUintPtrMultiplySafe(sizeof(T), size)) {
+            this->reportAllocationOverflow();
+            return false;
+        }
+        T* data = (T*)this->am_malloc(sizeof(T) * size);
+        if (!data)
+            return false;
         size_ = size;
-        data_ = (T*)this->am_malloc(sizeof(T) * size_);
-        return !!data_;
+        data_ = data;
+        failed_ = false;
+        return true;
     }
-    void destruct() {
-        for (size_t i = 0; i < size_; i++)
-            data_[i].~T();
+    void destruct(T* data, size_t size) {
+        for (size_t i = 0; i < size; i++)
+            data[i].~T();
     }
-    void deallocate() {
-        this->am_free(data_);
+    void deallocate(T* data) {
+        this->am_free(data);
     }
 
   private:
-    size_t size_;
-    T* data_;
+    size_t size_ = 0;
+    T* data_ = nullptr;
+    bool failed_ = false;
 };
 
 } // namespace ke
-- 
2.43.0


From c55d48cf1d922d40e680dae22c75c5925bf03514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 20/38] fix: a node removed from an InlineList is no longer in
 it in release builds

remove() only cleared the links in debug builds, so isInList() stayed true.
---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From f7d73cd3da4e1e02b1ceccfd841fac9bd613f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 21/38] fix: SafeStrcpyN stops at the source's terminator and
 always terminates

It copied bytes past the end of a source shorter than n, and left the
destination untouched when n was zero.
---
 amtl/am-string.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..0f71897 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -230,13 +230,15 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (n && *src && --count) {
         *iter++ = *src++;
+        n--;
+    }
     *iter = '\0';
 
     return iter - dest;
-- 
2.43.0


From f4de3604f99c21eabfadb70ade0e0dd8be72fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 22/38] fix: Uppercase and Lowercase accept characters above
 127

Passing a negative char to toupper() or tolower() is undefined.
---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 0f71897..a437805 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -326,14 +326,14 @@ Join(const std::vector<std::string>& pieces, const char* sep)
 static inline std::string Uppercase(const char* str) {
     std::string result(str);
     for (size_t i = 0; i < result.size(); i++)
-        result[i] = toupper(result[i]);
+        result[i] = toupper(static_cast<unsigned char>(result[i]));
     return result;
 }
 
 static inline std::string Lowercase(const char* str) {
     std::string result(str);
     for (size_t i = 0; i < result.size(); i++)
-        result[i] = tolower(result[i]);
+        result[i] = tolower(static_cast<unsigned char>(result[i]));
     return result;
 }
 
-- 
2.43.0


From fdda879b124b11f66953e13c4a3ac48753d3006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 23/38] fix: IsInfinite is exact for floats and doubles

Doubles were read through a float and compared with the wrong exponent mask,
and NaNs were taken for infinities.
---
 amtl/am-float.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..d1e8292 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
@@ -99,7 +99,8 @@ IsInfinite(T value)
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    // Everything but the sign: NaNs have the same exponent, but a mantissa.
+    return (bits & (~Bits(0) >> 1)) == Properties::kExponentMask;
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From ef49a7688f7a96f3e34dc0c36251f322e658db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 24/38] fix: Mutex records its owner when acquired with
 try_lock()

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..066cfe9 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+           return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 0cd9a191ac3cb79af0ca3565c55abb0e97919c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 25/38] fix: am-raii.h includes the assert it uses

---
 amtl/am-raii.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..71dfe74 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
-- 
2.43.0


From 1d4c6a014edfbfcb8704301f37d1f94e6a15b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 26/38] fix: enum_integral_type compiles with KE_ALLOW_STD_CXX

---
 amtl/am-enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-enum.h b/amtl/am-enum.h
index 8c8aa3b..cb17ba0 100644
--- a/amtl/am-enum.h
+++ b/amtl/am-enum.h
@@ -37,7 +37,7 @@ namespace ke {
 template <typename T>
 struct enum_integral_type {
 #ifdef KE_ALLOW_STD_CXX
-    using type = std::underlying_type<T>::type;
+    using type = typename std::underlying_type<T>::type;
 #else
     using type = __underlying_type(T);
 #endif
-- 
2.43.0


From e9c84e492332434815bc50131275f9dc7b2d539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 27/38] fix: ThreadLocal publishes its slot only once the slot
 exists

The variable was marked allocated before its key was created, so another thread
could use an uninitialized key, and a failed allocation was taken for a
successful one ever after.
---
 amtl/am-threadlocal.h | 46 ++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..712e54c 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -36,6 +36,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <atomic>
+#include <thread>
+
 #ifdef _WIN32
 # include <windows.h>
 #else
@@ -92,29 +95,45 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    enum State { kUnallocated, kAllocating, kAllocated };
+    std::atomic<State> state_;
 
   public:
-    ThreadLocal() {
-        allocated_ = 0;
-    }
+    ThreadLocal()
+     : state_(kUnallocated)
+    {}
 
     T get() const {
-        if (!allocated_)
+        if (state_ != kAllocated)
             return T();
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (!allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
         internalSet(t);
     }
 
+    bool allocate() {
+        for (;;) {
+            State state = kUnallocated;
+            if (state_ == kAllocated)
+                return true;
+            if (state_.compare_exchange_strong(state, kAllocating)) {
+                // The key must exist before any other thread may use it.
+                bool created = createKey();
+                state_ = created ? kAllocated : kUnallocated;
+                return created;
+            }
+            std::this_thread::yield();
+        }
+    }
+
 #    if defined(_MSC_VER)
     ~ThreadLocal() {
-        if (allocated_)
+        if (state_ == kAllocated)
             TlsFree(key_);
     }
 
@@ -125,9 +144,7 @@ class ThreadLocal
     void internalSet(const T& t) {
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
-    bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
+    bool createKey() {
         key_ = TlsAlloc();
         return key_ != TLS_OUT_OF_INDEXES;
     }
@@ -137,17 +154,14 @@ class ThreadLocal
 #    else
   public:
     ~ThreadLocal() {
-        if (allocated_)
+        if (state_ == kAllocated)
             pthread_key_delete(key_);
     }
 
-    bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
+  private:
+    bool createKey() {
         return pthread_key_create(&key_, nullptr) == 0;
     }
-
-  private:
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-- 
2.43.0


From bb9520bdbc1c3b4422428e03e34ab3360fe387da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 28/38] fix: an unknown --no- option is reported instead of
 dereferenced

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From ca7ea3b15f759e962ba24c400bf5b7b63ae5abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 29/38] fix: boolean options are set when the next argument is
 not a value

Such an option was left at its default, and an attached value that is not a
boolean (-b=junk) was silently ignored.
---
 amtl/experimental/am-argparser.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..2484b36 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,13 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            if (!option->canOmitValue() || !took_next_arg)
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+
+            // The next argument is not a value, so this option has none.
+            i--;
+            if (!option->consumeValue(nullptr))
+                return option_needs_value(option);
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From 40286bbcddcba8924b6639c96251e55ed4f34e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 30/38] fix: integer options reject values an int cannot
 represent

---
 amtl/experimental/am-argparser.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 2484b36..b0ebded 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,6 +30,8 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 
 #include <algorithm>
@@ -538,9 +540,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = int(value);
         return true;
     }
 };
-- 
2.43.0


From 764454498b85fb55206cb078c5b740932d62489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 31/38] fix: a double dash among passthrough arguments is
 passed through

---
 amtl/experimental/am-argparser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index b0ebded..ed9a9db 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -634,14 +634,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
-            has_passthrough_args_ = true;
-            continue;
-        }
         if (has_passthrough_args_) {
             passthrough_args_.emplace_back(arg);
             continue;
         }
+        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+            has_passthrough_args_ = true;
+            continue;
+        }
 
         const char* value_ptr = nullptr;
         if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {
-- 
2.43.0


From 4a87bb572ed86a00da40e6a7b4a47b52143b8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 32/38] fix: Parser::reset() forgets everything the last parse
 recorded

Extra and passthrough arguments, the passthrough state and the error message
carried over to the next parse.
---
 amtl/experimental/am-argparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index ed9a9db..cb5e76d 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1048,6 +1048,10 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+    has_passthrough_args_ = false;
+    extra_args_.clear();
+    passthrough_args_.clear();
+    error_.clear();
 }
 
 } // namespace args
-- 
2.43.0


From 0eee6df396b06333ee9e328cacccafae2021f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 33/38] fix: Parser::parsev() ends its argument list

---
 amtl/experimental/am-argparser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index cb5e76d..7a98986 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -620,6 +620,7 @@ Parser::parsev(const char* arg1, ...)
         argv.emplace_back(arg);
         arg = va_arg(ap, const char*);
     }
+    va_end(ap);
 
     return parse_impl(argv);
 }
-- 
2.43.0


From fd19e89e52f5b90ce2ba4dec3b5b9f3953db0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 34/38] fix: usage output accepts options without help text

---
 amtl/experimental/am-argparser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 7a98986..cd2a42c 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -960,7 +960,8 @@ Parser::usage(FILE* fp, int argc, char** argv)
 
         // Break help text into words, and fit some words on each line. Each line
         // gets at least one word even if the word is too long.
-        std::vector<std::string> words = Split(entry.option->help(), " ");
+        const char* help = entry.option->help();
+        std::vector<std::string> words = Split(help ? help : "", " ");
 
         std::vector<std::string> line;
         size_t line_size = 0;
-- 
2.43.0


From 8c19d429a4c61304ba832b343e504e541294da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 35/38] fix: an inline value after a colon may itself contain
 '='

'-s:N' with inline values gave the option the value ':N' instead of 'N'
when N contained an equals sign, because '=' was looked for first.
---
 amtl/experimental/am-argparser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index cd2a42c..f98dffa 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -657,9 +657,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
             //   -keyval
             //   -key:val
             size_t len = strlen(arg);
-            const char* sep = strchr(arg, '=');
-            if (!sep && inline_values_)
-                sep = strchr(arg, ':');
+            const char* sep = strpbrk(arg, inline_values_ ? "=:" : "=");
             if (inline_values_ && sep && strlen(sep + 1) == 0)
                 sep = nullptr;    // Don't allow -key= or -key: with no arg.
             if (sep)
-- 
2.43.0


From 278c8c66aa0136a8087356774e9c7efa7cc92619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 36/38] fix: Mutex ownership can be asked by any thread without
 a data race

In debug builds AssertCurrentThreadOwns() read the owner without
synchronization while the owning thread was writing it.
---
 amtl/am-mutex.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 066cfe9..419ab73 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <atomic>
 #include <mutex>
 #include <thread>
 
@@ -56,16 +57,17 @@ class Mutex : public std::mutex
     }
 
     void unlock() {
-       owner_ = {};
+       owner_ = std::thread::id();
        std::mutex::unlock();
     }
 
     void AssertCurrentThreadOwns() {
-        assert(owner_ == std::this_thread::get_id());
+        assert(owner_.load() == std::this_thread::get_id());
     }
 
   private:
-    std::thread::id owner_ = {};
+    // Atomic, since any thread may ask whether it is the owner.
+    std::atomic<std::thread::id> owner_{std::thread::id()};
 #endif
 };
 
-- 
2.43.0


From 75d82d75862676265c4d8c93f3c47214fded4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 37/38] fix: a SharedLib cannot be copied

The copy would close the same handle again.
---
 amtl/os/am-shared-library.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/os/am-shared-library.h b/amtl/os/am-shared-library.h
index 21227c9..e4d4969 100644
--- a/amtl/os/am-shared-library.h
+++ b/amtl/os/am-shared-library.h
@@ -51,6 +51,10 @@ class SharedLib : public Refcounted<SharedLib>
 #endif
 
   public:
+    // A copy would close the handle a second time.
+    SharedLib(const SharedLib&) = delete;
+    SharedLib& operator=(const SharedLib&) = delete;
+
     SharedLib()
      : lib_(nullptr) {
     }
-- 
2.43.0


From 9426e65e55562ae2cccb0bb84764d1979993c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:41 +0000
Subject: [PATCH 38/38] fix: Split of a std::string dropped everything after a
 null character

Join(Split(str, sep), sep) == str did not hold for strings with embedded
null characters, which a std::string may contain.
---
 amtl/am-string.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index a437805..a5c9424 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -286,7 +286,26 @@ Split(const char* str, const char* split)
 static inline std::vector<std::string>
 Split(const std::string& str, const char* split)
 {
-    return ke::Split(str.c_str(), split);
+    size_t split_len = strlen(split);
+    assert(split_len > 0);
+
+    std::vector<std::string> out;
+
+    // |str| may contain null characters.
+    size_t cursor = 0;
+    size_t match = std::string::npos;
+    while (cursor < str.size()) {
+        match = str.find(split, cursor, split_len);
+        if (match == std::string::npos)
+            break;
+
+        out.emplace_back(str, cursor, match - cursor);
+        cursor = match + split_len;
+    }
+
+    if (cursor < str.size() || match != std::string::npos)
+        out.emplace_back(str, cursor);
+    return out;
 }
 
 // Given a list of strings, return a string combining them all with |sep|
-- 
2.43.0

