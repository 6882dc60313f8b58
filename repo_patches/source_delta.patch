From 9fbc43bb21cc29396b63b5887aa22c39dd4b6128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 01/24] fix: test case sizes overflow int for large max_size

---
 src/detail/Testing.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..dcd3dbd 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,5 +1,9 @@
 #include "Testing.h"
 
+#include <algorithm>
+#include <cstdint>
+#include <limits>
+
 #include "rapidcheck/BeforeMinimalTestCase.h"
 #include "rapidcheck/shrinkable/Operations.h"
 
@@ -12,17 +16,20 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
+  //
+  // The intermediate results don't necessarily fit in an `int`.
+
+  const auto numSizes = static_cast<int64_t>(params.maxSize) + 1;
   const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
   const auto numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * params.maxSize) / (numRest - 1));
   }
 }
 
@@ -42,8 +49,10 @@ SearchResult searchProperty(const Property &property,
   auto recentDiscards = 0;
   auto r = Random(params.seed);
   while (searchResult.numSuccess < params.maxSuccess) {
-    const auto size =
-        sizeFor(params, searchResult.numSuccess) + (recentDiscards / 10);
+    const auto size = static_cast<int>(std::min<int64_t>(
+        static_cast<int64_t>(sizeFor(params, searchResult.numSuccess)) +
+            (recentDiscards / 10),
+        std::numeric_limits<int>::max()));
     const auto random = r.split();
 
     auto shrinkable = property(random, size);
-- 
2.43.0


From 618c517c51c76b762bfe08a4620e4e2eec518430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 02/24] fix: discard limit overflows int for large max_success
 or max_discard_ratio

---
 src/detail/Testing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index dcd3dbd..9f81c3c 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -44,7 +44,8 @@ SearchResult searchProperty(const Property &property,
   searchResult.numDiscarded = 0;
   searchResult.tags.reserve(params.maxSuccess);
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  const auto maxDiscard =
+      static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
-- 
2.43.0


From 5d698aec7a688e2bafe78369847c0fc98fef190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 03/24] fix: do not allocate memory for max_success tags up
 front

---
 src/detail/Testing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 9f81c3c..be20e17 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -42,7 +42,6 @@ SearchResult searchProperty(const Property &property,
   searchResult.type = SearchResult::Type::Success;
   searchResult.numSuccess = 0;
   searchResult.numDiscarded = 0;
-  searchResult.tags.reserve(params.maxSuccess);
 
   const auto maxDiscard =
       static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
-- 
2.43.0


From 009a4a3e99ffbf5f856e32b5eaf431b2a13bddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 04/24] fix: exceptions thrown when generating property
 arguments escape from the check

---
 include/rapidcheck/detail/Property.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/Property.hpp b/include/rapidcheck/detail/Property.hpp
index 34fd594..c96cd56 100644
--- a/include/rapidcheck/detail/Property.hpp
+++ b/include/rapidcheck/detail/Property.hpp
@@ -93,12 +93,34 @@ private:
   Callable m_callable;
 };
 
+/// Helper class which turns a callable that takes arguments into one which
+/// takes none and generates the arguments itself. This way, anything thrown when
+/// generating the arguments can be handled by `PropertyAdapter`.
+template <typename Callable>
+class ArgumentGeneratingCallable {
+public:
+  template <typename Arg,
+            typename = typename std::enable_if<
+                !std::is_same<Decay<Arg>, ArgumentGeneratingCallable>::value>::
+                type>
+  ArgumentGeneratingCallable(Arg &&callable)
+      : m_callable(std::forward<Arg>(callable)) {}
+
+  ReturnType<Callable> operator()() const {
+    return gen::detail::execWithArguments(m_callable, ArgTypes<Callable>());
+  }
+
+private:
+  Callable m_callable;
+};
+
 Gen<CaseDescription>
 mapToCaseDescription(Gen<std::pair<TaggedResult, gen::detail::Recipe>> gen);
 
 template <typename Callable>
 Property toProperty(Callable &&callable) {
-  using Adapter = PropertyAdapter<Decay<Callable>>;
+  using Adapter =
+      PropertyAdapter<ArgumentGeneratingCallable<Decay<Callable>>>;
   return mapToCaseDescription(
       gen::detail::execRaw(Adapter(std::forward<Callable>(callable))));
 }
-- 
2.43.0


From 072e897c4aebc976899e4cc12345fda7a893b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 05/24] fix: signed overflow when shrinking integers towards a
 distant target

---
 include/rapidcheck/shrink/Shrink.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..1aad78a 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,9 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      , m_diff((target < value)
+                   ? (static_cast<UInt>(value) - static_cast<UInt>(target))
+                   : (static_cast<UInt>(target) - static_cast<UInt>(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
-- 
2.43.0


From 5de9b35de6cbf3401e8ffa2ab8580f744dcb2177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 06/24] fix: wide characters shrink to their truncation,
 possibly a null character

---
 include/rapidcheck/shrink/Shrink.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 1aad78a..aaf047d 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -190,13 +190,13 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 template <typename T>
 Seq<T> character(T value) {
   const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
+  auto shrinks = seq::concat(
+      seq::cast<T>(seq::fromContainer(std::string("abc"))),
       // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+      std::islower(value, locale)
+          ? Seq<T>()
+          : seq::just(static_cast<T>(std::tolower(value, locale))),
+      seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From bbc79bd80227e33c617767262eff3501aec8ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 07/24] fix: assigning from an empty Seq dereferences null

---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From 35520e8099317b6e3d37770edb1f161f27de239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 08/24] fix: shrinks of unique containers refer to a destroyed
 strategy

---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..fcdc845 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // Capture a copy of the key function, the shrinks may outlive `this`.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From a82712621f6c62961bf9cd5d7fb862b3a6fb75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 09/24] fix: unique container generators move from a key
 function passed as lvalue

---
 include/rapidcheck/gen/Container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index fcdc845..e5d58f1 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -238,7 +238,7 @@ class UniqueContainerStrategy {
 public:
   template <typename Arg>
   explicit UniqueContainerStrategy(Arg &&arg)
-      : m_f(std::move(arg)) {}
+      : m_f(std::forward<Arg>(arg)) {}
 
   template <typename T>
   Shrinkables<T> generateElements(const Random &random,
-- 
2.43.0


From 24a2b3e6c37cf471122c955d94bc977430791f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 10/24] fix: seq::iterate applies its function one step too
 early, losing an element if that throws

---
 include/rapidcheck/seq/Create.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/seq/Create.hpp b/include/rapidcheck/seq/Create.hpp
index 8a6f52a..3981645 100644
--- a/include/rapidcheck/seq/Create.hpp
+++ b/include/rapidcheck/seq/Create.hpp
@@ -87,17 +87,21 @@ public:
   template <typename ValueArg, typename CallableArg>
   IterateSeq(ValueArg &&value, CallableArg &&iterate)
       : m_value(std::forward<ValueArg>(value))
-      , m_iterate(std::forward<CallableArg>(iterate)) {}
+      , m_iterate(std::forward<CallableArg>(iterate))
+      , m_started(false) {}
 
   Maybe<T> operator()() {
-    T value = m_value;
-    m_value = m_iterate(std::move(m_value));
-    return value;
+    if (m_started) {
+      m_value = m_iterate(std::move(m_value));
+    }
+    m_started = true;
+    return m_value;
   }
 
 private:
   T m_value;
   Callable m_iterate;
+  bool m_started;
 };
 
 template <typename T>
-- 
2.43.0


From 95e7a8d6505ba95b99c9696f7706034091f72d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 11/24] fix: deserializing a Random reads past the end of
 truncated data and accepts a bit index outside of the word

---
 include/rapidcheck/Random.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..d125735 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -39,7 +39,13 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
   output.m_bitsi = *iit;
+  if (output.m_bitsi > Random::kBits) {
+    throw SerializationException("Invalid random generator state");
+  }
   return ++iit;
 }
 
-- 
2.43.0


From 17b12b15f5bfe4ac6ee7d3f73a9e4a6d488d7ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 12/24] fix: deserializing a fresh Random into a used one keeps
 the old block, so the result is not equal

---
 include/rapidcheck/Random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index d125735..50c8006 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -28,6 +28,7 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   iit = deserializeCompact(iit, end, counter);
   // Normally, the block is calculated lazily if counter is divisible by 4 so
   // let's simulate this.
+  output.m_block = Random::Block();
   if (counter != 0) {
     const auto blki =
         ((counter - 1) % std::tuple_size<Random::Block>::value) + 1;
-- 
2.43.0


From e241cac62c775f98fe2eafb719b0ce77507fd5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 13/24] fix: deserializing a string reserves memory for the
 length claimed by the data

---
 include/rapidcheck/detail/Serialization.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..174b9b3 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -55,7 +55,6 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   iit = deserializeCompact(iit, end, len);
 
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From bf9721f0506438be66030efc6453e330809fb914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 14/24] fix: deserializing a compact integer shifts by more
 than its width if the data is too long

---
 include/rapidcheck/detail/Serialization.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 174b9b3..df9c848 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -189,7 +189,12 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
     auto x = static_cast<std::uint8_t>(*it);
-    uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
+    const auto bits = static_cast<std::uint8_t>(x & 0x7F);
+    const auto room = std::numeric_limits<UInt>::digits - nbits;
+    if (room <= 0 || (room < 7 && (bits >> room) != 0)) {
+      throw SerializationException("Integer out of range");
+    }
+    uvalue |= static_cast<UInt>(static_cast<UInt>(bits) << nbits);
     nbits += 7;
     if ((x & 0x80) == 0) {
       output = static_cast<T>(uvalue);
-- 
2.43.0


From 342e0da8b0a8c4bfa20cd59badcde9d654ecd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 15/24] fix: reject configuration values with trailing garbage

'max_success=12abc' or 'noshrink=1x' was silently accepted as 12 and 1.
---
 src/detail/Configuration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Configuration.cpp b/src/detail/Configuration.cpp
index 5a9f91c..6e7aafe 100644
--- a/src/detail/Configuration.cpp
+++ b/src/detail/Configuration.cpp
@@ -48,7 +48,8 @@ template <typename T>
 void fromString(const std::string &str, T &out, bool &ok) {
   std::istringstream in(std::move(str));
   in >> out;
-  ok = !in.fail();
+  // The whole string must be consumed
+  ok = !in.fail() && (in.peek() == std::istringstream::traits_type::eof());
 }
 
 template <typename T>
-- 
2.43.0


From c87d5a31502778d5ae38b69f30f98a55fb27deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 16/24] fix: report a missing key in a configuration string

'=5 seed=3' was accepted and everything from the missing key on ignored.
---
 src/detail/MapParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/detail/MapParser.cpp b/src/detail/MapParser.cpp
index b70a2d0..3e5327f 100644
--- a/src/detail/MapParser.cpp
+++ b/src/detail/MapParser.cpp
@@ -83,13 +83,17 @@ bool parseString(ParseState &state, std::string &value, Pred pred) {
 bool parsePair(ParseState &s0, std::pair<std::string, std::string> &pair) {
   ParseState s1(s0);
   skipSpace(s1);
+  if (s1.end()) {
+    return false;
+  }
+
   parseString(s1,
               pair.first,
               [](char c) {
                 return (c != '=') && !std::isspace(c, std::locale::classic());
               });
   if (pair.first.empty()) {
-    return false;
+    throw ParseException(s1.pos, "Expected key");
   }
 
   skipSpace(s1);
-- 
2.43.0


From 564f45399c95dc4cf1c12377a450210d56d30690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 17/24] fix: destroy the temporary in Variant copy assignment

Assigning a Variant that holds another type left the moved-from temporary
undestroyed.
---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..9b18788 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -170,6 +170,7 @@ operator=(const Variant &rhs) noexcept(
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
     m_typeIndex = rhs.m_typeIndex;
+    destroy(m_typeIndex, &tmp);
   }
 
   return *this;
-- 
2.43.0


From bfecb731612269e17df961318f23272ec011358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 18/24] fix: assignment of Gen and Shrinkable from moved-from,
 self and owned handles

Copying a moved-from handle dereferenced null, moving a handle to itself
released what it held, and assigning a handle that is owned by the object
that gets released read it after its destruction.
---
 include/rapidcheck/Gen.hpp        | 22 +++++++++-------------
 include/rapidcheck/Shrinkable.hpp | 18 +++++++-----------
 2 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index 0c48004..a0fa222 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -95,17 +95,16 @@ Gen<T> Gen<T>::as(const std::string &name) const {
 template <typename T>
 Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
                                          m_name(other.m_name) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  rhs.m_impl->retain();
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = rhs.m_impl;
-  m_name = rhs.m_name;
+  Gen copy(rhs);
+  std::swap(m_impl, copy.m_impl);
+  std::swap(m_name, copy.m_name);
   return *this;
 }
 
@@ -117,12 +116,9 @@ Gen<T>::Gen(Gen &&other) noexcept : m_impl(other.m_impl),
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(Gen &&rhs) noexcept {
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = rhs.m_impl;
-  rhs.m_impl = nullptr;
-  m_name = std::move(rhs.m_name);
+  Gen moved(std::move(rhs));
+  std::swap(m_impl, moved.m_impl);
+  std::swap(m_name, moved.m_name);
   return *this;
 }
 
diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 20e0f7b..a57bc71 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -56,7 +56,9 @@ Seq<Shrinkable<T>> Shrinkable<T>::shrinks() const noexcept {
 template <typename T>
 Shrinkable<T>::Shrinkable(const Shrinkable &other) noexcept
     : m_impl(other.m_impl) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
@@ -66,21 +68,15 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  other.m_impl->retain();
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = other.m_impl;
+  Shrinkable copy(other);
+  std::swap(m_impl, copy.m_impl);
   return *this;
 }
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(Shrinkable &&other) noexcept {
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = other.m_impl;
-  other.m_impl = nullptr;
+  Shrinkable moved(std::move(other));
+  std::swap(m_impl, moved.m_impl);
   return *this;
 }
 
-- 
2.43.0


From edef687f80485c13d568324ed04391db4bb19737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 19/24] fix: BitStream::nextWithSize does not overflow for
 sizes far above the nominal size

---
 include/rapidcheck/detail/BitStream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/BitStream.hpp b/include/rapidcheck/detail/BitStream.hpp
index a4a2157..7c21132 100644
--- a/include/rapidcheck/detail/BitStream.hpp
+++ b/include/rapidcheck/detail/BitStream.hpp
@@ -85,7 +85,9 @@ T BitStream<Source>::next(int nbits, std::false_type) {
 template <typename Source>
 template <typename T>
 T BitStream<Source>::nextWithSize(int size) {
-  return next<T>((size * numBits<T>() + (kNominalSize / 2)) / kNominalSize);
+  const int cappedSize = std::min(size, kNominalSize);
+  return next<T>((cappedSize * numBits<T>() + (kNominalSize / 2)) /
+                 kNominalSize);
 }
 
 template <typename Source>
-- 
2.43.0


From c9cf43b0ca0ceca08f76dda7d724a75f79a482b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:48 +0000
Subject: [PATCH 20/24] fix: different strings are shown differently:
 backslashes and bytes in hex are escaped unambiguously

---
 src/Show.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..10f6f94 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -2,7 +2,6 @@
 
 #include <string>
 #include <iostream>
-#include <iomanip>
 #include <cctype>
 #include <locale>
 
@@ -16,7 +15,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
@@ -54,11 +53,10 @@ void showValue(const std::string &value, std::ostream &os) {
         os << ' ';
         break;
       default:
-        auto flags = os.flags();
-        os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
-           << static_cast<int>(c & 0xFF);
-        os.flags(flags);
+        // Always two digits so that a following character cannot be mistaken for
+        // a part of the escape sequence
+        const char *const digits = "0123456789ABCDEF";
+        os << "\\x" << digits[(c >> 4) & 0xF] << digits[c & 0xF];
       }
     }
   }
-- 
2.43.0


From f55e42baac51c345d837ffa450ce19c1d2f8161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 21/24] fix: showing a null pointer does not dereference it,
 and the address of a character is not read as a string

---
 include/rapidcheck/Show.hpp | 9 ++++++++-
 src/Show.cpp                | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..4fe52c6 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,9 +63,16 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (p == nullptr) {
+    os << "nullptr";
+    return;
+  }
+
   show(*p, os);
   auto flags = os.flags();
-  os << " (" << std::hex << std::showbase << p << ")";
+  // Insert the address, not what a pointer to a character points at
+  os << " (" << std::hex << std::showbase
+     << const_cast<const void *>(static_cast<const volatile void *>(p)) << ")";
   os.flags(flags);
 }
 
diff --git a/src/Show.cpp b/src/Show.cpp
index 10f6f94..b44e068 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -64,6 +64,11 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (value == nullptr) {
+    os << "nullptr";
+    return;
+  }
+
   show(std::string(value), os);
 }
 
-- 
2.43.0


From 7d034254f8fb52cd1e62c69fc48fe25d8b09760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 22/24] fix: signed char values are shown as numbers like char
 and unsigned char

---
 include/rapidcheck/Show.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index 4fe52c6..c972f4e 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -53,6 +53,7 @@ void showValue(T value,
 template <typename T>
 void showValue(T value,
                typename std::enable_if<(std::is_same<T, char>::value ||
+                                        std::is_same<T, signed char>::value ||
                                         std::is_same<T, unsigned char>::value),
                                        std::ostream>::type &os) {
   os << static_cast<int>(value);
-- 
2.43.0


From 61fd6399586cc5eba437e483d7849f6ef13aeac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 23/24] fix: properties can take boost::optional arguments

showValue for boost::optional was declared in namespace rc where rc::show, which relies on
argument dependent lookup, does not find it, so that they did not compile.
---
 .../boost/include/rapidcheck/gen/boost/Optional.hpp   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
index aeb4212..b524b4e 100644
--- a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
+++ b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
@@ -23,13 +23,18 @@ struct Arbitrary<boost::optional<T>> {
   }
 };
 
+} // namespace rc
+
+namespace boost {
+
+// In this namespace so that `rc::show` finds it
 template <typename T>
-void showValue(const boost::optional<T> &x, std::ostream &os) {
+void showValue(const optional<T> &x, std::ostream &os) {
   if (x) {
-    show(*x, os);
+    rc::show(*x, os);
   } else {
     os << "boost::none";
   }
 }
 
-} // namespace rc
+} // namespace boost
-- 
2.43.0


From 6752f5885c5a21a72d5de3b34776b70aa3928dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 24/24] fix: the doctest integration compiles

In namespace rc::doctest the name doctest, which doctest's macros use, too, found that
namespace and not doctest's own.
---
 extras/doctest/include/rapidcheck/doctest.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..dcc23a5 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -7,6 +7,9 @@
 
 namespace rc::doctest {
 
+// The names of doctest itself, which its macros use, too
+namespace doctest = ::doctest;
+
 /**
  * Checks the given predicate by applying it to randomly generated arguments.
  *
-- 
2.43.0

