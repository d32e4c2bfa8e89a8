From e534c6d736afd05fefe21789051f9f34c209d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 01/44] fix: perspective(fov) builds a left-handed matrix under
 XME_MATH_CLIP_LH

---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..e539afe 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From 18ae68f057ae1eff2aaaa7c2ba98de5c45747380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 02/44] fix: off-centre perspective divides the horizontal
 offset by right - left

---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index e539afe..7deae05 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From 5ed2925056596b907acaa0d0d7293c4e59236113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 03/44] fix: ortho_lh/ortho_rh scale depth in [2][2] and
 translate in column 3

---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 7deae05..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From 84f4e6e7ffde41c41a7e1eb05fc2926758ce3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 04/44] fix: rotate keeps fractional terms when the axis is an
 integer vector

---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..7f241dd 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>(n) * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From be2463c48bca7f072a637eaf8cf528126c7160c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 05/44] fix: the 128-bit to_unsigned overloads test the right
 predefined macro

---
 include/xme/core/utility/to_unsigned.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/utility/to_unsigned.hpp b/include/xme/core/utility/to_unsigned.hpp
index cf55848..74f1b01 100644
--- a/include/xme/core/utility/to_unsigned.hpp
+++ b/include/xme/core/utility/to_unsigned.hpp
@@ -8,7 +8,7 @@ XME_INLINE constexpr auto to_unsigned(T n) {
     return static_cast<std::make_unsigned_t<T>>(n);
 }
 
-#ifdef __sizeof_int128__
+#ifdef __SIZEOF_INT128__
 XME_INLINE constexpr auto to_unsigned(__int128 n) -> unsigned __int128 {
     return static_cast<unsigned __int128>(n);
 }
-- 
2.43.0


From dfc71c38f78d7b6b1096f70e8f3d7a0a9ec0d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 06/44] fix: element access of temporary pairs and tuples keeps
 the reference kind

---
 include/xme/container/pair.hpp   | 22 ++++++++++++++++++++--
 include/xme/container/tuple.hpp  |  5 +++++
 private/container/tuple_base.hpp |  8 +++++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..89e54e5 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -43,7 +43,13 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
+    }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 0>) const&& noexcept
+      -> const T&& {
+        return static_cast<const T&&>(first);
     }
 
     [[nodiscard]]
@@ -58,7 +64,13 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
+    }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 1>) const&& noexcept
+      -> const U&& {
+        return static_cast<const U&&>(second);
     }
 #endif
 
@@ -101,6 +113,12 @@ constexpr auto get(Pair<T, U>&& p) noexcept -> decltype(auto) {
     return std::move(p)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename T, typename U>
+[[nodiscard]]
+constexpr auto get(const Pair<T, U>&& p) noexcept -> decltype(auto) {
+    return std::move(p)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename T, typename U>
 constexpr void swap(Pair<T, U>& lhs, Pair<T, U>& rhs) noexcept(noexcept(lhs.swap(rhs))) {
     lhs.swap(rhs);
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..1d115f9 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -69,6 +69,11 @@ constexpr auto get(Tuple<T...>&& tup) noexcept -> decltype(auto) {
     return std::move(tup)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename... T>
+constexpr auto get(const Tuple<T...>&& tup) noexcept -> decltype(auto) {
+    return std::move(tup)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename... T>
 constexpr void swap(Tuple<T...>& lhs, Tuple<T...>& rhs)
   noexcept((std::is_nothrow_swappable_v<T> && ...)) {
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..e1aef3b 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,13 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
+    }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, I>) const&& noexcept
+      -> const T&& {
+        return static_cast<const T&&>(value);
     }
 #endif
 
-- 
2.43.0


From b3d89ce614fd8658016eb0f084f2c5dab728dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 07/44] fix: tuple_cat of standard pairs and tuples is not
 ambiguous with std::forward_as_tuple

---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1d115f9..3aced81 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -151,7 +151,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From 06128e8e8ab05ebd08d067200db2626a5e552770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 08/44] fix: a tuple inside a tuple is not taken for the outer
 tuple's base

---
 include/xme/container/tuple.hpp  |  3 ++-
 private/container/tuple_base.hpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 3aced81..b6a6106 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -22,7 +22,8 @@ public:
 
     template<typename U>
         requires(CTupleLike<U> || std::is_aggregate_v<std::remove_reference_t<U>>)
-                && (!std::same_as<Tuple, U>) && requires(T... args) { U{args...}; }
+                && (!std::same_as<Tuple, U>) && (!detail::is_part_storing<Tuple, U>)
+                && requires(T... args) { U{args...}; }
     constexpr operator U() const {
         auto convert = []<typename Tup, std::size_t... I>(Tup&& tup, std::index_sequence<I...>) {
             return U{get<I>(std::forward<Tup>(tup))...};
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index e1aef3b..6266a3c 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -69,6 +69,18 @@ struct TypeMap : TupElem... {
 template<typename IndexSequence, typename... T>
 struct GetTupleBase;
 
+//! Whether Part is a base of a tuple that stores Tup as an element
+template<typename Tup, typename Part>
+inline constexpr bool is_part_storing = false;
+
+template<typename Tup, std::size_t I, typename T>
+inline constexpr bool is_part_storing<Tup, TupleElement<I, T>> =
+  std::is_same_v<Tup, std::remove_cvref_t<T>>;
+
+template<typename Tup, typename... TupElem>
+inline constexpr bool is_part_storing<Tup, TypeMap<TupElem...>> =
+  (is_part_storing<Tup, TupElem> || ...);
+
 template<std::size_t... I, typename... T>
 struct GetTupleBase<std::index_sequence<I...>, T...> {
     using type = TypeMap<TupleElement<I, T>...>;
-- 
2.43.0


From 848f12c1bdf61fd76789d1e2903a3b2897927283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 09/44] fix: delegates can be copied

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..d5fc6e1 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -198,7 +198,7 @@ public:
 private:
     AnyData m_storage{};
     R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From a171159576d8a292a12883c090ea48d185a8b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 10/44] fix: delegates can be built from lvalue callables and
 functions

---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index d5fc6e1..e8fe9ea 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
-- 
2.43.0


From b0ad1323bc68484ddd4f130093e06c126f629769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 11/44] fix: Delegate::handle returns the functor when it is
 stored on the heap

---
 include/xme/core/functional/delegate.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e8fe9ea..d5ce1bd 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -67,7 +67,9 @@ public:
                 const Functor& f = *static_cast<const Functor*>(functor.access());
                 return const_cast<Functor*>(std::addressof(f));
             }
-            return functor.template access<Functor*>();
+            else {
+                return functor.template access<Functor*>();
+            }
         }
 
         template<bool local = is_local_storage, typename Fn>
@@ -190,7 +192,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From 87f0acf75d2f559c22da1fb1c505273d84c3cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 12/44] fix: a delegate moves its storage bytewise, so only
 trivially copyable functors are stored in it

---
 include/xme/core/functional/delegate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index d5ce1bd..630a573 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,8 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From a7fb96bb3e81beeae4fa78de65e9e895212efd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 13/44] fix: assignments that copy a functor let its exceptions
 through

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 630a573..8f21868 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -152,7 +152,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -172,7 +172,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From 24dad5b3861f1af845de64f7fb96f0baf2e9bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 14/44] fix: a delegate returning void discards the result of
 its callable

---
 include/xme/core/functional/delegate.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 8f21868..5b5f325 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -60,7 +60,12 @@ public:
           && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
-            return std::invoke(*handle(functor), std::forward<Args>(args)...);
+            if constexpr(std::is_void_v<R>) {
+                std::invoke(*handle(functor), std::forward<Args>(args)...);
+            }
+            else {
+                return std::invoke(*handle(functor), std::forward<Args>(args)...);
+            }
         }
 
         static constexpr auto handle(const AnyData& functor) -> Functor* {
-- 
2.43.0


From fdffa2400b3809072e3923ac1e5df199a03bad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 15/44] fix: reverse iterators are ordered in the direction
 they iterate

---
 include/xme/core/iterators/reverse_iterator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..f939c99 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -121,7 +121,11 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
     friend constexpr bool operator==(const ReverseIterator<It>& lhs,
@@ -132,7 +136,7 @@ public:
     template<typename U>
     friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
                                       const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+        return rhs.operator->() <=> lhs.operator->();
     }
 
 private:
-- 
2.43.0


From 50e37b531367dea735632a63aad23a8f94a37235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 16/44] fix: a constant iterator converts from a constant
 iterator over a convertible base

---
 include/xme/core/iterators/const_iterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..32fbd24 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -33,12 +33,15 @@ public:
       std::conditional_t<std::forward_iterator<It>, typename traits::iterator_category, void>;
     using iterator_concept = decltype(get_iterator_concept());
 
+    template<std::input_iterator>
+    friend class ConstIterator;
+
     constexpr ConstIterator() noexcept = default;
 
     constexpr ConstIterator(It it) noexcept : m_current(it) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other.m_current} {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
-- 
2.43.0


From e3570deade897d962bae0a9690fa6f202aff9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 17/44] fix: comparing reverse iterators of different bases
 does not step before the range

---
 include/xme/core/iterators/reverse_iterator.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index f939c99..b7622ab 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -127,16 +127,14 @@ public:
         return rhs.m_current <=> m_current;
     }
 
-    template<typename U>
-    friend constexpr bool operator==(const ReverseIterator<It>& lhs,
-                                     const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+    template<std::bidirectional_iterator U>
+    constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
+        return m_current == rhs.m_current;
     }
 
-    template<typename U>
-    friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
-                                      const ReverseIterator<U>& rhs) noexcept {
-        return rhs.operator->() <=> lhs.operator->();
+    template<std::bidirectional_iterator U>
+    constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current <=> m_current;
     }
 
 private:
-- 
2.43.0


From 1f9c0e0561165463f564019f1ba9a3629aaf7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 18/44] fix: a failed uninitialized_copy_a destroys the
 elements it created

---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From ec0cecbb0f3cc01bb610a24442bef3cccc375ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 19/44] fix: changing the storage of an array constructs into
 raw storage and destroys the old elements

---
 include/xme/container/array.hpp      | 38 +++++++++++++++-------------
 include/xme/ranges/uninitialized.hpp | 20 +++++++++++++++
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..d043853 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -282,27 +282,31 @@ public:
     }
 
 private:
-    constexpr void grow_storage(size_type n) {
-        const auto old_size = this->size();
-        pointer new_begin   = m_allocator.allocate(n);
+    constexpr void grow_storage(size_type n) { change_storage(n, this->size()); }
 
-        std::ranges::move(*this, new_begin);
-        if(m_data.begin)
-            m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_begin;
-        m_data.end         = new_begin + old_size;
-        m_data.storage_end = new_begin + n;
-    }
+    constexpr void shrink_storage(size_type n) { change_storage(n, std::min(this->size(), n)); }
 
-    constexpr void shrink_storage(size_type n) {
-        size_type elements_to_move = std::min(this->size(), n);
-        pointer new_begin          = m_allocator.allocate(n);
+    //! Moves the first elements_to_move elements to a new storage and destroys the others.
+    constexpr void change_storage(size_type n, size_type elements_to_move) {
+        pointer new_begin = m_allocator.allocate(n);
+        try {
+            ranges::uninitialized_move_a(
+              m_data.begin, m_data.begin + elements_to_move, new_begin, m_allocator);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        replace_storage(new_begin, elements_to_move, n);
+    }
 
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
-        m_allocator.deallocate(m_data.begin, capacity());
+    //! Destroys the current elements and adopts a storage of n elements.
+    constexpr void replace_storage(pointer new_begin, size_type size, size_type n) noexcept {
+        ranges::destroy_a(m_data.begin, m_data.end, m_allocator);
+        if(m_data.begin)
+            m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
-        m_data.end         = new_begin + elements_to_move;
+        m_data.end         = new_begin + size;
         m_data.storage_end = new_begin + n;
     }
 
diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index e9eded8..04f5f01 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -31,6 +31,26 @@ struct {
     }
 } inline constexpr uninitialized_copy_a;
 
+struct {
+    template<std::forward_iterator InIter, std::sentinel_for<InIter> InSent,
+             std::forward_iterator OutIter, typename Alloc>
+    constexpr auto operator()(InIter in_first, InSent in_last, OutIter out_first,
+                              Alloc& alloc) const -> OutIter {
+        OutIter out_curr = out_first;
+        try {
+            for(; in_first != in_last; ++out_curr, (void)++in_first) {
+                std::allocator_traits<Alloc>::construct(
+                  alloc, std::addressof(*out_curr), std::ranges::iter_move(in_first));
+            }
+        }
+        catch(...) {
+            ranges::destroy_a(out_first, out_curr, alloc);
+            throw;
+        }
+        return out_curr;
+    }
+} inline constexpr uninitialized_move_a;
+
 struct {
     template<std::forward_iterator Iter, typename T, typename Alloc>
     constexpr auto operator()(Iter first, std::size_t n, const T& value,
-- 
2.43.0


From c32977c3be54f2894975d99383ab1fd4575489fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 20/44] fix: inserting into a full array constructs into raw
 storage and may take one of its own elements

---
 include/xme/container/array.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index d043853..df88d9b 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -253,7 +253,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(m_data.end, std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
@@ -316,21 +316,28 @@ private:
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
         const size_type curr_size       = this->size();
         pointer new_start               = m_allocator.allocate(new_size);
+        pointer new_pos                 = new_start + elements_before;
+        pointer constructed             = new_start;
         try {
-            alloc_traits::construct(
-              m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            // Constructed first, args may refer to an element of this array
+            alloc_traits::construct(m_allocator, new_pos, std::forward<Args>(args)...);
+            try {
+                constructed = ranges::uninitialized_move_a(
+                  m_data.begin, m_data.begin + elements_before, new_start, m_allocator);
+                ranges::uninitialized_move_a(
+                  m_data.begin + elements_before, m_data.end, new_pos + 1, m_allocator);
+            }
+            catch(...) {
+                ranges::destroy_a(new_start, constructed, m_allocator);
+                ranges::destroy_at_a(new_pos, m_allocator);
+                throw;
+            }
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_start;
-        m_data.end         = new_start + (curr_size + 1);
-        m_data.storage_end = new_start + new_size;
+        replace_storage(new_start, curr_size + 1, new_size);
         return begin() + elements_before;
     }
 
-- 
2.43.0


From f9be6276f27b9c92522d28cf03745d0c5b5337aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 21/44] fix: erasing from an array assigns to live elements and
 destroys the ones left at the end

---
 include/xme/container/array.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index df88d9b..8e13bab 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -264,9 +264,8 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
-        --m_data.end;
+        std::move(p + 1, m_data.end, p);
+        pop_back();
         return p;
     }
 
@@ -275,9 +274,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
-        m_data.end -= elements;
+        if(elements > 0) {
+            pointer new_end = std::move(p + elements, m_data.end, p);
+            ranges::destroy_a(new_end, m_data.end, m_allocator);
+            m_data.end = new_end;
+        }
         return p;
     }
 
-- 
2.43.0


From aa8a2ead7ee2a03020e0734dcce11c42cb65d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 22/44] fix: an element of an array can be inserted into that
 array

---
 include/xme/container/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 8e13bab..0f4f5b2 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,11 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        T tmp(std::forward<U>(value));  // value may be an element of this array
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
-- 
2.43.0


From fceb3b40ca54f6112742cec0d19d3d1fb640c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 23/44] fix: inserting a range into an array assigns to live
 elements and constructs into raw storage

---
 include/xme/container/array.hpp | 42 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 0f4f5b2..bfec400 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -183,27 +183,45 @@ public:
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
         if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
+            Array tmp(capacity() == 0 ? elements : capacity() + elements, m_allocator);
             size_type elements_before = std::ranges::distance(begin(), pos);
+            pointer gap_begin         = tmp.m_data.begin + elements_before;
+            pointer gap_end           = gap_begin + elements;
 
             // Must be constructed first, so if it throws we don't break the original
             // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
+            xme::ranges::uninitialized_copy_a(first, last, gap_begin, gap_end, m_allocator);
+            try {
+                ranges::uninitialized_move_a(m_data.begin, p, tmp.m_data.begin, m_allocator);
+            }
+            catch(...) {
+                ranges::destroy_a(gap_begin, gap_end, m_allocator);
+                throw;
+            }
+            tmp.m_data.end = gap_end;
+            tmp.m_data.end = ranges::uninitialized_move_a(p, m_data.end, gap_end, m_allocator);
             std::ranges::swap(m_data, tmp.m_data);
 
             return begin() + elements_before;
         }
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
+        if(elements == 0)
+            return p;
+        const pointer old_end          = m_data.end;
+        const size_type elements_after = old_end - p;
+        if(elements < elements_after) {
+            m_data.end = ranges::uninitialized_move_a(
+              old_end - elements, old_end, old_end, m_allocator);
+            std::move_backward(p, old_end - elements, old_end);
+            std::ranges::copy(first, last, p);
+        }
+        else {
+            Iter mid   = std::ranges::next(first, elements_after);
+            m_data.end = xme::ranges::uninitialized_copy_a(
+                           mid, last, old_end, p + elements, m_allocator).second;
+            m_data.end = ranges::uninitialized_move_a(p, old_end, p + elements, m_allocator);
+            std::ranges::copy(first, mid, p);
+        }
         return p;
     }
 
-- 
2.43.0


From 97703ebbcab3a6b089281f12015aa39979c348e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 24/44] fix: SharedLibrary::close forgets the handle it closed

---
 include/xme/hal/shared_library.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..d1ad583 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -47,7 +47,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From 347c448ac26393a5437524a0027a23afe5fb14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 25/44] fix: SharedLibrary::open closes the handle it replaces

---
 include/xme/hal/shared_library.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index d1ad583..aa699a0 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -40,6 +40,7 @@ public:
     constexpr void open(std::string_view lib_name) {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+        close();
         m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
-- 
2.43.0


From c301cf313fb33dba0ed4828c8891c7ceec9504e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 26/44] fix: SharedLibrary passes exactly the given names to
 dlopen and dlsym

---
 include/xme/hal/shared_library.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index aa699a0..c7a6c73 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include "platform_macros.hpp"
 
@@ -41,7 +42,7 @@ public:
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         close();
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -59,7 +60,7 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> void* {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From 2079038191eafadcdb74696c64c700466d77f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 27/44] fix: SharedLibrary::proc_address resolves nothing when
 no library is open

---
 include/xme/hal/shared_library.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index c7a6c73..4089d7c 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -60,6 +60,8 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> void* {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
+        if(!m_library)
+            return nullptr;
         return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
-- 
2.43.0


From 3f292bd30f4706bde4ae7872049eed42e2ac9fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 28/44] fix: SharedLibrary::proc_address returns the requested
 type

---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4089d7c..65300de 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -57,7 +57,7 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         if(!m_library)
-- 
2.43.0


From 6543009a0b1ac24a92539ce0d472546b6afe0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 29/44] fix: environment access passes exactly the given names
 and values

---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From fb340127e6351a788f808c60fb9509eb0acae668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 30/44] fix: find reads ranges of any alignment

---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From c57e62d1201e44d56e55fafe7157bf44759f3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 31/44] fix: find compares elements that are not plain integers
 with operator==

---
 include/xme/core/algorithm/find.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 67d5115..fe0c48d 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -75,8 +75,9 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
     using T = ::ranges::iter_value_t<I>;
 
     if constexpr(::ranges::contiguous_iterator<I>
+                 && (std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
+                 && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
         while(compare + readable_bytes <= s) {
-- 
2.43.0


From 204cc74bcd429797a64fc2b96009bb3f38b25c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 32/44] fix: find accepts any sentinel and stays inside the
 range

---
 include/xme/core/algorithm/find.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index fe0c48d..6d2cadd 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -74,13 +74,13 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
+    if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
                  && (std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
                  && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        while(static_cast<std::size_t>(s - compare) >= readable_bytes) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
-- 
2.43.0


From 3a7d39d37de5ff6e79dfdfa6197449426c5fcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 33/44] fix: find of 8-byte elements builds without SSE4.1

---
 include/xme/core/algorithm/find.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 6d2cadd..2ab9412 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -56,12 +56,14 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
+#    if XME_SIMD_USE_SSE41
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
         const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
+#    endif
     else
 #endif
         static_assert(size < 0);
@@ -76,7 +78,8 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 
     if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
                  && (std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
-                 && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+                 && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4
+                     || (sizeof(T) == 8 && XME_SIMD_USE_SSE41))
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-- 
2.43.0


From 2b8111a025a2b895d3c34aac69fe04fa80ebecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 34/44] fix: reverse handles elements of every size and type

---
 include/xme/core/algorithm/reverse.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..cfa54dd 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -49,8 +48,8 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+                 && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From 6c15df07cc09d44526624c81c03759da44cb7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 35/44] fix: reverse accepts any sentinel

---
 include/xme/core/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index cfa54dd..52212c2 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -48,7 +48,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+    if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S> && sizeof(T) == 1
                  && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
-- 
2.43.0


From 68f6207329fabf765ea04c092f06eb04b6c0ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 36/44] fix: reverse uses byte shuffles only with SSSE3

---
 include/xme/core/algorithm/reverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52212c2..f8f1694 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -28,7 +28,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -45,7 +45,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
     if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S> && sizeof(T) == 1
-- 
2.43.0


From c13d00a33461efb5a87d1c42a570e396c6ac8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 37/44] fix: array views and linked lists compile together with
 arrays

---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 02d5985fb452f1f9c8b491d85276862772a66775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 38/44] fix: linked list constructors release their nodes when
 an element throws

---
 include/xme/container/linked_list.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..34a1598 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -37,8 +37,11 @@ public:
 
     constexpr LinkedList() noexcept = default;
 
+    // The constructors that create nodes delegate to the default one, so that the destructor
+    // releases the nodes already created when an element throws.
+
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +50,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +60,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From e887d9eafcfb45a75be1e2bfa1a5c3709d7c8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 39/44] fix: lerp subtracts an unsigned percent without
 wrapping around

---
 include/xme/math/vectors/functions.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/vectors/functions.hpp b/include/xme/math/vectors/functions.hpp
index 538800b..22137fe 100644
--- a/include/xme/math/vectors/functions.hpp
+++ b/include/xme/math/vectors/functions.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <limits>
+#include <type_traits>
 #include <xme/setup.hpp>
 #include <xme/core/concepts/arithmetic.hpp>
 #include <xme/math/scalars/functions.hpp>
@@ -17,7 +18,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
     if constexpr(std::is_same_v<std::remove_cv_t<U>, bool>) {
         return percent ? v2 : v1;
     }
-    return v2 * percent + v1 * (1 - percent);
+    return v2 * percent + v1 * (std::common_type_t<T, U>(1) - percent);
 }
 
 //! Linearly interpolates `v1` and `v2`.
@@ -32,7 +33,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
             result[i] = percent[i] ? v2[i] : v1[i];
         }
         else {
-            result[i] = v2[i] * percent[i] + v1[i] * (1 - percent[i]);
+            result[i] = v2[i] * percent[i] + v1[i] * (std::common_type_t<T, U>(1) - percent[i]);
         }
     }
     return result;
-- 
2.43.0


From 9daeb89c58a3947ef19ead6b937635e8e8dad920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 40/44] fix: a 4x4 matrix can be converted from another element
 type

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..0e48752 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -65,7 +65,7 @@ public:
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data({column_type(m[0]), column_type(m[1]), column_type(m[2]), column_type(m[3])}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
-- 
2.43.0


From 7ce625bbcf5659677dc5c385b9cf4ce3a2edbafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:44 +0000
Subject: [PATCH 41/44] fix: a matrix can be built from columns of other
 element types

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 0e48752..c370928 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,7 +61,7 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({column_type(args)...}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..8366e5a 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({column_type(args)...}) {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From 943f051de839f0c0d95cc11c8adf0edf5ac7f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 42/44] fix: binding a constant argument lets an exception of
 its copy through

---
 include/xme/core/functional/bind.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..2e1b7b6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -19,7 +19,7 @@ public:
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
     constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
-- 
2.43.0


From b855bf50493a7a16ddad15fa38e1b21823902dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 43/44] fix: copying a bound callable lets an exception of a
 bound argument's copy through

---
 include/xme/core/functional/bind.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index 2e1b7b6..cd826fd 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,7 +12,7 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
     constexpr BindFront(BindFront&&) noexcept = default;
 
@@ -22,7 +22,7 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
     constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
 
@@ -74,7 +74,7 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
     constexpr BindBack(BindBack&&) noexcept = default;
 
@@ -84,7 +84,7 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
     constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
 
-- 
2.43.0


From 164697755692f34db05e6c9606db196e748e85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:33 +0000
Subject: [PATCH 44/44] fix: assigning to a pair lets an exception of an
 element's assignment through

---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 89e54e5..ea090b4 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(noexcept(first = get<0>(std::forward<P>(p)))
+               && noexcept(second = get<1>(std::forward<P>(p)))) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0

