From 238c6afb7b8e24592b257dccbdd6f22dde840bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 01/27] fix: make circular_buffer_adapter const iterators
 usable

The const iterator had no copy constructor, and moving it passed a pointer
to const to adapter functions expecting a pointer to non-const. As a result,
incrementing, decrementing, adding to or copying a const_iterator and
dereferencing a const_reverse_iterator failed to compile.
---
 .../embedded/detail/circular_buffer_adapter.h | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..39c052f 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,20 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  // Conversion from a mutable iterator. This must not be used as the copy
+  // constructor (of the mutable iterator), as otherwise the copy constructor
+  // of the const iterator would be missing.
+  template <
+      typename Tr,
+      typename std::enable_if<
+          std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+              !std::is_same<Tr, Traits>::value,
+          bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
@@ -183,7 +193,11 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  // The adapter only deals with pointers to T; the `const` of the const
+  // iterator is added when dereferencing.
+  using real_pointer = T*;
+
+  cba_iterator(circular_buffer_adapter<T> const* adapter, real_pointer it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -191,10 +205,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  real_pointer realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  real_pointer it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From 43e0d251f80b8c3d54fbde09011534c28c6ef2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 02/27] fix: access target of over-aligned function objects at
 the right address

The call operator always cast to a function with default capacity and
alignment. With a non-default alignment, the storage is at a different
offset, so the target was called with a wrong object address.
---
 include/embedded/function.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..405273e 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -121,30 +121,30 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Function, typename Signature>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Function, typename Return, typename... Args>
+struct function_traits<Function, Return(Args...)> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn = static_cast<Function*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Function, typename Return, typename... Args>
+struct function_traits<Function, Return(Args...) const> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn = static_cast<Function const*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -175,9 +175,11 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<function<Signature, Capacity, Alignment>,
+                                      Signature> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<function, Signature>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From e4a617f2e28311fff91c779ff76c5db1aff07f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 03/27] fix: function with const signature must call target as
 const

The constraint on const signatures checks that the target can be called as
const, but the call itself used a non-const target, so a different overload
of the target's call operator could be selected.
---
 include/embedded/function.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 405273e..b4c99e8 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -65,7 +65,7 @@ class vtbl<Return(Args...)> {
   template <typename T>
   explicit constexpr vtbl(wrap<T>) noexcept
       : call{&vt_call<T>}
-      , proc{&vt_proc<T>} {}
+      , proc{&vt_proc<typename std::remove_const<T>::type>} {}
 
  private:
   static Return empty_call(storage_t, Args&&...) {
@@ -128,6 +128,8 @@ template <typename Function, typename Return, typename... Args>
 struct function_traits<Function, Return(Args...)> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using target = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -141,6 +143,8 @@ template <typename Function, typename Return, typename... Args>
 struct function_traits<Function, Return(Args...) const> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using target = const T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -184,7 +188,8 @@ class function final
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
   template <typename T>
-  using typed_vtbl = detail::typed_vtbl<signature, T>;
+  using typed_vtbl =
+      detail::typed_vtbl<signature, typename traits::template target<T>>;
 
   friend traits;
 
-- 
2.43.0


From 760f124881c3261703754371636d615b8038226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 04/27] fix: allow function with void return type to discard
 target's result

The constructor accepts any invocable target if the signature returns void,
but a target with non-void result failed to compile in the call thunk.
---
 include/embedded/function.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index b4c99e8..bc0d7ee 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -78,11 +78,19 @@ class vtbl<Return(Args...)> {
 
   static void empty_proc(oper, storage_t, storage_t) noexcept {}
 
-  template <typename T>
+  template <typename T, typename R = Return,
+            typename std::enable_if<!std::is_void<R>::value, bool>::type = true>
   static Return vt_call(storage_t s, Args&&... args) {
     return (*static_cast<T*>(s))(static_cast<Args&&>(args)...);
   }
 
+  // discard whatever the target returns
+  template <typename T, typename R = Return,
+            typename std::enable_if<std::is_void<R>::value, bool>::type = true>
+  static Return vt_call(storage_t s, Args&&... args) {
+    static_cast<void>((*static_cast<T*>(s))(static_cast<Args&&>(args)...));
+  }
+
   template <typename T>
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
-- 
2.43.0


From d38816cdff9315bbe7b36b79612e6616c4f5c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 05/27] fix: compare vector elements for equality in vector's
 operator==

Using < and > made vectors containing NaN compare equal to any other vector
and failed to compile for vectors of complex numbers.
---
 include/embedded/constexpr_math/vector.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..2e254bb 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -127,15 +127,15 @@ class prod_reducer {
 };
 
 template <typename T, std::size_t Size, std::size_t I = 0>
-struct compare {
-  constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+struct equal {
+  constexpr bool operator()(T const& a, T const& b) const noexcept {
+    return a[I] == b[I] && equal<T, Size, I + 1>()(a, b);
   }
 };
 
 template <typename T, std::size_t Size>
-struct compare<T, Size, Size> {
-  constexpr int operator()(T const&, T const&) const noexcept { return 0; }
+struct equal<T, Size, Size> {
+  constexpr bool operator()(T const&, T const&) const noexcept { return true; }
 };
 
 template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
@@ -296,7 +296,7 @@ class vector {
   }
 
   constexpr bool operator==(vector const& other) const noexcept {
-    return detail::compare<vector, Size>()(*this, other) == 0;
+    return detail::equal<vector, Size>()(*this, other);
   }
 
   template <typename Pred>
-- 
2.43.0


From b44ce777c88fb98085c907b8799ec341e7948fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 06/27] fix: pair up real poles when building second order
 sections

The predicate that selects the second real pole preferred complex poles over
real ones, so a real pole could end up in the same section as one of a pair
of complex conjugate poles, resulting in the wrong filter.
---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From f96ce72e6eec2cca1ebbda16fdb98937e6757319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 07/27] fix: correct exception specification of move_wrapper
 constructor

Constructing a move_wrapper moves the value, but the exception specification
depended on the default constructor of the value type, so an exception thrown
by the move constructor could end up terminating the program.
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From 6be87ba96a6fa8972e83164f374d14bd0a12dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 08/27] fix: truncate long names in filter debug header

The number of characters to copy was derived from the size of the name passed
in rather than the size of the member, so names that don't fit failed to
compile instead of being truncated.
---
 include/embedded/signal/detail/debug_filter_coefs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..37066cb 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -66,7 +66,8 @@ struct filter_debug_header {
                                 char const (&name)[S]) noexcept
       : filter_debug_header(
             length, structure, valtype, name,
-            make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
+            make_index_sequence<cmath::min(
+                sizeof(filter_debug_header::name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
   constexpr filter_debug_header(uint16_t length_,
-- 
2.43.0


From 01828e6f94f79190315fac1622cf1da39ce61718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 09/27] fix: make second order sections printable

The output operator used a member that no longer exists and, being declared
in the detail namespace, wasn't found by argument dependent lookup.
---
 include/embedded/ostream_ops.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index da61cfa..dfd8538 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -51,14 +51,14 @@ std::ostream& operator<<(std::ostream& os, zpk_value<Zn, Pn, F> const& zpk) {
   return os;
 }
 
+} // namespace detail
+
 template <typename T>
-std::ostream&
-operator<<(std::ostream& os, embedded::signal::sos_section<T> const& s) {
-  os << "{gain=" << s.gain_ << ", b=" << s.b() << ", a=" << s.a() << "}";
+std::ostream& operator<<(std::ostream& os, sos_section<T> const& s) {
+  os << "{b=" << s.b() << ", a=" << s.a() << "}";
   return os;
 }
 
-} // namespace detail
 } // namespace signal
 
 namespace cmath {
-- 
2.43.0


From ed5298c490df025f2b4812ae8ef107ae709a1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 10/27] fix: print complex numbers with negative zero imaginary
 part correctly

These were printed with two signs, e.g. as 1+-0j.
---
 include/embedded/ostream_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index dfd8538..14cf71a 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -66,7 +66,7 @@ namespace cmath {
 template <typename T>
 std::ostream& operator<<(std::ostream& os, complex<T> const& z) {
   os << z.real();
-  if (z.imag() >= 0) {
+  if (!cmath::signbit(z.imag())) {
     os << "+";
   }
   os << z.imag() << "j";
-- 
2.43.0


From d5419cffb17ac295eb959bb95a4f08c0c08e9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 11/27] fix: self move assignment of function used its
 destroyed target

---
 include/embedded/function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index bc0d7ee..406e129 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -239,6 +239,9 @@ class function final
   }
 
   function& operator=(function&& other) noexcept {
+    if (this == std::addressof(other)) {
+      return *this;
+    }
     this->~function();
     ::new (this) function(std::move(other));
     return *this;
-- 
2.43.0


From cd6ab412a8a37cae03cd018c9d423cfb439f88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 12/27] fix: only accept member pointers that can be called in
 function's constructor

---
 include/embedded/function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 406e129..c4266e5 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -253,7 +253,8 @@ class function final
   }
 
   template <typename M, typename C,
-            typename = decltype(std::mem_fn(static_cast<M C::*>(nullptr)))>
+            typename = decltype(function(
+                std::mem_fn(static_cast<M C::*>(nullptr))))>
   function(M C::*pm) noexcept
       : function() {
     if (pm) {
-- 
2.43.0


From 3470de9bce0a1893d5d555302f6302d6eaf31e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 13/27] fix: move_wrapper wrapped a value in its own
 initializer list constructor

---
 include/embedded/move_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index b6796f1..222a721 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -32,14 +32,14 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
-- 
2.43.0


From e5280370fe0eecb03d97e4ae15639cc89801bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 14/27] fix: function stored a target wrapped in its own
 initializer list constructor

---
 include/embedded/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index c4266e5..3662b9c 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -95,7 +95,7 @@ class vtbl<Return(Args...)> {
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) T(std::move(*static_cast<T*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<T*>(src)->~T();
@@ -228,7 +228,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
-- 
2.43.0


From 5e01a6353a563083931062a77a101c5f185d446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 15/27] fix: is_invocable_r back-port must accept volatile void
 results

---
 include/embedded/type_traits/is_invocable.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/embedded/type_traits/is_invocable.h b/include/embedded/type_traits/is_invocable.h
index a980500..3585391 100644
--- a/include/embedded/type_traits/is_invocable.h
+++ b/include/embedded/type_traits/is_invocable.h
@@ -52,6 +52,16 @@ struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
                                     void()),
                            const void, Fn, Args...> : std::true_type {};
 
+template <class Fn, class... Args>
+struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
+                                    void()),
+                           volatile void, Fn, Args...> : std::true_type {};
+
+template <class Fn, class... Args>
+struct is_invocable_helper<decltype(std::declval<Fn>()(std::declval<Args>()...),
+                                    void()),
+                           const volatile void, Fn, Args...> : std::true_type {};
+
 template <class R, class Fn, class... Args>
 struct is_invocable_helper<decltype(accept<R>(
                                std::declval<Fn>()(std::declval<Args>()...))),
-- 
2.43.0


From b9f2adc87f0d5a2230b5df7937b1b9d7ac679b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 16/27] fix: vector.h uses exp but did not include functions.h

---
 include/embedded/constexpr_math/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 2e254bb..de33d95 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -27,6 +27,7 @@
 
 #include "../type_traits/conjunction.h"
 #include "../utility/integer_sequence.h"
+#include "functions.h"
 
 // clang-format off
 #ifdef __IAR_SYSTEMS_ICC__
-- 
2.43.0


From a745ec6f46f7aeb07e44554f8ec68718164a1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 17/27] fix: vector's count must count elements, not add up
 predicate results

---
 include/embedded/constexpr_math/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index de33d95..cc83ece 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -160,7 +160,7 @@ template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
 struct count {
   constexpr std::size_t
   operator()(T const& a, Pred const& pred) const noexcept {
-    return pred(a[I]) + count<T, Size, Pred, I + 1>()(a, pred);
+    return (pred(a[I]) ? 1 : 0) + count<T, Size, Pred, I + 1>()(a, pred);
   }
 };
 
-- 
2.43.0


From f91fba6103063fad791a6db96502546c808037fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 18/27] fix: functions.h looked for libstdc++ before including
 any of its headers

---
 include/embedded/constexpr_math/functions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 0164d46..57fd780 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -22,6 +22,9 @@
 
 #pragma once
 
+// defines _GLIBCXX_CONSTEXPR when using libstdc++
+#include <cstddef>
+
 // TODO: this is probably a poor check
 #if !defined(LIBEMB_DISABLE_GLIBCXX_CONSTEXPR) &&                              \
     !defined(__INTEL_COMPILER) && !defined(__clang__) && defined(__GNUG__) &&  \
-- 
2.43.0


From fa4d1364e9ef63851ce943800e29544bf1c0f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 19/27] fix: Chebyshev prototypes used the double constant 0.1
 for long double parameters

---
 include/embedded/signal/chebyshev.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/chebyshev.h b/include/embedded/signal/chebyshev.h
index 4353b51..1554bca 100644
--- a/include/embedded/signal/chebyshev.h
+++ b/include/embedded/signal/chebyshev.h
@@ -51,7 +51,7 @@ class chebyshev1 {
     using value_type = F;
 
     constexpr specification(PF ripple) noexcept
-        : rf_{cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1})} {}
+        : rf_{cmath::sqrt(cmath::pow(PF{10}, PF{0.1L} * ripple) - PF{1})} {}
 
     template <std::size_t N>
     using carray = cmath::vector<cmath::complex<value_type>, N>;
@@ -131,7 +131,7 @@ class chebyshev2 {
 
     constexpr specification(PF ripple) noexcept
         : rf_{PF{1} /
-              cmath::sqrt(cmath::pow(PF{10}, PF{0.1} * ripple) - PF{1})} {}
+              cmath::sqrt(cmath::pow(PF{10}, PF{0.1L} * ripple) - PF{1})} {}
 
     template <std::size_t N>
     using carray = cmath::vector<cmath::complex<value_type>, N>;
-- 
2.43.0


From 01839df0fe0e72e5153fc94de603061783ae532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 20/27] fix: debug records of equally named designs in two
 translation units clashed

The records had external linkage, so two translation units with a record for
a design of the same name (and the same counter value) did not link.
---
 include/embedded/signal/debug_filter_coefs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/debug_filter_coefs.h b/include/embedded/signal/debug_filter_coefs.h
index 078520b..868442e 100644
--- a/include/embedded/signal/debug_filter_coefs.h
+++ b/include/embedded/signal/debug_filter_coefs.h
@@ -29,9 +29,9 @@
 #endif
 
 #define LIBEMB_DEBUG_FILTER_COEFS_NAME(design, name)                           \
-  extern "C" ::embedded::signal::detail::filter_design_debug<                  \
+  static ::embedded::signal::detail::filter_design_debug<                      \
       std::decay<decltype(design)>::type> const                                \
-      __attribute__((section(LIBEMB_DEBUG_FILTER_COEFS_SECTION)))              \
+      __attribute__((used, section(LIBEMB_DEBUG_FILTER_COEFS_SECTION)))        \
       LIBEMB_UNIQUE_NAME(design) {                                             \
     design, name                                                               \
   }
-- 
2.43.0


From 144d13b8dcafead4e1230cd0f9d4212ad7094d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 21/27] fix: debug records could clash with designs whose names
 end in digits

The record of a design lp was called lp0, lp1, ... by the counter, which may be
the name of another design, or of the record of another design.
---
 include/embedded/signal/debug_filter_coefs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/signal/debug_filter_coefs.h b/include/embedded/signal/debug_filter_coefs.h
index 868442e..b9f460e 100644
--- a/include/embedded/signal/debug_filter_coefs.h
+++ b/include/embedded/signal/debug_filter_coefs.h
@@ -32,7 +32,7 @@
   static ::embedded::signal::detail::filter_design_debug<                      \
       std::decay<decltype(design)>::type> const                                \
       __attribute__((used, section(LIBEMB_DEBUG_FILTER_COEFS_SECTION)))        \
-      LIBEMB_UNIQUE_NAME(design) {                                             \
+      LIBEMB_UNIQUE_NAME(libemb_filter_coefs_) {                               \
     design, name                                                               \
   }
 
-- 
2.43.0


From 1aa7fe8169d6e33bc745ec904f53b64da58c1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 22/27] fix: complex numbers were printed with two signs on
 streams with showpos

---
 include/embedded/ostream_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/ostream_ops.h b/include/embedded/ostream_ops.h
index 14cf71a..d60cfa2 100644
--- a/include/embedded/ostream_ops.h
+++ b/include/embedded/ostream_ops.h
@@ -66,7 +66,7 @@ namespace cmath {
 template <typename T>
 std::ostream& operator<<(std::ostream& os, complex<T> const& z) {
   os << z.real();
-  if (!cmath::signbit(z.imag())) {
+  if (!cmath::signbit(z.imag()) && !(os.flags() & std::ios_base::showpos)) {
     os << "+";
   }
   os << z.imag() << "j";
-- 
2.43.0


From 2d2972acb2fa5e09fcaac05aea747a848975e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 23/27] fix: bessel designs at run time failed to link before
 C++17

---
 include/embedded/signal/bessel.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/bessel.h b/include/embedded/signal/bessel.h
index d3558a7..3e2dcfa 100644
--- a/include/embedded/signal/bessel.h
+++ b/include/embedded/signal/bessel.h
@@ -36,6 +36,22 @@
 namespace embedded {
 namespace signal {
 
+namespace detail {
+
+// Gives the static tables a definition, which they need before C++17 when
+// the poles are used at run time.
+template <typename F, std::size_t Order>
+struct bessel_pole_table {
+  static constexpr cmath::vector<cmath::complex<F>, Order> value =
+      bessel_poles<F, Order>::value;
+};
+
+template <typename F, std::size_t Order>
+constexpr cmath::vector<cmath::complex<F>, Order>
+    bessel_pole_table<F, Order>::value;
+
+} // namespace detail
+
 template <std::size_t Order>
 class bessel {
  public:
@@ -56,7 +72,7 @@ class bessel {
     constexpr auto zeros() const noexcept -> carray<0> { return carray<0>{}; }
 
     constexpr auto poles() const noexcept -> carray<Order> {
-      return detail::bessel_poles<value_type, Order>::value;
+      return detail::bessel_pole_table<value_type, Order>::value;
     }
 
     constexpr auto gain() const noexcept -> value_type { return value_type{1}; }
-- 
2.43.0


From f0b7827c9b97a91b7b9b5bd906dd1086cfa75854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 24/27] fix: convolution spread infinite coefficients into sums
 they do not belong to

---
 include/embedded/constexpr_math/convolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/constexpr_math/convolve.h b/include/embedded/constexpr_math/convolve.h
index c9327b8..3c277f3 100644
--- a/include/embedded/constexpr_math/convolve.h
+++ b/include/embedded/constexpr_math/convolve.h
@@ -41,8 +41,8 @@ namespace detail {
 template <typename T, std::size_t S1, std::size_t S2, typename I>
 constexpr auto convolve_single(vector<T, S1> const& a, vector<T, S2> const& b,
                                I n, I m = 0) noexcept -> T {
-  return (m < I(a.size()) ? a[m] : T{}) *
-             (n >= m && n < I(b.size()) + m ? b[n - m] : T{}) +
+  return (m < I(a.size()) && n >= m && n < I(b.size()) + m ? a[m] * b[n - m]
+                                                           : T{}) +
          (m < n ? convolve_single(a, b, n, m + 1) : T{});
 }
 
-- 
2.43.0


From d86bcc920e4face083df0880d36a1efcc2c4b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 25/27] fix: element types without allocation functions of
 their own could not be stored in the circular buffer

---
 include/embedded/circular_buffer_adapter.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bd4f0fc..b160740 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -158,14 +158,14 @@ class circular_buffer_adapter {
 
   void push_front(const value_type& value) {
     assert(!full());
-    new (prev(first_)) value_type(value);
+    ::new (static_cast<void*>(prev(first_))) value_type(value);
     dec(first_);
     ++size_;
   }
 
   void push_front(value_type&& value) {
     assert(!full());
-    new (prev(first_)) value_type(std::move(value));
+    ::new (static_cast<void*>(prev(first_))) value_type(std::move(value));
     dec(first_);
     ++size_;
   }
@@ -173,7 +173,8 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_front(Args&&... args) {
     assert(!full());
-    auto p = new (prev(first_)) value_type(std::forward<Args>(args)...);
+    auto p = ::new (static_cast<void*>(prev(first_)))
+        value_type(std::forward<Args>(args)...);
     dec(first_);
     ++size_;
     return *p;
@@ -195,14 +196,14 @@ class circular_buffer_adapter {
 
   void push_back(const value_type& value) {
     assert(!full());
-    new (last_) value_type(value);
+    ::new (static_cast<void*>(last_)) value_type(value);
     inc(last_);
     ++size_;
   }
 
   void push_back(value_type&& value) {
     assert(!full());
-    new (last_) value_type(std::move(value));
+    ::new (static_cast<void*>(last_)) value_type(std::move(value));
     inc(last_);
     ++size_;
   }
@@ -210,7 +211,8 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_back(Args&&... args) {
     assert(!full());
-    auto p = new (last_) value_type(std::forward<Args>(args)...);
+    auto p = ::new (static_cast<void*>(last_))
+        value_type(std::forward<Args>(args)...);
     inc(last_);
     ++size_;
     return *p;
-- 
2.43.0


From 4cd5a969e8a3c2b0fbccbbf4274a869651bec861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 26/27] fix: move_wrapper's arrow used an overloaded operator&
 of the value

---
 include/embedded/move_wrapper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index 222a721..924cc47 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -44,8 +45,8 @@ class move_wrapper {
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
 
-  T const* operator->() const { return &val_; }
-  T* operator->() { return &val_; }
+  T const* operator->() const { return std::addressof(val_); }
+  T* operator->() { return std::addressof(val_); }
 
  private:
   T val_;
-- 
2.43.0


From 92eaaf735a0870041e0ceec18e6d4b933497ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 27/27] fix: the C++11 min returned the second of two
 equivalent operands

---
 include/embedded/constexpr_math/functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/functions.h b/include/embedded/constexpr_math/functions.h
index 57fd780..91b06bc 100644
--- a/include/embedded/constexpr_math/functions.h
+++ b/include/embedded/constexpr_math/functions.h
@@ -65,7 +65,7 @@ using ::std::min;
 #else
 template <class T>
 static constexpr const T& min(const T& a, const T& b) {
-  return a < b ? a : b;
+  return b < a ? b : a;
 }
 
 template <class T>
-- 
2.43.0

