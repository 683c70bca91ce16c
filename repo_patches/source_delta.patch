From da58316039f50cec3a7cea9f2cdd2846a76381b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:12 +0000
Subject: [PATCH 001/146] fix: segment tree max_right/min_left use the identity
 element e() instead of the function pointer e

---
 library/datastructure/segment_tree/segment_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..2898f7a 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -50,10 +50,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +74,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From 95f62a678888ff357b168b867b7f2781c77cf091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:30 +0000
Subject: [PATCH 002/146] fix: FenwickTreePrefix built from a vector propagates
 nodes in increasing order

---
 library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
index 934baf4..04ff3dc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
@@ -9,7 +9,7 @@ namespace suisen {
         FenwickTreePrefix() : FenwickTreePrefix(0) {}
         explicit FenwickTreePrefix(int n) : _n(n), _dat(_n + 1, e()) {}
         FenwickTreePrefix(const std::vector<T> &dat) : _n(dat.size()), _dat(_n + 1, e()) {
-            for (int i = _n; i > 0; --i) {
+            for (int i = 1; i <= _n; ++i) {
                 _dat[i] = op(_dat[i], dat[i - 1]);
                 if (int p = i + (-i & i); p <= _n) _dat[p] = op(_dat[p], _dat[i]);
             }
-- 
2.43.0


From d10d4d9fc7c7b07c6bf1cf4360e731e61d2fe9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:58 +0000
Subject: [PATCH 003/146] fix: LazySegmentTree::suffix_prod queries up to n
 instead of the padded size

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..90af0f9 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -44,7 +44,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
-- 
2.43.0


From 25b33753db3c9ef115a16b3185da18242dff1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:58 +0000
Subject: [PATCH 004/146] fix: LazySegmentTree::min_left pushes along the path
 of r - 1, no access past the last node for r == n == m

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 90af0f9..611fef0 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -86,7 +86,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From 33fdd337a5cb534909c50b3d5781c8b629793a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:58 +0000
Subject: [PATCH 005/146] fix: SparseTable over an empty sequence

---
 library/datastructure/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/sparse_table.hpp b/library/datastructure/sparse_table.hpp
index a60c735..4869af7 100644
--- a/library/datastructure/sparse_table.hpp
+++ b/library/datastructure/sparse_table.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             std::fill(flog.begin() + (1 << log), flog.end(), log);
         }
         static int floor_log2(int i) {
-            return 31 - __builtin_clz(i);
+            return i > 0 ? 31 - __builtin_clz(i) : 0;
         }
     };
 } // namespace suisen
-- 
2.43.0


From 7e42eb4b9e2057486375522860ae2e00df95b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:08 +0000
Subject: [PATCH 006/146] fix: Montgomery::reduce for moduli above R/2 (T + m*N
 overflowed, quotient truncated); is_prime for n >= 2^63

---
 library/number/montogomery.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 7aa7923..62c341c 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -48,7 +48,9 @@ namespace suisen {
                 //  => (T + m * N) / R is an integer.
                 //  => t * R = T + m * N = T (mod N)
                 //  => t = T R^(-1) (mod N)
-                DInt t = divR(T + m * N);
+                // T + m * N may exceed the range of DInt, so the quotients are added instead:
+                // the lower halves of T and m * N are both zero, or sum up to R.
+                DInt t = static_cast<DInt>(divR(T)) + divR(m * N) + (modR(T) != 0);
 
                 // Note:
                 //  1. 0 <= T < RN
-- 
2.43.0


From d9b2964ed64f2993fac5e7df37df4d8bff016bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:08 +0000
Subject: [PATCH 007/146] fix: Montgomery::sub never added N back, add
 overflowed for large moduli

---
 library/number/montogomery.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 62c341c..1f4b44c 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -61,10 +61,10 @@ namespace suisen {
             }
 
             constexpr Int add(Int A, Int B) const {
-                return (A += B) >= N ? A - N : A;
+                return A >= N - B ? A - (N - B) : A + B;
             }
             constexpr Int sub(Int A, Int B) const {
-                return (A -= B) < 0 ? A + N : A;
+                return A < B ? A + (N - B) : A - B;
             }
             constexpr Int mul(Int A, Int B) const {
                 return reduce(static_cast<DInt>(A) * B);
-- 
2.43.0


From c2acba43ea387495eaede600fca4f6ac0dee255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:08 +0000
Subject: [PATCH 008/146] fix: barrett::quorem for moduli of 2^31 and above

---
 library/number/barrett_reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/barrett_reduction.hpp b/library/number/barrett_reduction.hpp
index be8326d..d8f7de0 100644
--- a/library/number/barrett_reduction.hpp
+++ b/library/number/barrett_reduction.hpp
@@ -20,7 +20,7 @@ namespace suisen {
         template <bool care_M1 = true> constexpr std::pair<uint64_t, uint32_t> quorem(uint64_t x) const {
             if constexpr (care_M1) if (M == 1) return { x, 0 };
             uint64_t q = (__uint128_t(x) * L) >> 64;
-            int32_t r = x - q * M;
+            int64_t r = x - q * M;
             if (r < 0) --q, r += M;
             return { q, uint32_t(r) };
         }
-- 
2.43.0


From 6012e85f8ddc9a343697b6bb9e2373e2a3e16fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:46 +0000
Subject: [PATCH 009/146] fix: default-constructed CumulativeSum left its
 length uninitialised

---
 library/util/cumulative_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/cumulative_sum.hpp b/library/util/cumulative_sum.hpp
index db9cff4..6f48c0d 100644
--- a/library/util/cumulative_sum.hpp
+++ b/library/util/cumulative_sum.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum {
-        CumulativeSum() = default;
+        CumulativeSum() : n(0), s(1, zero()) {}
         CumulativeSum(const std::vector<T> &a) : n(a.size()), s(n + 1, zero()) {
             for (size_t i = 0; i < n; ++i) s[i + 1] = add(a[i], s[i]);
         }
-- 
2.43.0


From d2891eddc5c7ff62b650d103873374f8444cad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:46 +0000
Subject: [PATCH 010/146] fix: default-constructed CumulativeSum2D left its
 sizes uninitialised

---
 library/util/cumulative_sum_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/cumulative_sum_2d.hpp b/library/util/cumulative_sum_2d.hpp
index c58c8ed..3263765 100644
--- a/library/util/cumulative_sum_2d.hpp
+++ b/library/util/cumulative_sum_2d.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum2D {
-        CumulativeSum2D() = default;
+        CumulativeSum2D() : CumulativeSum2D(std::vector<std::vector<T>>{}) {}
         CumulativeSum2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), s(n + 1, std::vector<T>(m + 1, zero())) {
             for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                 s[i + 1][j + 1] = sub(add(add(a[i][j], s[i + 1][j]), s[i][j + 1]), s[i][j]);
-- 
2.43.0


From 480043a75bca69828f4117606f20f9cf49a945cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:46 +0000
Subject: [PATCH 011/146] fix: StepSum::sum read out of range when the residue
 is not below the length

---
 library/util/step_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/step_sum.hpp b/library/util/step_sum.hpp
index f9a82aa..a6aef8a 100644
--- a/library/util/step_sum.hpp
+++ b/library/util/step_sum.hpp
@@ -19,7 +19,7 @@ namespace suisen {
         }
         // sum A_i for i = k (mod step) and i in [l, r)
         value_type sum(int k, int l, int r) const {
-            if (r <= k or r <= l or l >= _n) return 0;
+            if (r <= k or r <= l or l >= _n or k >= _n) return 0;
             const int t = _br.quo(std::min(_n, r) - 1 - k);
             T ans = _sum[t * _step + k];
             if (l > k) {
-- 
2.43.0


From eaca08a3b3538a671b97ef3e6bfcea3afb40959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:50 +0000
Subject: [PATCH 012/146] fix: BezoutEquation::solve divided by zero when b ==
 0

---
 library/number/bezout_equation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 7e57bf2..d8ff47c 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -237,7 +237,7 @@ namespace suisen {
                     const long long cx = b / g, cy = -a / g;
                     z /= g;
                     __int128_t x0 = __int128_t(x) * z, y0 = __int128_t(y) * z;
-                    __int128_t k0 = -x0 / cx;
+                    __int128_t k0 = cx == 0 ? 0 : -x0 / cx;
                     return BezoutEquationSolution::make_linear(x0 + k0 * cx, cx, y0 + k0 * cy, cy);
                 }
             }
-- 
2.43.0


From 7ed73c60b4ceaff7e8a7db135ecc73493ca1e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:50 +0000
Subject: [PATCH 013/146] fix: BezoutEquationSolution::count overflowed for
 unbounded arbitrary solutions

---
 library/number/bezout_equation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index d8ff47c..8b1addc 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -78,6 +78,7 @@ namespace suisen {
             if (t == SolutionType::None) {
                 return 0;
             } else if (t == SolutionType::Arbitrary) {
+                if (kxmin == neginf or kxmax == posinf or kymin == neginf or kymax == posinf) return std::nullopt;
                 return T(kxmax - kxmin + 1) * T(kymax - kymin + 1);
             } else {
                 auto k_range = get_k_range();
-- 
2.43.0


From 784be653dfe41d1ea36a7d406e7186d71df92b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:23 +0000
Subject: [PATCH 014/146] fix: QueueAggregation iterators did not compile when
 the sum type differs from the value type

---
 library/datastructure/queue_aggregation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..14c9bfe 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -24,8 +24,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
-- 
2.43.0


From 42d56818cee738d782153d18782985f6324a9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 015/146] fix: Rational::compare did not reverse the order at
 odd continued-fraction steps

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 8bedaea..6d68a08 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -41,14 +41,14 @@ struct Rational {
         if ((sgn_l ^ sgn_r) < 0) return sgn_l;
         T nl = std::abs(l.num), dl = l.den, nr = std::abs(r.num), dr = r.den;
         bool rev = sgn_l < 0;
-        for (; dl and dr; rev = -rev) {
+        for (; dl and dr; rev = not rev) {
             T ql = nl / dl, qr = nr / dr;
             if (ql != qr) return pow_m1((ql < qr) xor rev);
             T rl = nl % dl, rr = nr % dr;
             nl = dl, dl = rl;
             nr = dr, dr = rr;
         }
-        return dl or dr ? pow_m1((dr > 0) xor rev) : 0;
+        return dl or dr ? pow_m1((dl > 0) xor rev) : 0;
     }
     
     friend bool operator<(const Rational &l, const Rational &r) {
-- 
2.43.0


From 671b9a2bdaa532a740a1266b614dafcd06d9363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 016/146] fix: Rational::floor and Rational::ceil truncated
 towards zero

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6d68a08..443c218 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -129,10 +129,10 @@ struct Rational {
     }
 
     T floor() const {
-        return num >= 0 ? num / den : -(-num / den);
+        return num >= 0 ? num / den : num / den - (num % den != 0);
     }
     T ceil() const {
-        return num >= 0 ? -(-num / den) : num / den;
+        return num > 0 ? num / den + (num % den != 0) : num / den;
     }
 
     static std::pair<Rational, Rational> approximate(long double target, T max_numerator, T max_denominator) {
-- 
2.43.0


From 926e2b77a4ef33ccce512059c17af77cfb2d7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:47 +0000
Subject: [PATCH 017/146] fix: rational.hpp used assert without including
 <cassert>

---
 library/number/rational.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 443c218..434deb2 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL
 #define SUISEN_RATIONAL
 
+#include <cassert>
 #include <cmath>
 #include <ostream>
 #include <numeric>
-- 
2.43.0


From 2e78e0bd77f5526b11d256eca934a3a71bea2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:07 +0000
Subject: [PATCH 018/146] fix: sbt_node::move_down_left/right called a
 non-existent function

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From f6bd64ae6af28e1dd8978ff37838878d0c552e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:57 +0000
Subject: [PATCH 019/146] fix: BinaryHeap::pop accessed the empty vector when
 removing the last element

---
 library/datastructure/heap/binary_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/heap/binary_heap.hpp b/library/datastructure/heap/binary_heap.hpp
index 26d84b3..af561be 100644
--- a/library/datastructure/heap/binary_heap.hpp
+++ b/library/datastructure/heap/binary_heap.hpp
@@ -66,7 +66,7 @@ namespace suisen {
                 std::swap(_dat.front(), _dat.back());
                 value_type res = std::move(_dat.back());
                 _dat.pop_back();
-                heapify_down(0);
+                if (_dat.size()) heapify_down(0);
                 return res;
             }
 
-- 
2.43.0


From 2dfd6ad8e8aa351a1b1b8dfa0b18c3c21b722190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:57 +0000
Subject: [PATCH 020/146] fix: priority_queue.hpp referred to a non-existent
 template and did not compile

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..47fed48 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = suisen::MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = suisen::MinBinaryHeap<T, std::greater<T>>;
 } // namespace suisen
 
 
-- 
2.43.0


From a0023f39995cd825892678cc01a8ac3c600bfdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:11 +0000
Subject: [PATCH 021/146] fix: a copied DoubleEndedPriorityQueue compared
 through a pointer into the original

---
 .../datastructure/double_ended_priority_queue.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 797e321..1e1d2b3 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -39,7 +39,7 @@ namespace suisen {
                 std::push_heap(_max_heap.begin(), _max_heap.end(), _comp);
             } else {
                 _min_heap.push_back(v);
-                std::push_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::push_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         template <typename ...Args>
@@ -64,7 +64,7 @@ namespace suisen {
         }
         value_type pop_min() {
             ensure_min_heap_nonempty();
-            std::pop_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+            std::pop_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             value_type res = std::move(_min_heap.back());
             _min_heap.pop_back();
             return res;
@@ -82,10 +82,9 @@ namespace suisen {
 
     private:
         compare_type _comp;
-        struct {
-            compare_type* comp;
-            bool operator()(const value_type& x, const value_type& y) { return (*comp)(y, x); }
-        } _rev_comp{ &_comp };
+        auto rev_comp() {
+            return [this](const value_type& x, const value_type& y) { return _comp(y, x); };
+        }
 
         std::vector<value_type> _max_heap, _min_heap;
         value_type pivot;
@@ -105,7 +104,7 @@ namespace suisen {
                 std::move(_max_heap.begin(), _max_heap.begin() + mid, std::back_inserter(_min_heap));
                 _max_heap.erase(_max_heap.begin(), _max_heap.begin() + mid);
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         void ensure_max_heap_nonempty() {
@@ -122,7 +121,7 @@ namespace suisen {
                 std::move(_min_heap.begin() + mid, _min_heap.end(), std::back_inserter(_max_heap));
                 _min_heap.erase(_min_heap.begin() + mid, _min_heap.end());
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
     };
-- 
2.43.0


From 55e06d47ad3e26f3216b617a98e59451d735c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:15 +0000
Subject: [PATCH 022/146] fix: PrioritySum::erase of an element below the top
 of the selected k updates the sum

---
 library/datastructure/util/priority_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/priority_sum.hpp b/library/datastructure/util/priority_sum.hpp
index e21d5be..465dfb4 100644
--- a/library/datastructure/util/priority_sum.hpp
+++ b/library/datastructure/util/priority_sum.hpp
@@ -29,7 +29,7 @@ namespace suisen {
                 if (_head_k.size() and v == _head_k.top()) {
                     _sum -= v;
                     _head_k.pop();
-                } else if (_head_k.size() and _rev_cmp(v, _head_k.top())) {
+                } else if (_head_k.size() and _cmp(v, _head_k.top())) {
                     _sum -= v;
                     _del_head_k.push(v);
                 } else {
-- 
2.43.0


From 35272723de9e71919f16a1957c64837d73c1a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:47 +0000
Subject: [PATCH 023/146] fix: DualSegmentTree was rejected by clang (deduction
 guides with parameters that cannot be deduced)

---
 library/datastructure/segment_tree/dual_segment_tree.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/library/datastructure/segment_tree/dual_segment_tree.hpp b/library/datastructure/segment_tree/dual_segment_tree.hpp
index 7062ff3..046807f 100644
--- a/library/datastructure/segment_tree/dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/dual_segment_tree.hpp
@@ -28,12 +28,6 @@ namespace suisen {
             }
         }
     };
-
-    template <typename T, typename F, T(*mapping)(F, T), F(*composition)(F, F), F(*id)()>
-    DualSegmentTree(int, T)->DualSegmentTree<T, F, mapping, composition, id>;
-
-    template <typename T, typename F, T(*mapping)(F, T), F(*composition)(F, F), F(*id)()>
-    DualSegmentTree(std::vector<T>)->DualSegmentTree<T, F, mapping, composition, id>;
 } // namespace suisen
 
 
-- 
2.43.0


From 130b63cb0960298f18589013d4541ae1f7ae0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:21 +0000
Subject: [PATCH 024/146] fix: factorize overflowed for n near the maximum of T
 and truncated candidates to int

---
 library/number/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index a51258d..f79c2d8 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -51,14 +51,14 @@ namespace suisen {
 
         assert(n > 0);
         std::vector<std::pair<T, int>> res;
-        auto f = [&res, &n](int p) {
+        auto f = [&res, &n](T p) {
             if (n % p) return;
             int cnt = 0;
             do n /= p, ++cnt; while (n % p == 0);
             res.emplace_back(p, cnt);
             };
         for (int p : primes) f(p);
-        for (T b = next_prime; b * b <= n; b += period) {
+        for (T b = next_prime; b <= n / b; b += period) {
             for (int offset : s) f(b + offset);
         }
         if (n != 1) res.emplace_back(n, 1);
-- 
2.43.0


From 399afae45b701ec0ba1b883ef36d8e2c3dd0faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:21 +0000
Subject: [PATCH 025/146] fix: powi overflowed in a final squaring whose result
 is not used

---
 library/number/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index f79c2d8..8ec5f28 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         T res = 1, pow_a = a;
         for (; b; b >>= 1) {
             if (b & 1) res *= pow_a;
-            pow_a *= pow_a;
+            if (b > 1) pow_a *= pow_a;
         }
         return res;
     }
-- 
2.43.0


From 417aa9a10334d3f50c82dad5214186ef0110f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:21 +0000
Subject: [PATCH 026/146] fix: divisors_table and totient_table were defined in
 a header without inline

---
 library/number/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index 8ec5f28..043f035 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -97,7 +97,7 @@ namespace suisen {
      * @param n upper bound (closed)
      * @return 2-dim vector a of length n+1, where a[i] is the vector of divisors of i.
      */
-    std::vector<std::vector<int>> divisors_table(int n) {
+    inline std::vector<std::vector<int>> divisors_table(int n) {
         std::vector<std::vector<int>> divs(n + 1);
         for (int i = 1; i <= n; ++i) {
             for (int j = i; j <= n; j += i) divs[j].push_back(i);
@@ -132,7 +132,7 @@ namespace suisen {
      * @param n upper bound (closed)
      * @return vector a of length n+1, where a[i]=φ(i) for i=1,...,n
      */
-    std::vector<int> totient_table(int n) {
+    inline std::vector<int> totient_table(int n) {
         std::vector<int> res(n + 1);
         for (int i = 0; i <= n; ++i) res[i] = (i & 1) == 0 ? i >> 1 : i;
         for (int p = 3; p <= n; p += 2) {
-- 
2.43.0


From 368fe4e2b3cd11898cc72df8a00b02052f8a424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:53 +0000
Subject: [PATCH 027/146] fix: MatcherMP named vector without its namespace and
 did not compile

---
 library/string/morris_pratt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..ced8f73 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -48,7 +48,7 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
@@ -57,7 +57,7 @@ namespace suisen {
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 6d39b0c948e1df7440c6aba69e12a8ab4de5388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:53 +0000
Subject: [PATCH 028/146] fix: MatcherMP read past the end of the pattern after
 a match

---
 library/string/morris_pratt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index ced8f73..e23c7b5 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -53,7 +53,7 @@ namespace suisen {
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) res.push_back(i - n + 1), j = mp[j];
                 }
                 return res;
             }
-- 
2.43.0


From c4285bca7b087e1f9bf76aab6ce8f9453458109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:53 +0000
Subject: [PATCH 029/146] fix: dereferencing a SubstringSet iterator named a
 function that does not exist

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..dccb9b8 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -119,7 +119,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From 5b197498ebb935242d7f6995240d074ba54784e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 030/146] fix: set of the red-black trees passed a function of
 no argument to update_value and did not compile

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..7178e2b 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -119,7 +119,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
-- 
2.43.0


From e6657b617dac79490c571b3a56de884b66dbdf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 031/146] fix: DynamicRollingHash::set passed a value where
 update_value expects a function

---
 library/string/dynamic_rolling_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index 3fed14b..b98c6ef 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -126,7 +126,7 @@ namespace suisen {
 
         template <typename T>
         void set(size_t k, const T& val) {
-            _seq = node::update_value(_seq, k, val);
+            _seq = node::set(_seq, k, val);
         }
         template <typename T>
         void insert(size_t k, const T& val) {
-- 
2.43.0


From 6be7fc765c917f0e15376462cb786611acd5eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:46 +0000
Subject: [PATCH 032/146] fix: AhoCorasick counted earlier patterns again when
 rebuilt after adding patterns

---
 library/string/aho_corasick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index bdf23cf..b5c251e 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -28,8 +28,8 @@ namespace suisen {
         void build() {
             _built = true;
             const int n = _next.size();
-            _failure.resize(n, 0);
-            _count.resize(n, 0);
+            _failure.assign(n, 0);
+            _count.assign(n, 0);
             for (int mark : _marks) ++_count[mark];
             std::deque<int> dq{ 0 };
             while (dq.size()) {
-- 
2.43.0


From 7abeee5e216a79e61f606d71b3109bc56fd9b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:07 +0000
Subject: [PATCH 033/146] fix: RollingHashField::set_bases kept the powers of
 the previous bases

---
 library/string/rolling_hash_field.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index ffa6b04..07b2698 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -50,6 +50,7 @@ namespace suisen {
 
         static void set_bases(const std::array<T, base_num>& new_bases) {
             bases = new_bases;
+            for (auto& p : pows) p.clear();
             already_set_bases = true;
         }
 
-- 
2.43.0


From 25bd1c504f76c0c2ea8fc2605f573c20698d94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:34 +0000
Subject: [PATCH 034/146] fix: palindromic trees over a narrow value type
 stored node indices in that type

---
 library/string/palindromic_tree.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index ff459b1..801f48d 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -181,8 +181,8 @@ namespace suisen {
 
         private:
             static constexpr bool is_map = std::is_same_v<std::map<value_type, int>, children_container_type>;
-            static constexpr bool is_vector = std::is_same_v<std::vector<value_type>, children_container_type>;
-            static constexpr bool is_array = std::is_same_v<std::array<value_type, std::tuple_size_v<children_container_type>>, children_container_type>;
+            static constexpr bool is_vector = std::is_same_v<std::vector<int>, children_container_type>;
+            static constexpr bool is_array = std::is_same_v<std::array<int, std::tuple_size_v<children_container_type>>, children_container_type>;
 
             int _active_index;
             container_type _seq;
@@ -217,14 +217,14 @@ namespace suisen {
     };
 
     template <typename T, typename Sequence = std::vector<T>>
-    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>>;
+    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>>;
         using base_type::base_type;
     };
 
     template <typename T, std::size_t N, typename Sequence = std::vector<T>>
-    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>>;
+    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>>;
         using base_type::base_type;
     };
 } // namespace suisen
-- 
2.43.0


From 45c3fa3db259a45a980eefe23d1588b9edf3e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:46 +0000
Subject: [PATCH 035/146] fix: PalindromicTree::clear kept the edges from the
 roots to the erased nodes

---
 library/string/palindromic_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index 801f48d..6add3b8 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -171,6 +171,10 @@ namespace suisen {
                     _nodes.clear();
                 } else {
                     _nodes.erase(_nodes.begin() + 2, _nodes.end());
+                    for (node_type& root : _nodes) {
+                        if constexpr (is_map or is_vector) root._children.clear();
+                        else std::fill(root._children.begin(), root._children.end(), NODE_NULL);
+                    }
                 }
             }
 
-- 
2.43.0


From c374f3fc3238afe1059fc5d85523be9f7425b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:06 +0000
Subject: [PATCH 036/146] fix: SubstringSet::build kept the counts of the
 previous string

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index dccb9b8..3fb29d5 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -26,7 +26,7 @@ class SubstringSet {
         // build set of all substrings in `s`
         void build(const value_type &s) {
             sa = SuffixAutomaton(s);
-            dp.resize(sa.nodes.size(), size_type(1));
+            dp.assign(sa.nodes.size(), size_type(1));
             for (const int u : sa.topological_order(/* reversed = */true)) {
                 for (const auto &p : sa.nodes[u].nxt) dp[u] += dp[p.second];
             }
-- 
2.43.0


From 76f40e804be9b3f030d7c27e200804c9985aeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:46 +0000
Subject: [PATCH 037/146] fix: FunctionalGraph::doubling hung or shifted out of
 range for max_step >= 2^62

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index fbcf73d..67bb8e5 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -225,7 +225,7 @@ namespace suisen {
 
         static int floor_log2(long long v) {
             int l = 0;
-            while (1LL << (l + 1) <= v) ++l;
+            while ((v >> (l + 1)) > 0) ++l;
             return l;
         }
     };
-- 
2.43.0


From 3ea061e91db1dc8387ab14f6cc89bac2a4bcfea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:46 +0000
Subject: [PATCH 038/146] fix: LowLink and its derived classes kept stale
 results when rebuilt after add_edge

---
 library/graph/biconnected_components.hpp        | 1 +
 library/graph/low_link.hpp                      | 5 +++++
 library/graph/two_edge_connected_components.hpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/library/graph/biconnected_components.hpp b/library/graph/biconnected_components.hpp
index ee3d5e9..80f1209 100644
--- a/library/graph/biconnected_components.hpp
+++ b/library/graph/biconnected_components.hpp
@@ -110,6 +110,7 @@ namespace suisen {
             _edge_comp_num = 0;
             _edge_comp_id.assign(_m, -1);
             _used.assign(_n, false);
+            _isolated_vertices.clear();
             for (int i = 0; i < _n; ++i) if (not _used[i]) {
                 dfs(i, -1);
                 if (_g[i].empty()) _isolated_vertices.push_back(i);
diff --git a/library/graph/low_link.hpp b/library/graph/low_link.hpp
index cc2b4e6..2505922 100644
--- a/library/graph/low_link.hpp
+++ b/library/graph/low_link.hpp
@@ -26,6 +26,11 @@ namespace suisen {
         }
 
         void build() {
+            _pre_order.assign(_n, -1);
+            _par.assign(_n, -1);
+            _bridges.clear();
+            _articulation_points.clear();
+            _conn_comp_num = 0;
             dfs_for_all_connected_components();
             _built = true;
         }
diff --git a/library/graph/two_edge_connected_components.hpp b/library/graph/two_edge_connected_components.hpp
index 01bde25..31066a5 100644
--- a/library/graph/two_edge_connected_components.hpp
+++ b/library/graph/two_edge_connected_components.hpp
@@ -66,6 +66,7 @@ namespace suisen {
         }
         void dfs_for_all_connected_components() {
             _comp_num = 0;
+            _comp_id.assign(_n, -1);
             for (int i = 0; i < _n; ++i) {
                 if (_comp_id[i] < 0) dfs(i, -1);
             }
-- 
2.43.0


From e783ba165642747df794f7422750ffd156c58bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:46 +0000
Subject: [PATCH 039/146] fix: Graph::shrink_to_fit and dfs_tree read the edges
 of the graph it was copied or moved from

---
 library/graph/csr_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..55a39a8 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             auto it = new_edges.begin();
             for (int i = 0; i < _n; ++i) {
                 int nl = it - new_edges.begin();
-                it = std::move(_adj[i].begin(), _adj[i].end(), it);
+                it = std::move((*this)[i].begin(), (*this)[i].end(), it);
                 _adj[i]._offset = nl;
                 _adj[i]._cap = _adj[i]._siz;
             }
@@ -258,7 +258,7 @@ namespace suisen {
                         *pst_it++ = cur;
                         cur = par[cur];
                     } else {
-                        const auto &e = _adj[cur][eid[cur]];
+                        const auto &e = (*this)[cur][eid[cur]];
                         weight_type_or_1 w = get_weight(e);
                         int nxt = e;
                         if (par[nxt] == -2) {
-- 
2.43.0


From 46950b943245804eedaea82f57867cb93ece7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:46 +0000
Subject: [PATCH 040/146] fix: assignment_problem.hpp shared its include guard
 with min_cost_flow.hpp

---
 library/graph/assignment_problem.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
-- 
2.43.0


From 3f950d081f77362c21971f6f8a50a762eff9343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:22 +0000
Subject: [PATCH 041/146] fix: maximum_clique searched a complement graph with
 self-loops (crash or too small a clique)

---
 library/graph/maximum_clique.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/maximum_clique.hpp b/library/graph/maximum_clique.hpp
index 2f6dbc1..7f68220 100644
--- a/library/graph/maximum_clique.hpp
+++ b/library/graph/maximum_clique.hpp
@@ -10,7 +10,7 @@ namespace suisen {
         for (int i = 0; i < n; ++i) {
             std::vector<int8_t> adj(n, false);
             for (int j : g[i]) adj[j] = true;
-            for (int j = 0; j < n; ++j) if (not adj[j]) h[i].push_back(j);
+            for (int j = 0; j < n; ++j) if (i != j and not adj[j]) h[i].push_back(j);
         }
         return maximum_independent_set(h);
     }
-- 
2.43.0


From bbda39b492317d3615c8486ff236162383b03ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:22 +0000
Subject: [PATCH 042/146] fix: MinCostFlow truncated the unlimited flow amount
 to Cost

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index d5624c6..4b8313f 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -78,7 +78,7 @@ class MinCostFlow {
 
     private:
         static constexpr Cost INF_COST = std::numeric_limits<Cost>::max() / 2;
-        static constexpr Cost INF_FLOW = std::numeric_limits<Cap>::max() / 2;
+        static constexpr Cap INF_FLOW = std::numeric_limits<Cap>::max() / 2;
     
         int n;
         std::vector<std::vector<InternalEdge>> g;
-- 
2.43.0


From 785ca340babfa73def5f9143c565b66b2fed1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:22 +0000
Subject: [PATCH 043/146] fix: BipartiteMatching::solve lost the existing
 matching size after further add_edge

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index ba7cd72..a6bd1c3 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 }
                 return level[_n + r] = _n + _m, false;
             };
-            for (_f = 0; bfs();) {
+            for (_f = _n - std::count(_to_r.begin(), _to_r.end(), ABSENT); bfs();) {
                 std::fill(iter.begin(), iter.end(), 0);
                 for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) _f += dfs(dfs, j);
             }
-- 
2.43.0


From 1879cf15c89d1587d86f4f5c7c4106e896e98bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:22 +0000
Subject: [PATCH 044/146] fix: BipartiteMatching::min_edge_cover indexed out of
 bounds when there are more right vertices

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index a6bd1c3..55424f6 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -107,7 +107,7 @@ namespace suisen {
 
         std::vector<std::pair<int, int>> min_edge_cover() {
             auto res = max_matching();
-            std::vector<bool> vl(_n, false), vr(_n, false);
+            std::vector<bool> vl(_n, false), vr(_m, false);
             for (const auto& [u, v] : res) vl[u] = vr[v] = true;
             for (int u = 0; u < _n; ++u) for (int v : _g[u]) if (not (vl[u] and vr[v])) {
                 vl[u] = vr[v] = true;
-- 
2.43.0


From 01c1fd6b8dbeb8f5eaccd9a4caafff70492805e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:22 +0000
Subject: [PATCH 045/146] fix: eulerian_trail left its auxiliary edge in the
 graph when there is no trail

---
 library/graph/directed_eulerian_graph.hpp   | 6 +++---
 library/graph/undirected_eulerian_graph.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/graph/directed_eulerian_graph.hpp b/library/graph/directed_eulerian_graph.hpp
index 74714e0..da06f0d 100644
--- a/library/graph/directed_eulerian_graph.hpp
+++ b/library/graph/directed_eulerian_graph.hpp
@@ -63,12 +63,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(t, s);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (t, s)
             g[t].pop_back();
             --in_deg[s];
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_ts_edge = [&](int u, int v) {
                 return u == t and v == s;
diff --git a/library/graph/undirected_eulerian_graph.hpp b/library/graph/undirected_eulerian_graph.hpp
index d4e691b..f16b5b8 100644
--- a/library/graph/undirected_eulerian_graph.hpp
+++ b/library/graph/undirected_eulerian_graph.hpp
@@ -60,12 +60,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(s, t);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (s, t)
             g[s].pop_back(), inv[s].pop_back();
             g[t].pop_back(), inv[t].pop_back();
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_st_edge = [&](int u, int v) {
                 return (u == s and v == t) or (u == t and v == s);
-- 
2.43.0


From 97e704f4e2000f80660897ea76f70ccf085b77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:22 +0000
Subject: [PATCH 046/146] fix: manhattan_minimum_distances missed the zero
 distance of one of two coincident points

---
 library/graph/manhattan_minimum_distances.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 4cf451d..e2c9174 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -28,10 +28,12 @@ namespace suisen {
 
         std::vector<T> res(n, std::numeric_limits<T>::max());
 
-        auto sweep = [&] {
+        // rev: the order in which coincident points are visited
+        auto sweep = [&](bool rev) {
             std::sort(
                 p.begin(), p.end(),
-                [&points](int i, int j) {
+                [&points, rev](int i, int j) {
+                    if (points[i] == points[j]) return rev ? i > j : i < j;
                     const auto &[xi, yi] = points[i];
                     const auto &[xj, yj] = points[j];
                     return yi - xi == yj - xj ? xi < xj : yi - xi < yj - xj;
@@ -61,7 +63,7 @@ namespace suisen {
         for (int x_rev = 0; x_rev < 2; ++x_rev) {
             for (int y_rev = 0; y_rev < 2; ++y_rev) {
                 for (int xy_rev = 0; xy_rev < 2; ++xy_rev) {
-                    sweep();
+                    sweep(xy_rev);
                     for (auto& [x, y] : points) std::swap(x, y);
                 }
                 for (auto& [x, _] : points) x = -x;
-- 
2.43.0


From f790f0bea03a78b9942d2ec04954cdd3c2bf6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 047/146] fix: link_cut_tree_path_foldable.hpp shared its
 include guard with link_cut_tree.hpp

---
 library/tree/link_cut_tree_path_foldable.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
-- 
2.43.0


From 5831b1c23052f6bac464ce9123f07c8ff9e9ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 048/146] fix: rerooting_invertible.hpp shared its include
 guard with rerooting.hpp

---
 library/tree/rerooting_invertible.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From edcc80c455ff85a7206727ff3732786acd74b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 049/146] fix: RMQpm1 over an empty sequence read its first
 element

---
 library/algorithm/rmq_pm1.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/algorithm/rmq_pm1.hpp b/library/algorithm/rmq_pm1.hpp
index d6ad85a..25d5a5c 100644
--- a/library/algorithm/rmq_pm1.hpp
+++ b/library/algorithm/rmq_pm1.hpp
@@ -68,6 +68,7 @@ namespace suisen {
 
         std::vector<int> build() {
             std::vector<int> c(m, e());
+            if (n == 0) return c;
             for (int i = 0, p = a[0] - 1; i < n; p = a[i++]) {
                 int outer = i >> LOG;
                 c[outer] = op(c[outer], a[i]);
-- 
2.43.0


From cbb2fea79531423757f9380f10b616d78aff85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 050/146] fix: is_isomorphic read a second centroid that need
 not exist

---
 library/tree/tree_isomorphism_classification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/tree_isomorphism_classification.hpp b/library/tree/tree_isomorphism_classification.hpp
index 3fde37e..118918a 100644
--- a/library/tree/tree_isomorphism_classification.hpp
+++ b/library/tree/tree_isomorphism_classification.hpp
@@ -211,7 +211,7 @@ namespace suisen {
                 id21 = id_new_par;
             }
             if (id11 == ids20[cs2[0]]) return std::pair{ cs1[1], cs2[0] };
-            if (ids20[cs2[1]] == id21) return std::pair{ cs1[0], cs2[1] };
+            if (ids10[cs1[0]] == id21) return std::pair{ cs1[0], cs2[1] };
             if (id11 == id21) return std::pair{ cs1[1], cs2[1] };
             return std::nullopt;
         }
-- 
2.43.0


From 3070018ac292ba8fe40d0d8cff345f71ce8f27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 051/146] fix: WaveletMatrix with the default number of bits
 shifted by the full width of T

---
 library/datastructure/wavelet_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..f90fe0a 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -156,7 +156,7 @@ namespace suisen {
         WaveletMatrix(int n) noexcept : n(n) {}
     private:
         static_assert(bit_num > 0);
-        static constexpr T MAX = bit_num == std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
+        static constexpr T MAX = bit_num >= std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
 
         int n;
         std::array<BitVector, bit_num> bv;
@@ -168,7 +168,7 @@ namespace suisen {
         }
 
         static void check_value_bounds(T val) {
-            assert((val >> bit_num) == 0);
+            assert(val >= 0 and val <= MAX);
         }
     };
 } // namespace suisen
-- 
2.43.0


From c6d03a872fe10d5a8dd2f11e3df607adf960f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 052/146] fix: the default length of CompressedWaveletMatrix
 exceeded the width of the compressed indices

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 9e4b810..8b79e43 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -10,7 +10,7 @@
 #include "library/util/coordinate_compressor.hpp"
 
 namespace suisen {
-    template <typename T, int log_max_len = std::numeric_limits<std::make_unsigned_t<T>>::digits>
+    template <typename T, int log_max_len = std::numeric_limits<int>::digits>
     struct CompressedWaveletMatrix : private WaveletMatrix<int, log_max_len> {
         // default constructor
         CompressedWaveletMatrix() noexcept : WaveletMatrix<int, log_max_len>(0) {}
-- 
2.43.0


From 517984a4cf2d7834a9440c6c6e5b2652106c540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 053/146] fix: CompressedWaveletMatrix::range_max_leq returned
 the default for every non-empty range

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 8b79e43..f489ab7 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -80,7 +80,7 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (r >= l) return default_value;
+            if (l >= r) return default_value;
             return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
         }
     private:
-- 
2.43.0


From b8175f8d337b5f5e73f8b8cd707c2b18b34a6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 054/146] fix: &= on a bit of a DynamicBitSet cleared the other
 bits of its block

---
 library/datastructure/util/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index d64b0fd..9b40433 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -21,7 +21,7 @@ namespace suisen {
             void set() { b |= block(1) << i; }
             void reset() { b &= ~(block(1) << i); }
             void flip() { b ^= block(1) << i; }
-            bitref& operator&=(bool val) { b &= block(val) << i; return *this; }
+            bitref& operator&=(bool val) { if (not val) reset(); return *this; }
             bitref& operator|=(bool val) { b |= block(val) << i; return *this; }
             bitref& operator^=(bool val) { b ^= block(val) << i; return *this; }
             bitref& operator =(bool val) { val ? set() : reset(); return *this; }
-- 
2.43.0


From 312a920e57c79c891718c01276cb68315b4a3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 055/146] fix: DynamicBitSet::all shifted by the block size
 when the last block is full

---
 library/datastructure/util/dynamic_bitset.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index 9b40433..f5427b3 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -253,8 +253,7 @@ namespace suisen {
             }
             const std::size_t num = n - ((block_num() - 1) << log_block_size);
             assert(num);
-            const block upper = ((block(1) << (block_size - num)) - 1) << num;
-            return (upper | blocks.back()) == ~block(0);
+            return get_lower_bits(~blocks.back(), num) == 0;
         }
         bool none() const {
             if (empty()) return true;
-- 
2.43.0


From 1803da26716801fb194a89b7f180c292ca106a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 056/146] fix: RangeSet::in_the_same_range named a function
 that does not exist

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From 4ff85415e9bc87cb56a908d4ee6bdc466b5b2750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 057/146] fix: static_bitset could not be printed (operator[]
 was not const)

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From cdb0fec4662660bec37e15346c7e1b83f416ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 058/146] fix: static_bitset operator~ and <<= left bits beyond
 N that comparisons and >>= could see

---
 library/datastructure/util/static_bitset.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index 5ff165b..4d2132a 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -38,6 +38,7 @@ namespace suisen {
         static_bitset<N> operator~() const {
             static_bitset<N> res;
             for (std::size_t i = 0; i < L; ++i) res._data[i] = ~_data[i];
+            res.trim();
             return res;
         }
         static_bitset<N>& operator<<=(const std::size_t shamt) {
@@ -59,6 +60,7 @@ namespace suisen {
                 }
             }
             for (std::size_t i = large_shamt; i-- > 0;) _data[i] = 0;
+            trim();
             return *this;
         }
         static_bitset<N>& operator>>=(const std::size_t shamt) {
@@ -165,6 +167,11 @@ namespace suisen {
     private:
         std::array<uint64_t, L> _data{};
 
+        // clears the unused bits of the last word
+        void trim() {
+            if constexpr (N & 63) _data[L - 1] &= (uint64_t(1) << (N & 63)) - 1;
+        }
+
         static constexpr std::size_t outer_index(std::size_t k) {
             return k >> 6;
         }
-- 
2.43.0


From 02d00eb3bdf68c017ccb18d2ad87d311ed6f873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 059/146] fix: fenwick_tree_set::max_leq over an empty universe
 read out of bounds

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 63dad3e..6abd1a2 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -127,7 +127,7 @@ namespace suisen {
         // O(log n).
         // Max element <= `v` or `-1` if not exists
         int max_leq(int v) const {
-            if (v < 0) return -1;
+            if (v < 0 or _n == 0) return -1;
             v = std::min(v, _n - 1);
             const auto [t, u] = index(v);
             const int lz = (WORD - 1) - u;
-- 
2.43.0


From 2e6cd50c8a4e9c42ef2428c81b448e3e543b03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 060/146] fix: fenwick_tree_set queries overflowed for the
 extreme int values

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 6abd1a2..df3dfee 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -93,7 +93,7 @@ namespace suisen {
         }
         // O(log n).
         // Count elements <= `v`. `v` may be out of range.
-        int count_leq(int v) const { return count_lt(v + 1); }
+        int count_leq(int v) const { return v >= _n ? _siz : count_lt(v + 1); }
         // O(log n).
         // Count elements > `v`. `v` may be out of range.
         int count_gt(int v) const { return _siz - count_leq(v); }
@@ -142,7 +142,7 @@ namespace suisen {
         }
         // O(log n).
         // Max element < `v` or `-1` if not exists
-        int max_lt(int v) const { return max_leq(v - 1); }
+        int max_lt(int v) const { return v <= 0 ? -1 : max_leq(v - 1); }
         // O(log n).
         // Min element >= `v` or `-1` if not exists
         int min_geq(int v) const {
@@ -160,7 +160,7 @@ namespace suisen {
         }
         // O(log n).
         // Min element > `v` or `-1` if not exists
-        int min_gt(int v) const { return min_geq(v + 1); }
+        int min_gt(int v) const { return v >= _n ? -1 : min_geq(v + 1); }
     private:
         struct IndexHolder {
             friend fenwick_tree_set;
-- 
2.43.0


From f4c803bba3b2e44d645fb36fd382052e6461feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 061/146] fix: BinaryTrie::xor_count_leq counted the
 occurrences of val instead of x ^ val

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..f3e3caf 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -108,7 +108,7 @@ class BinaryTrie {
             }
             return res;
         }
-        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(val); }
+        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(x ^ val); }
         inline int xor_count_gt (const U x, const U val) const noexcept { return size() - xor_count_leq(x, val);    }
         inline int xor_count_geq(const U x, const U val) const noexcept { return size() - xor_count_lt(x, val);     }
         inline U xor_lower(const U x, const U val, const U default_value = ~U(0)) const noexcept {
-- 
2.43.0


From 7661f0062ebfee754228ab02aac2634ece61c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 062/146] fix: BinaryTrie::max returned the complement of the
 maximum

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index f3e3caf..4dce48e 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -130,7 +130,7 @@ class BinaryTrie {
 
         inline U kth_min(const int k) const { return xor_kth_min(0, k); }
         inline U min() const { return xor_kth_min(0, 0); }
-        inline U max() const { return xor_kth_min(~U(0), 0); }
+        inline U max() const { return xor_kth_max(0, 0); }
         inline int count_lt (const U val) const noexcept { return xor_count_lt(0, val);  }
         inline int count_leq(const U val) const noexcept { return xor_count_leq(0, val); }
         inline int count_gt (const U val) const noexcept { return xor_count_gt(0, val);  }
-- 
2.43.0


From 89f8ba34788cbc8e0e7f18fed842c87350cc3c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 063/146] fix: BinaryTriePatricia::xor_max returned the
 complement of the maximum

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..0e6de45 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -104,7 +104,7 @@ namespace suisen {
         }
         // max{ x ^ v | v in S }
         value_type xor_max(const unsigned_value_type& x) const {
-            return xor_min(~x);
+            return xor_kth_max(x, 0);
         }
 
         // k-th smallest of { x ^ v | v in S } (0-indexed)
-- 
2.43.0


From 3a4fef47414413040a6afd439ec5a6a18edde5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 064/146] fix: BinaryTriePatricia shifted by the full width
 when bit_num is the width of T

---
 .../datastructure/binary_trie_patricia.hpp    | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 0e6de45..2086075 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 const uint32_t ch_idx = val & (ary - 1);
                 node_pointer_type nxt = cur->ch[ch_idx];
                 if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return 0;
-                val >>= nxt->len;
+                val = cut_upper(val, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -123,7 +123,7 @@ namespace suisen {
                     }
                 }
                 res |= nxt->val << l;
-                x >>= nxt->len;
+                x = cut_upper(x, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -138,7 +138,7 @@ namespace suisen {
         // #{ v in S | x ^ v < upper }
         __attribute__((target("bmi")))
         size_type xor_count_lt (unsigned_value_type x, unsigned_value_type upper) const {
-            if (upper >> bit_num) return _root->siz;
+            if (cut_upper(upper, bit_num)) return _root->siz;
             bit_reverse(x);
             bit_reverse(upper);
             internal_size_type res = 0;
@@ -159,8 +159,8 @@ namespace suisen {
                     uint32_t tz = len <= 32 ? _tzcnt_u32(vlo ^ ulo) : _tzcnt_u64(vlo ^ ulo);
                     return (ulo >> tz) & 1 ? res + nxt->siz : res;
                 }
-                x >>= len;
-                upper >>= len;
+                x = cut_upper(x, len);
+                upper = cut_upper(upper, len);
                 l += len;
                 cur = nxt;
             }
@@ -252,7 +252,11 @@ namespace suisen {
 
         node_pointer_type _root = node_type::new_node(0, 0, 0);
 
+        static constexpr unsigned_value_type cut_upper(const unsigned_value_type& val, uint32_t r) {
+            return r < uint32_t(std::numeric_limits<unsigned_value_type>::digits) ? val >> r : unsigned_value_type(0);
+        }
         static constexpr unsigned_value_type cut_lower(const unsigned_value_type& val, uint32_t r) {
+            if (r >= uint32_t(std::numeric_limits<unsigned_value_type>::digits)) return val;
             return val & ((unsigned_value_type(1) << r) - 1);
         }
         static constexpr uint32_t bit_reverse_u32(uint32_t x) {
@@ -292,7 +296,7 @@ namespace suisen {
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
             if (tz >= len) {
-                bool inserted = _insert_if_absent(nxt, l + len, val >> len);
+                bool inserted = _insert_if_absent(nxt, l + len, cut_upper(val, len));
                 cur->siz += inserted;
                 return inserted;
             }
@@ -320,7 +324,7 @@ namespace suisen {
             unsigned_value_type x = val ^ nxt->val;
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
-            if (tz >= len) return _insert(nxt, l + len, val >> len, num);
+            if (tz >= len) return _insert(nxt, l + len, cut_upper(val, len), num);
             node_pointer_type br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + num);
             cur->ch[idx] = br;
             nxt->val >>= tz;
@@ -339,7 +343,7 @@ namespace suisen {
             const uint32_t idx = val & (ary - 1);
             node_pointer_type nxt = cur->ch[idx];
             if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return num = 0, false;
-            bool deleted = _erase(nxt, num, l + nxt->len, val >> nxt->len);
+            bool deleted = _erase(nxt, num, l + nxt->len, cut_upper(val, nxt->len));
             cur->siz -= num;
             if (not deleted) return false;
             cur->ch[idx] = nullptr;
-- 
2.43.0


From 1f25ab6a988bcd0d68c8293638ddb457f6d9f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 065/146] fix: PersistentArray::dump repeated the first value

---
 library/datastructure/persistent_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/persistent_array.hpp b/library/datastructure/persistent_array.hpp
index 7be4f0f..3c7b31c 100644
--- a/library/datastructure/persistent_array.hpp
+++ b/library/datastructure/persistent_array.hpp
@@ -59,7 +59,7 @@ namespace suisen {
                 std::vector<value_type> res;
                 auto dfs = [&](auto dfs, node_pointer_type cur, int id, int p) -> void {
                     if (int(res.size()) <= id) res.resize(id + 1);
-                    res[id] = node->_val;
+                    res[id] = cur->_val;
                     int np = p << lg_ary, nid = id + p;
                     for (int d = 1; d < 1 << lg_ary; ++d, nid += p) {
                         if (cur->_ch[d]) dfs(dfs, cur->_ch[d], nid, np);
-- 
2.43.0


From f8c850eb3cfa1cbc98fecc91d82dedcc6e11fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 066/146] fix: dividing by an ArrayMatrix did not compile

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..f07e37a 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return val * A.inv(); }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From 2466660eebf629a8425af89ced307d08d96e6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 067/146] fix: MatrixF2::rank read past the last row of a
 matrix of full row rank

---
 library/linear_algebra/matrix_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/matrix_f2.hpp b/library/linear_algebra/matrix_f2.hpp
index 1c568de..1069f1d 100644
--- a/library/linear_algebra/matrix_f2.hpp
+++ b/library/linear_algebra/matrix_f2.hpp
@@ -119,7 +119,7 @@ namespace suisen {
         std::size_t rank() const {
             MatrixF2 A = *this;
             std::size_t r = 0;
-            for (std::size_t j = 0; j < m; ++j) {
+            for (std::size_t j = 0; r < n and j < m; ++j) {
                 for (std::size_t i = r + 1; i < n; ++i) if (A[i][j]) {
                     std::swap(A[r], A[i]);
                     if (A[i][j]) A[i] ^= A[r];
-- 
2.43.0


From 3530b14872e4c6c422ba981495da94db099e4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 068/146] fix: gaussian_elimination_f2 dropped the free
 variables after the last pivot row

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 5ca8287..736b6a6 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -65,7 +65,11 @@ namespace suisen {
 
         std::vector<std::size_t> ones, zeros;
         std::size_t rank = 0;
-        for (std::size_t j = 0; rank < n and j < m; ++j) {
+        for (std::size_t j = 0; j < m; ++j) {
+            if (rank == n) {
+                zeros.push_back(j);
+                continue;
+            }
             for (std::size_t i = rank + 1; i < n; ++i) if (A[i][j]) {
                 std::swap(A[rank], A[i]);
                 if (A[i][j]) A[i] ^= A[rank];
-- 
2.43.0


From b242516cd3007bc6b948c3817063a501c3e1a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 069/146] fix: SolutionSpace::normalized and intersection
 tripped over the normalization assertion

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 736b6a6..e1353e9 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -15,8 +15,8 @@ namespace suisen {
 
         SolutionSpace normalized() {
             SolutionSpace res{ _solution };
-            res += *this;
             res._normalized = true;
+            res += *this;
             return res;
         }
         void normalize() {
@@ -44,6 +44,7 @@ namespace suisen {
             std::vector<std::pair<DynamicBitSet, DynamicBitSet>> basis;
             for (const DynamicBitSet& e : s._basis) basis.emplace_back(e, e);
             SolutionSpace res;
+            res._normalized = true;
             for (DynamicBitSet e : t._basis) {
                 DynamicBitSet s(e.size());
                 for (const auto& [v, t] : basis) if (DynamicBitSet w = e ^ v; w < e) e = std::move(w), s ^= t;
-- 
2.43.0


From dc7ca2140d886292af7c28cbe2e134f106ed7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:44 +0000
Subject: [PATCH 070/146] fix: gaussian_elimination_f2 was defined non-inline
 in a header

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index e1353e9..a6215f5 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -59,7 +59,7 @@ namespace suisen {
         std::vector<DynamicBitSet> _basis;
     };
 
-    SolutionSpace gaussian_elimination_f2(MatrixF2 A, const DynamicBitSet &b) {
+    inline SolutionSpace gaussian_elimination_f2(MatrixF2 A, const DynamicBitSet &b) {
         assert(A.row_size() == b.size());
         const std::size_t n = A.row_size(), m = A.col_size();
         for (std::size_t i = 0; i < n; ++i) A[i].push_back(b[i]);
-- 
2.43.0


From 1efe863179409ad428e1cb4c899228cc9427e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 071/146] fix: factorial_number could not be compiled
 (fenwick_tree_set has no index_of)

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From 761dba9b8e9d553dafe68950de7305e3ab4b888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 072/146] fix: discrete_logarithm overflowed while taking the
 logarithm of a modulus of at least 2^30

---
 library/number/discrete_logarithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/discrete_logarithm.hpp b/library/number/discrete_logarithm.hpp
index 3fed267..4b7e2f1 100644
--- a/library/number/discrete_logarithm.hpp
+++ b/library/number/discrete_logarithm.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     namespace internal::discrete_logarithm {
         int floor_log2(int m) {
             int res = 0;
-            while (1 << (res + 1) <= m) ++res;
+            while (m >> (res + 1)) ++res;
             return res;
         }
     }
-- 
2.43.0


From 968d3811173ad5944cd93db609bb550a5f48add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 073/146] fix: fenwick_tree_2d_sparse.hpp reused the include
 guard of segment_tree_2d_sparse.hpp

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
-- 
2.43.0


From ef2f1a30bfb098c4fa0b87783ae03190bc17644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 074/146] fix: union_find_lazy.hpp reused the include guard of
 union_find_component_sum.hpp

---
 library/datastructure/union_find/union_find_lazy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
-- 
2.43.0


From bf4da7bb57f3c919c4f8a44f75aa0e6502f24d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 075/146] fix: SegmentTree2D(n, m) built a 2n x 2m tree

---
 library/datastructure/segment_tree/segment_tree_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/segment_tree_2d.hpp b/library/datastructure/segment_tree/segment_tree_2d.hpp
index ada2c02..c639dc2 100644
--- a/library/datastructure/segment_tree/segment_tree_2d.hpp
+++ b/library/datastructure/segment_tree/segment_tree_2d.hpp
@@ -8,7 +8,7 @@ namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct SegmentTree2D {
         SegmentTree2D() = default;
-        SegmentTree2D(int n, int m) : SegmentTree2D(std::vector(2 * n, std::vector(2 * m, e()))) {}
+        SegmentTree2D(int n, int m) : SegmentTree2D(std::vector<std::vector<T>>(n, std::vector<T>(m, e()))) {}
         SegmentTree2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), dat(2 * n, std::vector<T>(2 * m, e())) {
             for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
                 dat[n + i][m + j] = a[i][j];
-- 
2.43.0


From 816d7a43a7a7da860d33a96c093ada39c18534b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 076/146] fix: CompressedSegmentTree::set in two or more
 dimensions overwrote the values of other points

---
 .../segment_tree/compressed_segment_tree.hpp             | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 36b7ea5..ecf18a9 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -18,6 +18,7 @@ namespace suisen {
                 return xs.size();
             }
             int operator()(const value_type& x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
+            bool contains(const value_type& x) const { return std::binary_search(xs.begin(), xs.end(), x); }
         private:
             std::vector<value_type> xs;
         };
@@ -58,10 +59,12 @@ namespace suisen {
             return op(sml, smr);
         }
         value_type get(const point_type& p) const {
-            return data[comp(p[0]) + n].get(tail(p));
+            return comp.contains(p[0]) ? data[comp(p[0]) + n].get(tail(p)) : e();
         }
         void set(const point_type& p, const value_type& val) {
-            for (int i = comp(p[0]) + n; i; i >>= 1) data[i].set(tail(p), val);
+            int i = comp(p[0]) + n;
+            data[i].set(tail(p), val);
+            while (i >>= 1) data[i].set(tail(p), op(data[2 * i + 0].get(tail(p)), data[2 * i + 1].get(tail(p))));
         }
         void apply(const point_type& p, const value_type& val) {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
@@ -110,7 +113,7 @@ namespace suisen {
             return op(sml, smr);
         }
         value_type get(const point_type &i) const {
-            return data[comp(i) + n];
+            return comp.contains(i) ? data[comp(i) + n] : e();
         }
 
         void set(const point_type& p, const value_type& val) {
-- 
2.43.0


From f938943fa6da021d7125e02a80beb412c15a5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 077/146] fix: persistent_segment_tree: max_right<pred> and
 min_left<pred> were static and did not compile

---
 .../datastructure/segment_tree/persistent_segment_tree.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..ec53449 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 1860c51fb0258cd41ce85d66007f78665b8d532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 078/146] fix: persistent_segment_tree: building an empty tree
 recursed forever

---
 library/datastructure/segment_tree/persistent_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index ec53449..3b616a9 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -47,7 +47,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.empty() ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
-- 
2.43.0


From 2053e4cbdbf05d45fdbbdc2640ba729fef0e5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 079/146] fix: persistent_lazy_segment_tree: max_right<pred>
 and min_left<pred> were static and did not compile

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..871fa49 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 6561f00ec89a8c79c29576080f0f90804313b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 080/146] fix: persistent_lazy_segment_tree: building an empty
 tree recursed forever

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 871fa49..c00b9d5 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -64,7 +64,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.empty() ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
-- 
2.43.0


From f811e2359bb2da778c784b0794e889d7a0750f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 081/146] fix: persistent_dual_segment_tree: building an empty
 tree allocated a node

---
 .../datastructure/segment_tree/persistent_dual_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
index 7b0ffba..763bc34 100644
--- a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
@@ -57,7 +57,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, n);
+                return n == 0 ? nullptr : rec(rec, 0, n);
             }
 
             static node_pointer_type apply_all(node_pointer_type node, const operator_type& f) {
-- 
2.43.0


From a1dc23a9eaf796ad40f0b83e0fdb5e9c27817974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 082/146] fix: persistent_commutative_dual_segment_tree:
 building an empty tree allocated a node

---
 .../segment_tree/persistent_commutative_dual_segment_tree.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
index a47e758..e414d55 100644
--- a/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
@@ -37,7 +37,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, n);
+                return n == 0 ? nullptr : rec(rec, 0, n);
             }
 
             static node_pointer_type apply_all(node_pointer_type node, const operator_type& f) {
-- 
2.43.0


From 330d6e8cf73097ed5dbe33badd3ee79c50802ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 083/146] fix: PersistentLazySegmentTree::apply(i, f) did not
 compile

---
 .../datastructure/segment_tree/persistent_lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index c00b9d5..73dc4f1 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -247,7 +247,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
-- 
2.43.0


From fec581cfa7d93c7106297e4423110b9563c36ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 084/146] fix: PersistentLazySegmentTree::dump emitted inner
 nodes and composed lazies in the wrong order

---
 .../segment_tree/persistent_lazy_segment_tree.hpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 73dc4f1..27e0424 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -194,8 +194,7 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        rec(rec, cur->_ch[0], composition(f, cur->_laz)), rec(rec, cur->_ch[1], composition(f, cur->_laz));
                     }
                 };
                 rec(rec, node, id());
-- 
2.43.0


From 92a2d42a1ff8eb62f09b78541c3a98280820dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 085/146] fix: PersistentFenwickTree(dat) ignored the initial
 values

---
 library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..d2eba79 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -36,7 +36,7 @@ namespace suisen {
                     node_pointer_type res = _pool.alloc();
                     res->_ch[0] = rec(rec, np, id - np);
                     if (id + 1 <= n) res->_ch[1] = rec(rec, np, id + np);
-                    if (id <= n) nodes[id] = res;
+                    if (id <= n) nodes[id] = res, res->_dat = dat[id - 1];
                     return res;
                 };
                 node_pointer_type res = rec(rec, p, p);
-- 
2.43.0


From a4e1034a0a7f456f492c5a09e1dec9f667e57459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 086/146] fix: PersistentFenwickTree of size 0 evaluated
 __builtin_clz(0)

---
 library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index d2eba79..be70f22 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -108,8 +108,7 @@ namespace suisen {
         PersistentFenwickTree(int p, node_pointer_type root) : _p(p), _root(root) {}
 
         static constexpr int floor_pow2(int n) {
-            int x = 31 - __builtin_clz(n);
-            return x < 0 ? 0 : 1 << x;
+            return n == 0 ? 0 : 1 << (31 - __builtin_clz(n));
         }
     };
 }
-- 
2.43.0


From 9471465963cf097b7187b1270af5644fb63500cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 087/146] fix: PersistentUnionFind::root compressed paths in
 nodes shared with other versions

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..1c4634f 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,12 +19,8 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
-            while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
-            }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
+            // No path compression: nodes are shared with other versions.
+            for (int r; (r = _dat.get(x)) >= 0;) x = r;
             return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
-- 
2.43.0


From 24f6b341f0918ac6405c20a438fda340a29ab1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 088/146] fix: LiChaoSegmentTree::add_line skipped non-positive
 x for floating point T

---
 library/datastructure/segment_tree/li_chao_segment_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/li_chao_segment_tree.hpp b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
index a253288..e867d65 100644
--- a/library/datastructure/segment_tree/li_chao_segment_tree.hpp
+++ b/library/datastructure/segment_tree/li_chao_segment_tree.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <optional>
 #include <vector>
 
@@ -51,7 +52,7 @@ namespace suisen {
 
         // Add ax+b for x in (-infty, infty)
         void add_line(T a, T b) {
-            add_segment(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), a, b);
+            add_segment(std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), a, b);
         }
 
         /**
-- 
2.43.0


From cf5e116f6333fda50b4f8e0c442d57b39266a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 089/146] fix: DynamicSequence::reverse_all called a misspelt
 function and did not compile

---
 library/datastructure/dynamic_sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..8a71d3b 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -209,7 +209,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
-- 
2.43.0


From 05d3f212d91d58eadcc7e58d48ab88beeb91a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 090/146] fix: erase_lower_bound / erase_upper_bound of the
 reversible treaps did not compile

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..d99fb54 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From 9ca36370e54cef893de63ca23f68685ea1f02b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 091/146] fix: SplayTreeMap::erase_index and get_or_default did
 not compile

---
 library/datastructure/splay_tree_map.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..989cc65 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -206,7 +206,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
@@ -222,10 +222,9 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static std::pair<node_ptr_t, Val> get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
-        node = new_root;
-        return found ? new_root->val : default_value;
+        return { new_root, found ? new_root->val : default_value };
     }
 };
 
-- 
2.43.0


From c50f4c3f3720b06b1ef882f99077b8051c1fde03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 092/146] fix: operator()(l, r) of RangeFoldableMap called a
 function that does not exist

---
 library/datastructure/range_foldable_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..00778cf 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From bce9b9f1e56aaf2306295622682ded57f1dc6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 093/146] fix: operator()(l, r) of LazyEvalMap called a
 function that does not exist

---
 library/datastructure/lazy_eval_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..2ac8d79 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From 305736d4c6aad35babce58cddba8cbd25cc8e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 094/146] fix: merging two empty SplayTreeMaps failed an
 assertion

---
 library/datastructure/splay_tree_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 989cc65..50762ce 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -308,7 +308,7 @@ class SplayTreeMap {
             return SplayTreeMap<Key, Val>(r);
         }
         void merge(SplayTreeMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From 040deff0684c698ea3ceb179a8eeec66ed99798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 095/146] fix: merging two empty LazyEvalMaps failed an
 assertion

---
 library/datastructure/lazy_eval_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 2ac8d79..bd98296 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -149,7 +149,7 @@ class LazyEvalMap {
             return LazyEvalMap(r);
         }
         void merge(LazyEvalMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From 1ecfa9aff10a7cb29cdca1fba82feae9329ee19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 096/146] fix: SortableSegmentTree::pop_front and pop_back did
 not return the removed entry

---
 library/datastructure/segment_tree/sortable_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..45be4fd 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -665,8 +665,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
-- 
2.43.0


From b97b25aaedafa8d9398c2b55bdbc92c5cdbe03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 097/146] fix: SortableSegmentTree::concat did not compile, and
 copies shared their nodes

---
 .../datastructure/segment_tree/sortable_segment_tree.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 45be4fd..e678200 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -610,6 +610,13 @@ namespace suisen {
         SortableSegmentTree() : SortableSegmentTree(nullptr) {}
         SortableSegmentTree(const std::vector<std::pair<key_type, value_type>>& dat) : SortableSegmentTree(outer_node::build(dat)) {}
 
+        SortableSegmentTree(const SortableSegmentTree&) = delete;
+        SortableSegmentTree(SortableSegmentTree&& other) : SortableSegmentTree(std::exchange(other._root, nullptr)) {}
+        SortableSegmentTree& operator=(const SortableSegmentTree&) = delete;
+        SortableSegmentTree& operator=(SortableSegmentTree&& other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
         ~SortableSegmentTree() {
             outer_node::dealloc_all(_root);
         }
@@ -675,7 +682,7 @@ namespace suisen {
             return SortableSegmentTree{ root_r };
         }
         void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From e5e9f2b99d783b2e862d5ea56e5b090fa88cd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 098/146] fix: erase_binary_search of the reversible treaps
 erased a later element when the first match did not satisfy g

---
 .../bbst/reversible_implicit_treap_base.hpp   | 29 +++----------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index d99fb54..02d2392 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -309,31 +309,10 @@ namespace suisen::internal::implicit_treap {
         // returns { node, optional(position, value) }
         template <typename Predicate, typename RemovePredicate>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search(node_pointer t, const Predicate& f, const RemovePredicate& g) {
-            if (not t) return { empty_node(), std::nullopt };
-            node_type::push(t);
-            if (f(value(t))) {
-                auto [c0, erased] = erase_binary_search(child0(t), f, g);
-                if (erased) {
-                    set_child0(t, c0);
-                    return { node_type::update(t), std::move(erased) };
-                } else if (g(value(t))) {
-                    node_pointer::dealloc(t);
-                    std::pair<size_type, value_type> erased_entry{ safe_size(child0(t)), std::move(value(t)) };
-                    return { merge(child0(t), child1(t)), std::move(erased_entry) };
-                } else {
-                    return { t, std::nullopt };
-                }
-            } else {
-                auto [c1, erased] = erase_binary_search(child1(t), f, g);
-                if (erased) {
-                    set_child1(t, c1);
-                    size_type& pos = erased->first;
-                    pos += safe_size(child0(t)) + 1;
-                    return { node_type::update(t), std::move(erased) };
-                } else {
-                    return { t, std::nullopt };
-                }
-            }
+            const auto [pos, val] = binary_search(t, [&](const value_type& v, int) { return f(v); });
+            if (not val or not g(*val)) return { t, std::nullopt };
+            auto [root, erased] = erase(t, pos);
+            return { root, std::pair<size_type, value_type>{ pos, std::move(erased) } };
         }
         template <typename Compare = std::less<>>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_lower_bound(node_pointer t, const value_type& v, Compare comp) {
-- 
2.43.0


From 856bafd4eff401a3c29590c5f807ae47584ba7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 099/146] fix: operations on the persistent red-black trees
 modified or freed nodes of older versions

---
 library/datastructure/bbst/red_black_tree_base.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 7178e2b..ac377c0 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -45,6 +45,7 @@ namespace suisen::bbst::internal {
                 tree_type c = l->_ch[1] = merge<false>(l->_ch[1], r);
                 if (l->_col == BLACK and c->_col == RED and color(c->_ch[1]) == RED) {
                     std::swap(l->_col, c->_col);
+                    l->_ch[0] = node_type::clone(l->_ch[0]);
                     if (std::exchange(l->_ch[0]->_col, BLACK) == BLACK) return rotate(l, 1);
                 }
                 res = node_type::update(l);
@@ -53,6 +54,7 @@ namespace suisen::bbst::internal {
                 tree_type c = r->_ch[0] = merge<false>(l, r->_ch[0]);
                 if (r->_col == BLACK and c->_col == RED and color(c->_ch[0]) == RED) {
                     std::swap(r->_col, c->_col);
+                    r->_ch[1] = node_type::clone(r->_ch[1]);
                     if (std::exchange(r->_ch[1]->_col, BLACK) == BLACK) return rotate(r, 0);
                 }
                 res = node_type::update(r);
@@ -74,8 +76,8 @@ namespace suisen::bbst::internal {
 
             free_node(node);
 
-            if (color(l) == RED) l->_col = BLACK;
-            if (color(r) == RED) r->_col = BLACK;
+            if (color(l) == RED) l = node_type::clone(l), l->_col = BLACK;
+            if (color(r) == RED) r = node_type::clone(r), r->_col = BLACK;
 
             size_type szl = size(l);
             tree_type m;
@@ -106,7 +108,7 @@ namespace suisen::bbst::internal {
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
             value_type erased_value = tm->_val;
-            free_node(tm);
+            free_node(node_type::clone(tm));
             return { merge(tl, tr) , erased_value };
         }
         static std::pair<tree_type, value_type> pop_front(tree_type node) { return erase(node, 0); }
@@ -115,6 +117,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::clone(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
@@ -223,7 +226,7 @@ namespace suisen::bbst::internal {
             return node;
         }
         static tree_type push(tree_type node) {
-            return node;
+            return node_type::clone(node);
         }
 
         static tree_type rotate(tree_type node, int index) {
-- 
2.43.0


From bceb939e7fd535f7d3ea137d7d2c2c997202e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 100/146] fix: SortableSegmentTree::max_right / min_left
 ignored the reversed order of ranges sorted in descending order

---
 .../segment_tree/sortable_segment_tree.hpp    | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index e678200..90b554d 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -242,39 +242,43 @@ namespace suisen {
             }
 
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> max_right(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> max_right(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type r = 0;
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(s, safe_sum(child0(t))); f(nxt_s)) {
+                    inner_node_pointer tl = child0(t), tr = child1(t);
+                    if (rev) std::swap(tl, tr);
+                    if (value_type nxt_s = op(s, rev ? toggle(safe_sum(tl)) : safe_sum(tl)); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        r += safe_size(child0(t));
+                        r += safe_size(tl);
                         if (nxt_s = op(s, value(t)); f(nxt_s)) {
                             s = std::move(nxt_s);
                             r += 1;
-                            t = child1(t);
+                            t = tr;
                         } else break;
                     } else {
-                        t = child0(t);
+                        t = tl;
                     }
                 }
                 return { r, s };
             }
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> min_left(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> min_left(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type l = safe_size(t);
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(safe_sum(child1(t)), s); f(nxt_s)) {
+                    inner_node_pointer tl = child0(t), tr = child1(t);
+                    if (rev) std::swap(tl, tr);
+                    if (value_type nxt_s = op(rev ? toggle(safe_sum(tr)) : safe_sum(tr), s); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        l -= safe_size(child1(t));
+                        l -= safe_size(tr);
                         if (nxt_s = op(value(t), s); f(nxt_s)) {
                             s = std::move(nxt_s);
                             l -= 1;
-                            t = child0(t);
+                            t = tl;
                         } else break;
                     } else {
-                        t = child1(t);
+                        t = tr;
                     }
                 }
                 return { l, s };
@@ -541,7 +545,7 @@ namespace suisen {
                             t = child1(t);
                         } else {
                             size_type r_inner;
-                            std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            std::tie(r_inner, s) = inner_node::max_right(inner(t), reversed(t), f, s);
                             r += r_inner;
                             break;
                         }
@@ -572,7 +576,7 @@ namespace suisen {
                             t = child0(t);
                         } else {
                             size_type l_inner;
-                            std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            std::tie(l_inner, s) = inner_node::min_left(inner(t), reversed(t), f, s);
                             l -= inner_size(t) - l_inner;
                             break;
                         }
-- 
2.43.0


From 699cf5aff8b64992a05aa9aeb5649d009944fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:50 +0000
Subject: [PATCH 101/146] fix: reversing part of a reversible treap segment
 tree did not toggle the products of the nodes the reversal was pushed down to

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 02d2392..4cac213 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                node_type::reverse_all(child0(t));
+                node_type::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From a748db52c8c825427eccfe8d9ffd4350bfdac2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 102/146] fix: RunLengthEncoder::pop_back did not compile

---
 library/util/run_length_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..cd782cf 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -49,7 +49,7 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
+                    comp.back().second -= num;
                     return rem + num;
                 }
                 num -= cnt, rem += cnt;
-- 
2.43.0


From de91aaaaeddf70f2b64a5a455f4119051a5f0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 103/146] fix: RunLengthEncoder lost track of its length in
 pop_back, swap and clear

---
 library/util/run_length_encoder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index cd782cf..71c548d 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RUN_LENGTH_ENCODER
 #define SUISEN_RUN_LENGTH_ENCODER
 
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -20,9 +21,9 @@ class RunLengthEncoder {
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void swap(RunLengthEncoder<Container> &&other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void clear() { _length = 0, comp.clear(); }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
@@ -50,6 +51,7 @@ class RunLengthEncoder {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
                     comp.back().second -= num;
+                    _length -= rem + num;
                     return rem + num;
                 }
                 num -= cnt, rem += cnt;
-- 
2.43.0


From 4cd3f16a5cb53806cbad8a4036067278daaf434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 104/146] fix: the integral ternary_search_value truncated the
 value to the argument type

---
 library/util/search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/search.hpp b/library/util/search.hpp
index f5fc372..eacd2c8 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -79,7 +79,7 @@ namespace suisen {
      */
     template <ternary_search_tag tag, typename Arg, typename Fun,
         std::enable_if_t<std::conjunction_v<std::is_invocable<Fun, Arg>, std::is_integral<Arg>>, std::nullptr_t> = nullptr>
-    Arg ternary_search_value(Arg l, Arg r, const Fun &f) {
+    std::invoke_result_t<Fun, Arg> ternary_search_value(Arg l, Arg r, const Fun &f) {
         return f(ternary_search_key<tag>(l, r, f));
     }
 
-- 
2.43.0


From 0d0360aee21e9cf8a3befe28e203fb8260a1cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 105/146] fix: sum_count_lt, sum_count_geq and sum_count_gt
 ignored the result type and overflowed

---
 library/util/sum_count.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index 26fcd61..c3bee91 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SUM_COUNT
 #define SUISEN_SUM_COUNT
 
+#include <algorithm>
+
 namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b=sum)
     template <typename T, typename R = T>
@@ -28,19 +30,19 @@ namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<x)
     template <typename T, typename R = T>
     constexpr R sum_count_lt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return sum_count_leq(min_a, max_a, min_b, max_b, x - 1);
+        return sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x - 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>=min_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_geq(T min_a, T max_a, T min_b, T max_b, T min_sum) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_lt(min_a, max_a, min_b, max_b, min_sum);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_lt<T, R>(min_a, max_a, min_b, max_b, min_sum);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>x)
     template <typename T, typename R = T>
     constexpr R sum_count_gt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_leq(min_a, max_a, min_b, max_b, x);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x);
     }
 } // namespace suisen
 
-- 
2.43.0


From e3c76974ce33129a92a4f4be32aaacc336639b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 106/146] fix: repeating a vector with operator*= wrote past
 its end

---
 library/util/vector_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index 18bb463..fe049b8 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -35,7 +35,7 @@ template <typename T>
 std::vector<T>& operator*=(std::vector<T> &a, const int repeat) {
     int n = a.size();
     a.resize(n * repeat);
-    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.end(), a.begin() + i * n);
+    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.begin() + n, a.begin() + i * n);
     return a;
 }
 template <typename T>
-- 
2.43.0


From f5099825979c791e2a6b2b331ab925a5682f00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 107/146] fix: popcount, count_lz and floor_log2 were wrong for
 8-bit and 16-bit types

---
 library/util/bit_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/bit_utils.hpp b/library/util/bit_utils.hpp
index 17232c1..8f06f33 100644
--- a/library/util/bit_utils.hpp
+++ b/library/util/bit_utils.hpp
@@ -9,11 +9,11 @@
 #include "library/type_traits/type_traits.hpp"
 namespace suisen {
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(x); }
+    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(std::make_unsigned_t<T>(x)); }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u64(x); }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    constexpr int count_lz(const T x) { return x ? __builtin_clz(x) : suisen::bitnum_v<T>; }
+    constexpr int count_lz(const T x) { return x ? __builtin_clz(std::make_unsigned_t<T>(x)) - (32 - suisen::bitnum_v<T>) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     constexpr int count_lz(const T x) { return x ? __builtin_clzll(x) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-- 
2.43.0


From 953648095791c5c10d9770d71c36beb0bb2faf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 108/146] fix: Permutation::pow overflowed for exponents near
 the maximum of long long

---
 library/util/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/permutation.hpp b/library/util/permutation.hpp
index f96232e..ee1783a 100644
--- a/library/util/permutation.hpp
+++ b/library/util/permutation.hpp
@@ -62,7 +62,7 @@ namespace suisen {
                 for (int j = 0; j < l; ++j) {
                     int v = cycle[j];
                     seen[v] = true;
-                    res[v] = cycle[(j + k) % l];
+                    res[v] = cycle[(j + k % l) % l];
                 }
             }
             return res;
-- 
2.43.0


From 5ecf799dd2c8e0ce330b1b60f0b50a78f88a3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 109/146] fix: values hashed on demand reused the random
 numbers drawn in the constructor, so distinct values collided

---
 library/util/zobrist_hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/zobrist_hash.hpp b/library/util/zobrist_hash.hpp
index 024e52c..3643862 100644
--- a/library/util/zobrist_hash.hpp
+++ b/library/util/zobrist_hash.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <map>
 #include <vector>
 #include <random>
@@ -53,7 +54,7 @@ namespace suisen {
 
         VecZobristHash() = default;
         VecZobristHash(typename Base::value_type max_val) : Base(max_val + 1) {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
 
     protected:
@@ -70,7 +71,7 @@ namespace suisen {
         using Base = ZobristHashBase<std::array<std::make_unsigned_t<HashType>, N + 1>, std::size_t, HashType, ArrZobristHash<N, HashType>>;
 
         ArrZobristHash() {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
     protected:
         static void ensure_key_existence(typename Base::container_type&, typename Base::value_type, typename Base::rng_type&) {}
-- 
2.43.0


From 509b323501ccdf3b55fbad57ffe04a384b03f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 110/146] fix: building a permutation tree accessed stack
 entries that were already popped

---
 library/datastructure/permutation_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 9209a59..98479b6 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -79,8 +79,8 @@ namespace suisen {
 
             auto erase = [&](list_node_pointer node) -> list_node_pointer {
                 list_node_pointer nxt = node->nxt, prv = node->prv;
-                if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
-                if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
+                if (std::size_t(node->max_idx) < max_val.size()) if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
+                if (std::size_t(node->min_idx) < min_val.size()) if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
                 if (nxt) nxt->prv = prv, nxt->delta += node->delta;
                 if (prv) prv->nxt = nxt;
                 delete node;
-- 
2.43.0


From 582854cb04212b029435ef47bc944730bfdc2142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 111/146] fix: vec_sparse_fps.hpp did not compile (undeclared
 mint, unary minus, product of two series)

---
 library/polynomial/vec_sparse_fps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..43c4732 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
@@ -63,7 +63,7 @@ namespace suisen {
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
             for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+                h.add_to_last({ i, std::move(a) });
             }
             return h;
         }
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
-- 
2.43.0


From ce1c40efe5a321236b3121a3458a942d7f893b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 112/146] fix: the sum of two VecSparseFPS dropped the terms
 after the end of the shorter one

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 43c4732..5443121 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -43,7 +43,7 @@ namespace suisen {
         friend VecSparseFPS operator+(const VecSparseFPS &f, const VecSparseFPS &g) {
             const int n = f._f.size(), m = g._f.size();
             VecSparseFPS h;
-            for (int i = 0, j = 0; i < n and j < m;) {
+            for (int i = 0, j = 0; i < n or j < m;) {
                 if (j == m or (i < n and f._f[i].first < g._f[j].first)) {
                     h.add_to_last(f._f[i++]);
                 } else {
-- 
2.43.0


From 5be993f4642fe6a4d888f217c0522938bb14b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 113/146] fix: VecSparseFPS::bostan_mori did not divide by the
 constant term of the denominator

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 5443121..4aab54b 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -128,7 +128,7 @@ namespace suisen {
                 Q.clear();
                 for (int i = 0; i < int(nQ.size()); i += 2) Q.push_back(nQ[i]);
             }
-            return P[0];
+            return P[0] / Q[0];
         }
 
     private:
-- 
2.43.0


From 542e5ed854234214c7aea49d1ad78f6688128310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:08 +0000
Subject: [PATCH 114/146] fix: polynomial_inv and polynomial_gcd did not
 compile

---
 library/polynomial/polynomial_gcd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index 857b1d3..bb0d3f1 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -87,15 +87,15 @@ namespace suisen {
     }
     // @return x s.t. ax=1 (mod m)
     template <typename Polynomial>
-    std::pair<Polynomial, Polynomial> polynomial_inv(const Polynomial &a, const Polynomial &m) {
+    Polynomial polynomial_inv(const Polynomial &a, const Polynomial &m) {
         auto [x, _, g] = polynomial_ext_gcd(a, m);
         assert(g == Polynomial{1});
         return x;
     }
     // @return gcd(a,b) (monic)
     template <typename Polynomial>
-    std::tuple<Polynomial, Polynomial, Polynomial> polynomial_gcd(const Polynomial &a, const Polynomial &b) {
-        return std::get<2>(ext_gcd(a, b));
+    Polynomial polynomial_gcd(const Polynomial &a, const Polynomial &b) {
+        return std::get<2>(polynomial_ext_gcd(a, b));
     }
 } // namespace suisen
 
-- 
2.43.0


From 50c612ce761aacd8fdca4c8745f378d727cdd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 115/146] fix: FPSNaive::safe_sqrt accessed an empty series
 when the first nonzero term is at x^(2n) or later

---
 library/polynomial/fps_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index bf85b6b..ab2e8e5 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -232,6 +232,7 @@ namespace suisen {
             while (dl < size() and unsafe_get(dl) == value_type{ 0 }) ++dl;
             if (dl == size()) return FPSNaive(n, 0);
             if (dl & 1) return std::nullopt;
+            if (dl / 2 >= n) return FPSNaive(n, 0);
 
             const int m = n - dl / 2;
 
-- 
2.43.0


From 538f3e2dd5d45bece8f62cccbf96924d69d6c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 116/146] fix: FPS::safe_sqrt resized to a negative length when
 the first nonzero term is at x^(2n) or later

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..67779e0 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -264,6 +264,7 @@ namespace suisen {
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FPS(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FPS(n, 0);
             const int m = n - tlz / 2;
 
             FPS h(this->begin() + tlz, this->end());
-- 
2.43.0


From 4b3449ad4538051e014d041869995d2f60ba72c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 117/146] fix: ArrayFPSNaive::sqrt read past the end when the
 constant term is zero

---
 library/polynomial/array_fps_naive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/array_fps_naive.hpp b/library/polynomial/array_fps_naive.hpp
index cfd34e4..92b9c3e 100644
--- a/library/polynomial/array_fps_naive.hpp
+++ b/library/polynomial/array_fps_naive.hpp
@@ -183,7 +183,7 @@ namespace suisen {
             g[bg] = ::sqrt((*this)[bf]);
             value_type inv_2g0 = ::inv(2 * g[bg]);
             for (int i = 1; i <= d; ++i) {
-                g[bg + i] = (*this)[bf + i];
+                if (bf + i <= DEG) g[bg + i] = (*this)[bf + i];
                 for (int j = 1; j < i; ++j) g[bg + i] -= g[bg + j] * g[bg + i - j];
                 g[bg + i] *= inv_2g0;
             }
-- 
2.43.0


From 8b62d0f6865b7a1306485186ae781054df0fe0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 118/146] fix: factorial computed factorials beyond those asked
 for, which vanish modulo a small prime and have no inverse

---
 library/math/factorial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/factorial.hpp b/library/math/factorial.hpp
index 92dae7f..3bfe301 100644
--- a/library/math/factorial.hpp
+++ b/library/math/factorial.hpp
@@ -13,7 +13,7 @@ namespace suisen {
         static void ensure(const int n) {
             int sz = _fac.size();
             if (n + 1 <= sz) return;
-            int new_size = std::max(n + 1, sz * 2);
+            int new_size = n + 1;
             _fac.resize(new_size), _fac_inv.resize(new_size);
             for (int i = sz; i < new_size; ++i) _fac[i] = _fac[i - 1] * i;
             _fac_inv[new_size - 1] = U(1) / _fac[new_size - 1];
-- 
2.43.0


From 815ee3a2b72dce52703248972f74752d1a65e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 119/146] fix: bell_number accessed the (n+1)-st coefficient of
 a series of length n

---
 library/sequence/bell_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/sequence/bell_number.hpp b/library/sequence/bell_number.hpp
index 54f70ee..4b36e78 100644
--- a/library/sequence/bell_number.hpp
+++ b/library/sequence/bell_number.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         factorial<mint> fac(n);
         FPSType f(n + 1);
         for (int i = 1; i <= n; ++i) f[i] = fac.fac_inv(i);
-        f.exp_inplace(n);
+        f.exp_inplace(n + 1);
         for (int i = 0; i <= n; ++i) f[i] *= fac.fac(i);
         return f;
     }
-- 
2.43.0


From 251a7a50769de82ae037de2291a4b846a68957da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 120/146] fix: unsigned_bigint kept leading zeros of strings,
 so "0" was neither false nor equal to 0

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 911de2c..daab1eb 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                     v = v * 10 + d;
                 }
             }
+            _cut_leading_zeros();
         }
         unsigned_bigint(const char* s) : unsigned_bigint(std::string(s)) {}
 
-- 
2.43.0


From 50945ece153319d2edba65d42a7a7fcc8c1ffe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 121/146] fix: unsigned_bigint(unsigned long) and brace
 initialization chose an inherited constructor of std::vector

---
 library/math/unsigned_bigint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index daab1eb..8a6965e 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -195,7 +195,8 @@ namespace suisen {
             return out << v._to_string();
         }
     private:
-        using std::vector<int>::vector;
+        template <typename Iterator, std::enable_if_t<not std::is_integral_v<Iterator>, std::nullptr_t> = nullptr>
+        unsigned_bigint(Iterator first, Iterator last) : vector(first, last) {}
 
         void _check_leading_zeros() const {
             assert(this->empty() or this->back());
-- 
2.43.0


From f4b71c172f582d2545198f5aa1e42f5a710634ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 122/146] fix: division of unsigned_bigint compared remainders
 with leading zeros

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 8a6965e..4f11fb9 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -399,6 +399,7 @@ namespace suisen {
                 }
                 if (i) {
                     r.insert(r.begin(), a[i - 1]);
+                    r._cut_leading_zeros();
                 }
             }
             std::reverse(q.begin(), q.end());
-- 
2.43.0


From b83a848ee12e6661fc4cd6354aefe7752e28f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 123/146] fix: bigint of the minimum of a signed integer type
 overflowed

---
 library/math/bigint.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/math/bigint.hpp b/library/math/bigint.hpp
index b51778f..7d4838b 100644
--- a/library/math/bigint.hpp
+++ b/library/math/bigint.hpp
@@ -14,12 +14,12 @@ namespace suisen {
         bigint(T v) {
             _neg = false;
             if constexpr (std::is_signed_v<T>) {
-                if (v < 0) {
-                    _neg = true;
-                    v = -v;
-                }
+                using U = std::make_unsigned_t<T>;
+                _neg = v < 0;
+                _dat = unsigned_bigint(v < 0 ? U(U(0) - U(v)) : U(v));
+            } else {
+                _dat = unsigned_bigint(v);
             }
-            _dat = unsigned_bigint(v);
         }
         bigint(const std::string& s) {
             if (s.front() == '-') {
-- 
2.43.0


From b9205deb88da1c826f49bf342be7f36ed3396e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 124/146] fix: the product of two big integers equal to zero
 (convolution_naive of two empty sequences) threw

---
 library/convolution/convolution_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/convolution_naive.hpp b/library/convolution/convolution_naive.hpp
index 7c3f049..8593bf0 100644
--- a/library/convolution/convolution_naive.hpp
+++ b/library/convolution/convolution_naive.hpp
@@ -7,6 +7,7 @@ namespace suisen::internal {
     template <typename T, typename R = T>
     std::vector<R> convolution_naive(const std::vector<T>& a, const std::vector<T>& b) {
         const int n = a.size(), m = b.size();
+        if (n == 0 or m == 0) return {};
         std::vector<R> c(n + m - 1);
         if (n < m) {
             for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) c[i + j] += R(a[i]) * b[j];
-- 
2.43.0


From 7d1568b50bc9e55328a6e3bef548e229acb807f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 125/146] fix: SlopeTrick::lines did not compile

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From ac707798bfa3b1c389317ca1dbe50699426e5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 126/146] fix: MonotonicCHT over floating-point values rejected
 negative queries and lost lines of negative slope

---
 library/datastructure/monotonic_convex_hull_trick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 3f067d4..ffd9ad6 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -25,7 +25,7 @@ namespace suisen {
         struct query_impl {};
         template <typename Dummy>
         struct query_impl<inc_query_tag, Dummy> {
-            value_type prev_x = std::numeric_limits<value_type>::min();
+            value_type prev_x = std::numeric_limits<value_type>::lowest();
             value_type operator()(MonotonicCHT* ptr, value_type x) {
                 assert(x >= prev_x);
                 prev_x = x;
@@ -92,7 +92,7 @@ namespace suisen {
         }
     private:
         std::deque<std::pair<value_type, value_type>> lines;
-        value_type max_slope = std::numeric_limits<value_type>::min();
+        value_type max_slope = std::numeric_limits<value_type>::lowest();
         value_type min_slope = std::numeric_limits<value_type>::max();
         query_impl<query_tag> _query{};
 
-- 
2.43.0


From f98997a6a5240bb62c123edb8712ef3444c6e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 127/146] fix: geom/geometry.hpp did not compile (tuple_size
 used before its specializations)

---
 library/geom/geometry.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..0a5805c 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -153,12 +153,12 @@ namespace geometry {
         }
 
         template <size_t I> const std::tuple_element_t<I, Line>& get() const {
-            static_assert(I < std::tuple_size_v<Line>);
+            static_assert(I < 2);
             if constexpr (I == 0) return a;
             else if constexpr (I == 1) return b;
         }
         template <size_t I> std::tuple_element_t<I, Line>& get() {
-            static_assert(I < std::tuple_size_v<Line>);
+            static_assert(I < 2);
             if constexpr (I == 0) return a;
             else if constexpr (I == 1) return b;
         }
@@ -169,12 +169,12 @@ namespace geometry {
         Ray(const Point &from, const Point &to) : a(from), b(to) {}
 
         template <size_t I> const std::tuple_element_t<I, Ray>& get() const {
-            static_assert(I < std::tuple_size_v<Ray>);
+            static_assert(I < 2);
             if constexpr (I == 0) return a;
             else if constexpr (I == 1) return b;
         }
         template <size_t I> std::tuple_element_t<I, Ray>& get() {
-            static_assert(I < std::tuple_size_v<Ray>);
+            static_assert(I < 2);
             if constexpr (I == 0) return a;
             else if constexpr (I == 1) return b;
         }
@@ -185,12 +185,12 @@ namespace geometry {
         Segment(const Point &from, const Point &to) : a(from), b(to) {}
 
         template <size_t I> const std::tuple_element_t<I, Segment>& get() const {
-            static_assert(I < std::tuple_size_v<Segment>);
+            static_assert(I < 2);
             if constexpr (I == 0) return a;
             else if constexpr (I == 1) return b;
         }
         template <size_t I> std::tuple_element_t<I, Segment>& get() {
-            static_assert(I < std::tuple_size_v<Segment>);
+            static_assert(I < 2);
             if constexpr (I == 0) return a;
             else if constexpr (I == 1) return b;
         }
-- 
2.43.0


From 130d3950538524f4073849dc5ceb0226aee602f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 128/146] fix: compare_by_atan2 was not irreflexive at the
 origin, so sorting several zero vectors was undefined

---
 library/integral_geom/sort_points_by_argument.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/sort_points_by_argument.hpp b/library/integral_geom/sort_points_by_argument.hpp
index c6eb062..b5c4e2c 100644
--- a/library/integral_geom/sort_points_by_argument.hpp
+++ b/library/integral_geom/sort_points_by_argument.hpp
@@ -18,8 +18,8 @@ namespace suisen::integral_geometry {
         const auto &[x2, y2] = q;
         if ((y1 < 0) xor (y2 < 0)) return y1 < y2;
         if ((x1 < 0) xor (x2 < 0)) return (y1 >= 0) xor (x1 < x2);
-        if (x1 == 0 and y1 == 0) return true;
         if (x2 == 0 and y2 == 0) return false;
+        if (x1 == 0 and y1 == 0) return true;
         return (MultipliedType(y1) * x2 < MultipliedType(y2) * x1);
     }
     template <typename PointType, typename MultipliedType = long long>
-- 
2.43.0


From 0a16324f5d4428cf5fba01237c920a854ea65a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 129/146] fix: opposite rays with a common origin compared
 equal

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..6c14287 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -123,7 +123,7 @@ namespace suisen::integral_geometry {
         return on_the_same_line(l, m);
     }
     bool operator==(const Ray& l, const Ray& m) {
-        return on_the_same_line(l, m) and l.a == m.a;
+        return on_the_same_line(l, m) and l.a == m.a and dot(l.b - l.a, m.b - m.a) > 0;
     }
     bool operator==(const Segment& l, const Segment& m) {
         return (l.a == m.a and l.b == m.b) or (l.a == m.b and l.b == m.a);
-- 
2.43.0


From eca6c949c5aded35a4e41136ef802f8054c909fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 130/146] fix: opposite rays with a common origin were equal

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 0a5805c..4fb0464 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -332,7 +332,7 @@ namespace geometry {
         return on_the_same_line(l, m);
     }
     bool equals(const Ray &l, const Ray &m) {
-        return on_the_same_line(l, m) and equals(l.a, m.a);
+        return on_the_same_line(l, m) and equals(l.a, m.a) and sgn(dot(l.b - l.a, m.b - m.a)) == Sign::POSITIVE;
     }
     bool equals(const Segment &l, const Segment &m) {
         return (equals(l.a, m.a) and equals(l.b, m.b)) or (equals(l.a, m.b) and equals(l.b, m.a));
-- 
2.43.0


From 263d771e2d3c7d75638258a96483daaf2ec9c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 131/146] fix: count_lattice_points of a clockwise polygon
 subtracted its area

---
 library/integral_geom/count_lattice_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/count_lattice_point.hpp b/library/integral_geom/count_lattice_point.hpp
index 8fa4874..7449cf5 100644
--- a/library/integral_geom/count_lattice_point.hpp
+++ b/library/integral_geom/count_lattice_point.hpp
@@ -17,7 +17,7 @@ namespace suisen::integral_geometry {
             s += MultipliedType(x1) * y2 - MultipliedType(y1) * x2;
             b += std::abs(std::gcd(x2 - x1, y2 - y1));
         }
-        return (s + 2 + b) / 2;
+        return ((s < 0 ? -s : s) + 2 + b) / 2;
     }
 } // namespace suisen::integral_geometry
 
-- 
2.43.0


From 514487347aebeaf851792d3ab6ad3026869a03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 132/146] fix: convex_hull of no points threw (integral_geom)

---
 library/integral_geom/convex_hull.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/integral_geom/convex_hull.hpp b/library/integral_geom/convex_hull.hpp
index d15556f..1551a03 100644
--- a/library/integral_geom/convex_hull.hpp
+++ b/library/integral_geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen::integral_geometry {
     template <typename PointType, typename MultipliedType = long long>
     std::vector<int> convex_hull(const std::vector<PointType> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
-- 
2.43.0


From 27d507b5217042d90bce493860784cf02a8f22e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 133/146] fix: convex_hull of no points threw (geom)

---
 library/geom/convex_hull.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/geom/convex_hull.hpp b/library/geom/convex_hull.hpp
index 6cd809d..b42e52d 100644
--- a/library/geom/convex_hull.hpp
+++ b/library/geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen {
 namespace geometry {
     std::vector<int> convex_hull(const std::vector<Point> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
-- 
2.43.0


From bfd62ad45aae777c7a6d2433eaa147aeb3ee2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 134/146] fix: pIabc returned the incircles of reflected
 triangles instead of the excircles

---
 library/geom/geometry.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 4fb0464..a12135a 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -236,7 +236,14 @@ namespace geometry {
         return a + b + c - 2 * pO(a, b, c).center;
     }
     auto pIabc(const Point &a, const Point &b, const Point &c) {
-        return std::make_tuple(pI(-a, b, c), pI(a, -b, c), pI(a, b, -c));
+        coordinate_t la = abs(b - c), lb = abs(c - a), lc = abs(a - b);
+        coordinate_t s = 2 * area(a, b, c);
+        coordinate_t da = -la + lb + lc, db = la - lb + lc, dc = la + lb - lc;
+        return std::make_tuple(
+            Circle((-la * a + lb * b + lc * c) / da, s / da),
+            Circle((la * a - lb * b + lc * c) / db, s / db),
+            Circle((la * a + lb * b - lc * c) / dc, s / dc)
+        );
     }
 
     // Line
-- 
2.43.0


From 1c34cd2acad1efc50ebff3bc58944f35819f2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 135/146] fix: convex_diameter did not terminate on collinear
 points (integral_geometry)

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 6c14287..94c182a 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -201,7 +201,7 @@ namespace suisen::integral_geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return argmax;
-- 
2.43.0


From bc8f5bd932d15f8f438b6497006104d06a6e3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:52 +0000
Subject: [PATCH 136/146] fix: convex_diameter did not terminate on collinear
 points (geometry)

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index a12135a..401be80 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -449,7 +449,7 @@ namespace geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (coordinate_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return { argmax.first, argmax.second, ::sqrtl(max_dist) };
-- 
2.43.0


From 9e2067beeb11489f33794bebee9bf9fc78f7ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:34 +0000
Subject: [PATCH 137/146] fix: is_convex of a polygon with one vertex read past
 its end (integral_geom)

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 94c182a..694f41e 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -164,7 +164,7 @@ namespace suisen::integral_geometry {
         for (int i = 0; i < sz; ++i) {
             int j = i + 1, k = i + 2;
             if (j >= sz) j -= sz;
-            if (k >= sz) k -= sz;
+            k %= sz;
             int dir = isp(poly[i], poly[j], poly[k]);
             if constexpr (accept_180_degree) {
                 if (dir == ISP::R_CURVE) return false;
-- 
2.43.0


From 68d4a9f6c50ea19c3455d72007925e03bb1c2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:34 +0000
Subject: [PATCH 138/146] fix: is_convex of a polygon with one vertex read past
 its end (geom)

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 401be80..bbb258f 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -411,7 +411,7 @@ namespace geometry {
         for (int i = 0; i < sz; ++i) {
             int j = i + 1, k = i + 2;
             if (j >= sz) j -= sz;
-            if (k >= sz) k -= sz;
+            k %= sz;
             int dir = isp(poly[i], poly[j], poly[k]);
             if constexpr (accept_180_degree) {
                 if (dir == ISP::R_CURVE) return false;
-- 
2.43.0


From 238b3a4fc18ddf0a9583afef176161a07e84512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 139/146] fix: HornSAT counted a variable fixed to false as a
 satisfied premise

---
 library/algorithm/horn_sat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/algorithm/horn_sat.hpp b/library/algorithm/horn_sat.hpp
index 7744be5..8919813 100644
--- a/library/algorithm/horn_sat.hpp
+++ b/library/algorithm/horn_sat.hpp
@@ -40,7 +40,7 @@ class HornSAT {
                 if (not seen[i]) {
                     ans[i] = val;
                     seen[i] = true;
-                    for (const int j : ls[i]) {
+                    if (val) for (const int j : ls[i]) {
                         if (--c[j] == 0) dq.push_back(r[j]);
                     }
                 } else if (val != ans[i]) return has_answer = false;
-- 
2.43.0


From 27cb81ced605828d639b724161723e3e48d52932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 140/146] fix: StaticRangeInversionNumberQuery read out of
 bounds for empty ranges on a block boundary

---
 library/range_query/static_range_inversion_number_query.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/range_query/static_range_inversion_number_query.hpp b/library/range_query/static_range_inversion_number_query.hpp
index 6b11528..4d622a4 100644
--- a/library/range_query/static_range_inversion_number_query.hpp
+++ b/library/range_query/static_range_inversion_number_query.hpp
@@ -37,6 +37,7 @@ namespace suisen {
          * @return Inversion number of (a_l, ..., a_{r-1})
          */
         long long operator()(int l, int r) const {
+            if (l == r) return 0;
             const int bl = l / _block_siz, br = ceil_div(r, _block_siz);
             // [bl][bl+1,...,br-2][br-1]
             if (br - bl == 1) {
-- 
2.43.0


From 032c45685e149ebb33ebc47441ce8bc420a1e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 141/146] fix: StaticRangeModeQuery divided by zero on an empty
 sequence

---
 library/range_query/static_range_mode_query.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/range_query/static_range_mode_query.hpp b/library/range_query/static_range_mode_query.hpp
index c7a0aa7..89342ca 100644
--- a/library/range_query/static_range_mode_query.hpp
+++ b/library/range_query/static_range_mode_query.hpp
@@ -10,7 +10,7 @@ namespace suisen {
     template <typename T>
     struct StaticRangeModeQuery {
         StaticRangeModeQuery() = default;
-        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(::sqrt(_len)), _block_num(_cld(_len, _block_size)) {
+        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(std::max(1, int(::sqrt(_len)))), _block_num(_cld(_len, _block_size)) {
             // Computing the mapping from compressed values to original values
             _sorted = a;
             std::sort(_sorted.begin(), _sorted.end());
-- 
2.43.0


From 1ab9f830dd67344a045dfd05e1f5887ef38b167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 142/146] fix: RangeXoredMexQuery shifted by the full width of
 the type with the default bit_num

---
 library/range_query/static_range_xored_mex_query.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..fbf7f89 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -56,8 +56,10 @@ namespace suisen {
 
         // returns mex { A_i ^ x | l <= i < r }
         T minimum_excluded(int l, int r, T x) const {
-            if (x >> bit_num) return 0;
-            if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) {
+                if (x >> bit_num) return 0;
+                if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            }
             T res = 0;
             for (int log = bit_num - 1; log >= 0; --log) {
                 bool z = (x >> log) & 1;
-- 
2.43.0


From b1c3260dcf650bf9f22f31a4bd3a8d2862e89ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 143/146] fix: ZDD::max_len_item dropped the top item of
 families without the 0-branch

---
 library/datastructure/ZDD.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index dc6f27d..e59a490 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -262,8 +262,8 @@ namespace suisen {
 
             auto res0 = max_len_item(f[0]);
             auto res1 = max_len_item(f[1]);
+            if (res1.has_value()) res1->push_back(f.top());
             if (res0.has_value() and res1.has_value()) {
-                res1->push_back(f.top());
                 return register_result(cache, res0->size() > res1->size() ? res0 : res1, f.id);
             } else if (res0.has_value()) {
                 return register_result(cache, res0, f.id);
-- 
2.43.0


From ed55fa7f8878f395fc3bdeb08a451a3113c8cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 144/146] fix: Affine declared operator<< on istream and
 operator>> on ostream

---
 library/algebra/monoid/affine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..178d9a9 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -49,8 +49,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
-- 
2.43.0


From 5d275aaa63563d174dfeb6cfd6032cf459b97874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 145/146] fix: AffineClamp declared operator<< on istream and
 operator>> on ostream

---
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From 128b3931988c7e791ab906b011058c2f14beb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:17 +0000
Subject: [PATCH 146/146] fix: OutputStream negated the smallest __int128 in
 signed arithmetic

---
 library/io/output_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/io/output_stream.hpp b/library/io/output_stream.hpp
index dd07933..0228bad 100644
--- a/library/io/output_stream.hpp
+++ b/library/io/output_stream.hpp
@@ -33,7 +33,7 @@ namespace suisen::io {
         }
         void _print(__int128_t value) {
             if (value < 0) *this << '-';
-            _print(__uint128_t(value < 0 ? -value : value));
+            _print(value < 0 ? -__uint128_t(value) : __uint128_t(value));
         }
         template <typename T, typename U>
         void _print(const std::pair<T, U>& a) { *this << a.first << ' ' << a.second; }
-- 
2.43.0

