From 7c5071ee5c7714ca2fd55e64a0bcf89781a4d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 01/13] fix: keep include mask in sync when pos counter
 saturates in bitwise Type I feedback

---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..9f761e2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From b03e7bdc5310ed46fee38dac1a224f50c64a222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 02/13] fix: reset clause weights when a weighted estimator is
 fitted again

---
 lib/src/ta_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..9301ba3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -67,7 +67,7 @@ TAState::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
@@ -114,7 +114,7 @@ TAStateWithPolarity::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
-- 
2.43.0


From dccfca8004720d771f92cc1df07c3708d54ee270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 03/13] fix: report ill-typed parameter values in JSON as
 S_BAD_JSON instead of throwing

---
 lib/src/tsetlini_params.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..4c0b715 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -127,6 +127,7 @@ assert_json_dictionary(json const & js)
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
+try
 {
     params_t rv;
 
@@ -182,6 +183,10 @@ json_to_params(json const & js)
 
     return Either<status_message_t, params_t>::rightOf(rv);
 }
+catch (const std::exception & ex)
+{
+    return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, ex.what()});
+}
 
 
 static
-- 
2.43.0


From 8dc2f6c4d4cd36d0fa13793bacfb28605ffb0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 04/13] fix: reject single-label and unrepresentable label sets
 in classifier fit

With one label the draw of the opposite label divides by zero, and the
number of labels cannot be represented when the highest label is INT_MAX.
---
 lib/src/tsetlini.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..3c94fb2 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -29,6 +29,7 @@
 #include <string>
 #include <numeric>
 #include <cstddef>
+#include <limits>
 #include <memory>
 
 
@@ -153,17 +154,6 @@ status_message_t check_response_y(response_vector_type const & y, threshold_t co
 }
 
 
-status_message_t check_labels(std::unordered_set<label_type> const & labels)
-{
-    if (*std::min_element(labels.cbegin(), labels.cend()) < 0)
-    {
-        return {StatusCode::S_VALUE_ERROR, "Labels in y cannot be negative"};
-    }
-
-    return {StatusCode::S_OK, ""};
-}
-
-
 status_message_t check_labels(std::unordered_set<label_type> const & labels, int max_label)
 {
     auto [lo, hi] = std::minmax_element(labels.cbegin(), labels.cend());
@@ -752,14 +742,20 @@ fit_classifier_impl(
 
     auto const labels = unique_labels(y);
 
+    if (auto sm = check_labels(labels, std::numeric_limits<label_type>::max() - 1);
+        sm.first != StatusCode::S_OK)
+    {
+        return sm;
+    }
+
     int const number_of_labels = std::max(
         *std::max_element(labels.cbegin(), labels.cend()) + 1,
         value_of(max_number_of_labels));
 
-    if (auto sm = check_labels(labels);
-        sm.first != StatusCode::S_OK)
+    if (number_of_labels < 2)
     {
-        return sm;
+        return {StatusCode::S_VALUE_ERROR,
+            "Classifier requires at least two labels"};
     }
 
     // Let it crash for now
-- 
2.43.0


From 1d9c2571855fed5aa0ff73bf2f3d216c11c460bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 05/13] fix: validate model and input in classifier evaluate

---
 lib/src/tsetlini.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 3c94fb2..4fac856 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -386,7 +386,18 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+
+    if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From 21b1bcff8de7d1644a1159acc7a59a0c480df4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 06/13] fix: save and load the state of an estimator that is
 not fitted yet

---
 lib/src/tsetlini_state.cpp      | 9 +++++++++
 lib/src/tsetlini_state_json.cpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini_state.cpp b/lib/src/tsetlini_state.cpp
index 7ca7b6d..f602c40 100644
--- a/lib/src/tsetlini_state.cpp
+++ b/lib/src/tsetlini_state.cpp
@@ -255,6 +255,15 @@ template void initialize_state<RegressorStateBitwise>(RegressorStateBitwise & st
 template<typename EstimatorStateType>
 void reset_state_cache(EstimatorStateType & state)
 {
+    bool const is_fitted = std::visit([](auto const & matrix){ return matrix.rows() != 0; }, state.ta_state.matrix);
+
+    if (not is_fitted)
+    {
+        // cache of an estimator that has not been fitted yet is empty
+        state.cache = {};
+        return;
+    }
+
     EstimatorStateType::cache_type::reset(state.cache, state.m_params);
 }
 
diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47b92cb..51193aa 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -101,7 +101,7 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     j.at("width").get_to(width);
 
     auto const nr = j.at("data").size();
-    auto const nc = j.at("data")[0].size();
+    auto const nc = nr != 0 ? j.at("data")[0].size() : 0;
 
     if (width == 1)
     {
-- 
2.43.0


From 5314c90348fd84e98e389b64715a2d9c558bbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 07/13] fix: check padding bits of bit vectors whose storage
 exceeds their content

---
 lib/src/tsetlini.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 4fac856..f3f7733 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -71,17 +71,19 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
-
-    if (padding_nbits != 0)
+    if (auto const tail_nbits = vec.tail_bits();
+        tail_nbits != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = block_type(-1) << tail_nbits;
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((vec.m_vector[vec.content_blocks() - 1] & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    return std::all_of(vec.m_vector.cbegin() + vec.content_blocks(), vec.m_vector.cend(),
+        [](block_type block){ return block == 0; });
 }
 
 
-- 
2.43.0


From f6a0bb47141bdeda22b0cf261eff4bb8ea7adc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 08/13] fix: make berHu loss continuous and non-negative beyond
 its C1 breakpoint

---
 lib/src/loss_fn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/loss_fn.cpp b/lib/src/loss_fn.cpp
index 9ff1c75..44e2c28 100644
--- a/lib/src/loss_fn.cpp
+++ b/lib/src/loss_fn.cpp
@@ -35,7 +35,7 @@ std::function<float(float)> make_loss_fn(loss_fn_name_t const & name, loss_fn_C1
                 }
                 else
                 {
-                    return x * x - value_of(C1 * C1 + C1);
+                    return x * x - value_of(C1 * C1 - C1);
                 }
             };
     }
-- 
2.43.0


From e463f4ecf1152c0acb96973ea4f4253807acb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 09/13] fix: treat negative draws of approximated binomial as
 zero instead of n

---
 lib/src/box_muller_approx.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..664ea1a 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,15 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    // clamp before the conversion, since the draw can be negative or exceed n
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
 
-    return std::clamp(rv, 0u, n);
+    if (rv >= n)
+    {
+        return n;
+    }
+
+    return rv > 0.f ? static_cast<unsigned int>(rv) : 0u;
 }
 
 
-- 
2.43.0


From fc83b17a976cbbe9c5d9c25cb5e73b0479886ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 10/13] fix: avoid out-of-range float to integer conversion of
 regressor feedback hits

---
 lib/src/tsetlini_algo_bitwise.hpp | 7 +++----
 lib/src/tsetlini_algo_classic.hpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 9f761e2..20cae9e 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -1041,10 +1041,9 @@ void train_regressor_automata(
     unsigned int const feedback_hits = box_muller == true
         ? binomial(N, P, prng)
         :
-        std::clamp<unsigned int>(
-            N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
-            0, N
-        );
+        // clamp before the conversion, since N * P need not be representable
+        N * P >= N ? N :
+        N * P >= 0.5 ? std::min<unsigned int>(std::round(N * P), N) : prng() < N * P * static_cast<double>(IRNG::max()); // 0xffff'ffff when converted to float changes to 0x1'0000'0000
 
     for (unsigned int idx = 0; idx < feedback_hits; ++idx)
     {
diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..f748649 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -783,10 +783,9 @@ void train_regressor_automata(
     unsigned int const feedback_hits = box_muller == true
         ? binomial(N, P, prng)
         :
-        std::clamp<unsigned int>(
-            N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
-            0, N
-        );
+        // clamp before the conversion, since N * P need not be representable
+        N * P >= N ? N :
+        N * P >= 0.5 ? std::min<unsigned int>(std::round(N * P), N) : prng() < N * P * static_cast<double>(IRNG::max()); // 0xffff'ffff when converted to float changes to 0x1'0000'0000
 
     for (unsigned int idx = 0; idx < feedback_hits; ++idx)
     {
-- 
2.43.0


From bd31e763fc511c626de4f1c0bba96e23a4598358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 11/13] fix: avoid integer overflow of large thresholds in
 classifier feedback

---
 lib/src/tsetlini_algo_classic.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index f748649..b51ab81 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,12 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // 64-bit, since sums of thresholds and votes need not fit in int
+    std::int64_t const T = value_of(threshold);
+
+    const auto THR2_inv = (ONE / (T * 2));
+    const auto THR_pos = THR2_inv * (T - target_label_votes);
+    const auto THR_neg = THR2_inv * (T + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 6d5df2554eddadad2ec29633b5e3cdf91b088183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:35 +0000
Subject: [PATCH 12/13] fix: avoid more hits than features in a round of coin
 tosses

---
 lib/src/coin_tosser_exact.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coin_tosser_exact.hpp b/lib/src/coin_tosser_exact.hpp
index 333a96f..896686a 100644
--- a/lib/src/coin_tosser_exact.hpp
+++ b/lib/src/coin_tosser_exact.hpp
@@ -66,7 +66,8 @@ CoinTosserExact::CoinTosserExact()
 
 CoinTosserExact::CoinTosserExact(real_type s_inv, unsigned int size)
     : m_s_inv(s_inv)
-    , m_hits_floor(std::floor(size * s_inv))
+    // with 2^24 features and above size * s_inv may get rounded above size
+    , m_hits_floor(std::min(static_cast<unsigned int>(std::floor(size * s_inv)), size))
     , m_hits_ceil_threshold(
         std::round(static_cast<double>(s_inv * size - std::floor(s_inv * size)) * std::numeric_limits<std::uint32_t>::max()))
     , m_cache1(size)
-- 
2.43.0


From 9375c5a5f10179b07b5e2305e706052a67ea71b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:35 +0000
Subject: [PATCH 13/13] fix: leave the caller's named arguments intact when
 creating an estimator

---
 lib/include/tsetlini.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/include/tsetlini.hpp b/lib/include/tsetlini.hpp
index ca38683..50b0a08 100644
--- a/lib/include/tsetlini.hpp
+++ b/lib/include/tsetlini.hpp
@@ -120,7 +120,7 @@ struct ClassifierClassic
     friend Either<status_message_t, ClassifierClassic> make_classifier_classic_from_json(std::string const & json_params);
 
     template<typename ...Args>
-    friend Either<status_message_t, ClassifierClassic> make_classifier_classic(Args && ...args);
+    friend Either<status_message_t, ClassifierClassic> make_classifier_classic(Args const & ...args);
 
 
 private:
@@ -144,7 +144,7 @@ Either<status_message_t, ClassifierClassic> make_classifier_classic_from_json(st
 
 
 template<typename ...Args>
-Either<status_message_t, ClassifierClassic> make_classifier_classic(Args && ...args)
+Either<status_message_t, ClassifierClassic> make_classifier_classic(Args const & ...args)
 {
     static_assert(meta::is_subset_of<
         std::tuple<
@@ -258,7 +258,7 @@ struct RegressorClassic
     friend Either<status_message_t, RegressorClassic> make_regressor_classic_from_json(std::string const & json_params);
 
     template<typename ...Args>
-    friend Either<status_message_t, RegressorClassic> make_regressor_classic(Args && ...args);
+    friend Either<status_message_t, RegressorClassic> make_regressor_classic(Args const & ...args);
 
 
 private:
@@ -290,7 +290,7 @@ Either<status_message_t, RegressorClassic> make_regressor_classic_from_json(std:
 
 
 template<typename ...Args>
-Either<status_message_t, RegressorClassic> make_regressor_classic(Args && ...args)
+Either<status_message_t, RegressorClassic> make_regressor_classic(Args const & ...args)
 {
     static_assert(meta::is_subset_of<
         std::tuple<
@@ -425,7 +425,7 @@ struct ClassifierBitwise
     friend Either<status_message_t, ClassifierBitwise> make_classifier_bitwise_from_json(std::string const & json_params);
 
     template<typename ...Args>
-    friend Either<status_message_t, ClassifierBitwise> make_classifier_bitwise(Args && ...args);
+    friend Either<status_message_t, ClassifierBitwise> make_classifier_bitwise(Args const & ...args);
 
 
 private:
@@ -448,7 +448,7 @@ Either<status_message_t, ClassifierBitwise> make_classifier_bitwise_from_json(st
 
 
 template<typename ...Args>
-Either<status_message_t, ClassifierBitwise> make_classifier_bitwise(Args && ...args)
+Either<status_message_t, ClassifierBitwise> make_classifier_bitwise(Args const & ...args)
 {
     static_assert(meta::is_subset_of<
         std::tuple<
@@ -563,7 +563,7 @@ struct RegressorBitwise
     friend Either<status_message_t, RegressorBitwise> make_regressor_bitwise_from_json(std::string const & json_params);
 
     template<typename ...Args>
-    friend Either<status_message_t, RegressorBitwise> make_regressor_bitwise(Args && ...args);
+    friend Either<status_message_t, RegressorBitwise> make_regressor_bitwise(Args const & ...args);
 
 
 private:
@@ -595,7 +595,7 @@ Either<status_message_t, RegressorBitwise> make_regressor_bitwise_from_json(std:
 
 
 template<typename ...Args>
-Either<status_message_t, RegressorBitwise> make_regressor_bitwise(Args && ...args)
+Either<status_message_t, RegressorBitwise> make_regressor_bitwise(Args const & ...args)
 {
     static_assert(meta::is_subset_of<
         std::tuple<
-- 
2.43.0

