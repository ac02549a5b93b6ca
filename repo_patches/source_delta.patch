From 0dbf21a1d2a6e3acf02d741869f213c8b2a8eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 01/24] fix: keep one component per stored entry when
 evaluating sums of runtime-defined basis blades

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..e778d4a 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -358,13 +358,32 @@ namespace ga {
             > {
         };
 
+        // Addition of evaluated expressions. The addition of components keeps every component, in the given order, because there is one stored entry for each one of them (components having different runtime-defined basis blades become of the same type after being evaluated).
+        template<typename LeftExpression, typename RightExpression>
+        struct evaluated_addition {
+            using type = addition_t<LeftExpression, RightExpression>; // default
+        };
+
+        template<typename LeftExpression, typename RightExpression>
+        using evaluated_addition_t = typename evaluated_addition<LeftExpression, RightExpression>::type;
+
+        template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
+        struct evaluated_addition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > {
+            using type = add<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> >;
+        };
+
+        template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
+        struct evaluated_addition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > {
+            using type = add<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade>, RightNextArguments...>;
+        };
+
         //TODO Not supported yet (map)
         template<tag_t LowerTag, tag_t UpperTag, typename Argument, typename... NextArguments>
         struct eval_clifford_expression<LowerTag, UpperTag, add<Argument, NextArguments...> > :
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
             > {
         };
 
@@ -374,7 +393,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
             > {
         };
 
-- 
2.43.0


From f762869accad8795ec8137bdb5b47431dec56fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 02/24] fix: terminate the static assertions on user-defined
 default tolerances

---
 cpp/include/gatl/ga/core/default_tolerance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/default_tolerance.hpp b/cpp/include/gatl/ga/core/default_tolerance.hpp
index cfbf2c2..d0963eb 100644
--- a/cpp/include/gatl/ga/core/default_tolerance.hpp
+++ b/cpp/include/gatl/ga/core/default_tolerance.hpp
@@ -27,13 +27,13 @@
 #ifndef GA_DEFAULT_FLT_TOLERANCE
     #define GA_DEFAULT_FLT_TOLERANCE 1.0e-8f
 #else
-    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_FLT_TOLERANCE
 
 #ifndef GA_DEFAULT_DBL_TOLERANCE
     #define GA_DEFAULT_DBL_TOLERANCE 1.0e-8
 #else
-    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_DBL_TOLERANCE
 
 namespace ga {
-- 
2.43.0


From 8c3a9b72d7b7bb0958c8e19c3c67d53bde2af62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 03/24] fix: keep copies of the inputs of a lazy context, so
 that it can be made from temporaries

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index e778d4a..ed4e286 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -539,7 +539,7 @@ namespace ga {
 
         private:
 
-            input_type const &input_;
+            input_type const input_;
         };
 
         template<std::size_t ReverseIndex, typename InputCoefficientType, typename InputExpression>
-- 
2.43.0


From 94eb841ba9a867437f232fdc2eacac6e1eaa2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 04/24] fix: order functions having different constant bitsets
 as arguments, so that multivectors can be multiplied by runtime-defined basis
 blades

---
 cpp/include/gatl/ga/core/expression_relational_operators.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/include/gatl/ga/core/expression_relational_operators.hpp b/cpp/include/gatl/ga/core/expression_relational_operators.hpp
index 10fa9d5..2fe62ba 100644
--- a/cpp/include/gatl/ga/core/expression_relational_operators.hpp
+++ b/cpp/include/gatl/ga/core/expression_relational_operators.hpp
@@ -470,6 +470,11 @@ namespace ga {
             > {
         };
 
+        template<bitset_t LeftBitset, typename LeftNextArgument, typename... LeftOtherArguments, bitset_t RightBitset, typename RightNextArgument, typename... RightOtherArguments>
+        struct lt<_arguments_list<constant_bitset<LeftBitset>, LeftNextArgument, LeftOtherArguments...>, _arguments_list<constant_bitset<RightBitset>, RightNextArgument, RightOtherArguments...> > :
+            std::bool_constant<(lt_v<_arguments_list<LeftNextArgument, LeftOtherArguments...>, _arguments_list<RightNextArgument, RightOtherArguments...> > || (eq_v<_arguments_list<LeftNextArgument, LeftOtherArguments...>, _arguments_list<RightNextArgument, RightOtherArguments...> > && LeftBitset < RightBitset))> {
+        };
+
         template<typename LeftArgument, typename RightArgument, typename... RightNextArguments>
         struct lt<_arguments_list<LeftArgument>, _arguments_list<RightArgument, RightNextArguments...> > :
             std::conditional_t<
-- 
2.43.0


From b2b28c86910f8ef957c9dd9ece808d61c82e448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 05/24] fix: evaluate if_else expressions whose operands are
 tests simplified to constants

---
 cpp/include/gatl/ga/core/expression.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..d263261 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -797,6 +797,23 @@ namespace ga {
             std::false_type { // simplify
         };
 
+        // Evaluates an operand of if_else<Test, TrueValue, FalseValue>. It may be a simplified test, i.e., std::true_type or std::false_type.
+        template<typename Value>
+        struct _eval_if_else_operand {
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) run(std::tuple<InputTypes...> const &args) {
+                return Value::template eval<LowerTag, UpperTag>(args);
+            }
+        };
+
+        template<bool Value>
+        struct _eval_if_else_operand<std::bool_constant<Value> > {
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static bool run(std::tuple<InputTypes...> const &) {
+                return Value;
+            }
+        };
+
         // Specializations of if_else<Test, TrueValue, FalseValue>.
         template<typename Test, typename TrueValue, typename FalseValue>
         struct function<name_t::if_else, Test, TrueValue, FalseValue> {
@@ -808,7 +825,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return Test::template eval<LowerTag, UpperTag>(args) ? TrueValue::template eval<LowerTag, UpperTag>(args) : FalseValue::template eval<LowerTag, UpperTag>(args);
+                return Test::template eval<LowerTag, UpperTag>(args) ? _eval_if_else_operand<TrueValue>::template run<LowerTag, UpperTag>(args) : _eval_if_else_operand<FalseValue>::template run<LowerTag, UpperTag>(args);
             }
         };
 
-- 
2.43.0


From e0d7b11a85830323023272036d860bffcccf21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 06/24] fix: do not assume non-negative bases when simplifying
 powers of products and powers of powers

---
 .../core/expression_simplification_power.hpp  | 69 ++++++++++++++-----
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..1ccdd0f 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -305,37 +305,74 @@ namespace ga {
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
-            // Default (bind)
-            template<typename LeftExpression, typename RightExpression>
-            struct condition :
+            // Returns whether the given exponent is an integer value.
+            template<typename Exponent>
+            struct is_integer :
+                std::false_type {
+            };
+
+            template<default_integral_t Value>
+            struct is_integer<constant_value<Value> > :
                 std::true_type {
             };
 
+            // Possible results
             template<typename LeftExpression, typename RightExpression>
-            struct result {
+            struct bind {
                 using type = power<LeftExpression, RightExpression>;
             };
 
-            // (A * ...)^{B} => A^{B} * (...)^{C}
-            template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
-            struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
-                std::true_type {
+            template<typename LeftLeftExpression, typename LeftRightExpression, typename RightExpression>
+            struct distribute {
+                using type = product_t<power_t<LeftLeftExpression, RightExpression>, power_t<LeftRightExpression, RightExpression>, value_mapping>;
             };
 
-            template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
-            struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> {
-                using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+            template<typename LeftLeftExpression, typename LeftRightExpression, typename RightExpression>
+            struct multiply {
+                using type = power_t<LeftLeftExpression, product_t<LeftRightExpression, RightExpression, value_mapping> >;
             };
 
-            // (A^{B})^{C} = A^{B * C} (simplify)
-            template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
-            struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
+            template<typename LeftLeftExpression, typename LeftRightExpression, typename RightExpression>
+            struct multiply_absolute {
+                using type = power_t<absolute_t<LeftLeftExpression>, product_t<LeftRightExpression, RightExpression, value_mapping> >;
+            };
+
+            // Default (bind)
+            template<typename LeftExpression, typename RightExpression>
+            struct condition :
                 std::true_type {
             };
 
+            template<typename LeftExpression, typename RightExpression>
+            struct result :
+                bind<LeftExpression, RightExpression> {
+            };
+
+            // (A * ...)^{B} => A^{B} * (...)^{B}, for integer B, or non-negative A, or non-negative (...), or B = 1/3
+            // (A * ...)^{B} => (A * ...)^{B}, otherwise (bind), because both A and (...) may be negative
+            template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
+            struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
+                std::conditional_t<
+                    is_integer<RightExpression>::value || is_non_negative_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> > || std::is_same_v<RightExpression, power<constant_value<3>, constant_value<-1> > >,
+                    distribute<LeftArgument, mul_t<LeftNextArguments...>, RightExpression>,
+                    bind<mul<LeftArgument, LeftNextArguments...>, RightExpression>
+                > {
+            };
+
+            // (A^{B})^{C} => A^{B * C}, for integer C, or non-negative A, or odd B, or B = 1/2 (simplify)
+            // (A^{B})^{C} => |A|^{B * C}, for even B (simplify)
+            // (A^{B})^{C} => (A^{B})^{C}, otherwise (bind)
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
-            struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
-                using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+            struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
+                std::conditional_t<
+                    is_integer<RightExpression>::value || is_non_negative_v<LeftLeftArgument> || (is_integer<LeftRightArgument>::value && !is_even_v<LeftRightArgument>) || std::is_same_v<LeftRightArgument, power<constant_value<2>, constant_value<-1> > >,
+                    multiply<LeftLeftArgument, LeftRightArgument, RightExpression>,
+                    std::conditional_t<
+                        is_integer<LeftRightArgument>::value,
+                        multiply_absolute<LeftLeftArgument, LeftRightArgument, RightExpression>,
+                        bind<power<LeftLeftArgument, LeftRightArgument>, RightExpression>
+                    >
+                > {
             };
         };
 
-- 
2.43.0


From bb4a6196b246068324d244dafae672c34f9feb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 07/24] fix: do not divide integer coefficients as integers,
 nor take the signs of basis blade reordering as non-negative

---
 cpp/include/gatl/ga/core/expression.hpp        | 2 +-
 cpp/include/gatl/ga/core/expression_traits.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index d263261..0d8e3be 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1088,7 +1088,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..a0df463 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -344,7 +344,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From 3a212e1f19ca73a68ecacfc94bb2f57e5c00c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 08/24] fix: give compile-time defined values that are not
 integers a floating-point coefficient type

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index ed4e286..02cd9d2 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -325,9 +325,24 @@ namespace ga {
             _eval_clifford_expression_move<LowerTag, UpperTag, dynamic_basis_blade_t<PossibleGrades, eval_expression_t<LowerTag, UpperTag, Bitset> >, Bitset> {
         };
 
+        // Returns the type of the value of the given coefficient when it is a compile-time defined value (e.g., the floating-point type for 1/3), or default_integral_t otherwise.
+        template<typename Coefficient, bool IsConstant = is_constant_expression_v<Coefficient> && can_be_stored_v<Coefficient> >
+        struct _eval_constant_coefficient {
+            using type = default_integral_t;
+        };
+
+        template<typename Coefficient>
+        struct _eval_constant_coefficient<Coefficient, true> {
+            using type = std::decay_t<decltype(Coefficient::template eval<0, 0>(std::declval<std::tuple<> >()))>;
+        };
+
         template<tag_t LowerTag, tag_t UpperTag, typename Coefficient, typename BasisBlade>
         struct eval_clifford_expression<LowerTag, UpperTag, component<Coefficient, BasisBlade> > :
             _eval_clifford_expression_move<LowerTag, UpperTag, component_t<eval_expression_t<LowerTag, UpperTag, Coefficient>, eval_expression_t<LowerTag, UpperTag, BasisBlade> >, Coefficient, BasisBlade> {
+            template<typename... InputTypes>
+            struct coefficient_type {
+                using type = std::common_type_t<typename eval_clifford_expressions<LowerTag, UpperTag, Coefficient, BasisBlade>::template coefficient_type<InputTypes...>::type, typename _eval_constant_coefficient<eval_expression_t<LowerTag, UpperTag, Coefficient> >::type>;
+            };
         };
 
         //TODO Not supported yet (map)
@@ -506,7 +521,7 @@ namespace ga {
 
         template<tag_t LowerTag, tag_t UpperTag, typename CoefficientType, typename Expression, typename... InputTypes, std::enable_if_t<(LowerTag > UpperTag), int> = 0>
         GA_ALWAYS_INLINE constexpr static decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &, std::tuple<InputTypes...> const &) {
-            return clifford_expression<CoefficientType, Expression>();
+            return clifford_expression<std::common_type_t<CoefficientType, eval_coefficient_t<LowerTag, UpperTag, Expression> >, Expression>();
         }
 
         // Superclass for ga::lazy_context<InputTypes...>.
-- 
2.43.0


From 5836ced0ed6c1bf84130b16ab68fc1f12fb5f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 09/24] fix: exponentials of blades that square to zero
 whatever their coefficients are

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..ab830af 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -35,10 +35,14 @@ namespace ga {
 
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
-        using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+
+        constexpr bool is_null_blade = std::is_same_v<squared_alpha_value, detail::constant_value<0> >; // the blade squares to zero whatever the values of its coefficients are
+
+        using alpha_value = detail::power_t<std::conditional_t<is_null_blade, detail::constant_value<1>, squared_alpha_value>, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using is_zero_value = detail::less_or_equal_t<squared_alpha_value, std::conditional_t<is_null_blade, detail::constant_value<0>, tolerance_value> >;
 
         using scalar_coefficient_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            is_zero_value,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
@@ -48,7 +52,7 @@ namespace ga {
         >;
 
         using blade_weight_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            is_zero_value,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
-- 
2.43.0


From 187e8c6c7090a122f91855a6418f7e8d86556ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 10/24] fix: join of blades with constant components or with
 pseudoscalars

---
 cpp/include/gatl/ga/core/trivial_copy.hpp     | 29 +++++++++++++++++++
 .../gatl/ga/extra/fast_meet_and_join.hpp      | 12 ++++----
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..8122079 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -372,6 +372,20 @@ namespace ga {
             }
         };
 
+        template<typename InputConstantCoefficient, bitset_t BasisVectors>
+        struct _trivial_check_zero<component<InputConstantCoefficient, constant_basis_blade<BasisVectors> > > {
+            static_assert(is_constant_expression_v<InputConstantCoefficient>, "Constant expression expected.");
+
+            template<typename InputValueItr, typename InputBitsetItr, typename InputMapItr, typename ToleranceType>
+            GA_ALWAYS_INLINE constexpr static void run(InputValueItr const &, InputBitsetItr const &, InputMapItr const &, ToleranceType const &tol) {
+                using std::abs;
+                auto const value = InputConstantCoefficient::template eval<0, 0>(std::make_tuple());
+                if (abs(value) > (std::remove_cv_t<decltype(value)>)tol) {
+                    throw bad_checked_copy_exception();
+                }
+            }
+        };
+
         template<bitset_t BasisVectors>
         struct _trivial_check_zero<component<stored_value, constant_basis_blade<BasisVectors> > > {
             template<typename InputValueItr, typename InputBitsetItr, typename InputMapItr, typename ToleranceType>
@@ -384,6 +398,21 @@ namespace ga {
             }
         };
 
+        template<typename InputConstantCoefficient, bitset_t PossibleGrades>
+        struct _trivial_check_zero<component<InputConstantCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> > > {
+            static_assert(is_constant_expression_v<InputConstantCoefficient>, "Constant expression expected.");
+
+            template<typename InputValueItr, typename InputBitsetItr, typename InputMapItr, typename ToleranceType>
+            GA_ALWAYS_INLINE constexpr static void run(InputValueItr const &, InputBitsetItr &input_bitset_itr, InputMapItr const &, ToleranceType const &tol) {
+                using std::abs;
+                auto const value = InputConstantCoefficient::template eval<0, 0>(std::make_tuple());
+                if (abs(value) > (std::remove_cv_t<decltype(value)>)tol) {
+                    throw bad_checked_copy_exception();
+                }
+                std::advance(input_bitset_itr, 1);
+            }
+        };
+
         template<bitset_t PossibleGrades>
         struct _trivial_check_zero<component<stored_value, dynamic_basis_blade<PossibleGrades, stored_bitset> > > {
             template<typename InputValueItr, typename InputBitsetItr, typename InputMapItr, typename ToleranceType>
diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index f30b8c8..12db8b8 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -77,7 +77,7 @@ namespace ga {
                 ++current_stored_index;
             });
 
-            largest_type largest(typename largest_type::value_storage_type{}, rhs.bitsets(), typename largest_type::map_storage_type{});
+            largest_type largest(typename largest_type::value_storage_type{}, typename largest_type::bitset_storage_type(rhs.bitsets()), typename largest_type::map_storage_type{});
             *(largest.values().begin() + largest_index) = 1;
 
             auto const inv_largest = reverse(largest);
@@ -88,10 +88,12 @@ namespace ga {
 
                 auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
 
-                if (!is_zero(next_join, tol)) {
-                    checked_trivial_copy(unit(next_join, em), join, tol);
-                    ++current_grade_join;
-                    keep_going = current_grade_join <= N;
+                if constexpr (!std::is_same_v<typename std::remove_cv_t<decltype(next_join)>::expression_type, component_t<constant_value<0>, constant_basis_blade<bitset_t(0)> > >) { // it is always zero for pseudoscalars
+                    if (!is_zero(next_join, tol)) {
+                        checked_trivial_copy(unit(next_join, em), join, tol);
+                        ++current_grade_join;
+                        keep_going = current_grade_join <= N;
+                    }
                 }
             });
 
-- 
2.43.0


From d8df53cfaa5458818560ff3c9f9b8d4719ba3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 11/24] fix: converting constructors of clifford_expression
 throw, and do not take over the copies of non-const expressions

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 6 +++---
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..c1479b7 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,12 +697,12 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
-        template<typename... StorageTypes>
+        template<typename... StorageTypes, std::enable_if_t<!std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<StorageTypes> > > >...>, int> = 0>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
             super(std::move(args)...) {
         }
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index 8122079..f99134a 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -507,7 +507,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -515,7 +515,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From 238c815e9c38fdf521ed9af14d24aea1bcd081b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 12/24] fix: vector() accepts scalar lvalues, constants among
 other coordinates and mixed coefficient types

---
 cpp/include/gatl/ga/util/vector.hpp | 65 ++++++++++-------------------
 1 file changed, 23 insertions(+), 42 deletions(-)

diff --git a/cpp/include/gatl/ga/util/vector.hpp b/cpp/include/gatl/ga/util/vector.hpp
index bb275b4..e1d6b9b 100644
--- a/cpp/include/gatl/ga/util/vector.hpp
+++ b/cpp/include/gatl/ga/util/vector.hpp
@@ -77,61 +77,42 @@ namespace ga {
             static_assert(is_scalar_component_v<Expression>, "The given coordinate is not defined as a scalar value in compilation time.");
         };
 
-        // Helper structures to build a sequential storage of vector coordinates.
-        struct make_vector_sequential_storage_simple {
-            template<typename... Types>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return make_sequential_storage(std::move(coords)...);
-            }
-        };
-
-        struct make_vector_sequential_storage_not_simple {
+        // Helper structure to build a sequential storage of vector coordinates.
+        template<typename ValueType>
+        struct make_vector_sequential_storage {
         private:
 
-            template<typename ValueType, std::size_t Size, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
-                return std::tie(std::get<Indices>(std::move(values))...);
-            }
-
-            template<typename ValueType, std::size_t Size>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values) GA_NOEXCEPT {
-                return to_values_tuple(std::move(values), std::make_index_sequence<Size>{});
+            template<typename CoordinateType, std::enable_if_t<!is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<CoordinateType> > >, int> = 0>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(CoordinateType &&coord) GA_NOEXCEPT {
+                return std::tuple<ValueType>(static_cast<ValueType>(std::forward<CoordinateType>(coord)));
             }
 
-            template<typename ValueType>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, 0> &&) GA_NOEXCEPT {
-                return std::make_tuple();
+            template<typename CoefficientType, typename Coefficient>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &coord) GA_NOEXCEPT {
+                if constexpr (count_stored_values_v<Coefficient> != 0) {
+                    return to_values_tuple(coord.values().cbegin(), std::make_index_sequence<count_stored_values_v<Coefficient> >{});
+                }
+                else {
+                    return std::tuple<>();
+                }
             }
 
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple() GA_NOEXCEPT {
-                return std::make_tuple();
-            }
-
-            template<typename CoordinateType, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateType &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(std::make_tuple(std::move(coord)), make_values_tuple(std::move(next_coords)...));
-            }
-
-            template<typename CoefficientType, typename Coefficient, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
+            template<typename IteratorType, std::size_t... Indices>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(IteratorType begin, std::index_sequence<Indices...>) GA_NOEXCEPT {
+                return std::make_tuple(static_cast<ValueType>(*(begin + Indices))...);
             }
 
             template<typename... ValueTypes, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple, std::index_sequence<Indices...> const) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple, std::index_sequence<Indices...>) GA_NOEXCEPT {
                 return make_sequential_storage(std::get<Indices>(std::move(tuple))...);
             }
 
-            template<typename... ValueTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple) GA_NOEXCEPT {
-                return to_sequential_storage(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<std::tuple<ValueTypes...> > > > >{});
-            }
-
         public:
 
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return to_sequential_storage(make_values_tuple(std::move(coords)...));
+                auto tuple = std::tuple_cat(to_values_tuple(std::forward<Types>(coords))...);
+                return to_sequential_storage(std::move(tuple), std::make_index_sequence<std::tuple_size_v<decltype(tuple)> >{});
             }
         };
 
@@ -140,7 +121,7 @@ namespace ga {
         struct make_vector {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static CliffordExpression run(Types &&... coords) GA_NOEXCEPT {
-                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::run(std::move(coords)...));
+                return CliffordExpression(make_vector_sequential_storage<typename CliffordExpression::coefficient_type>::run(std::forward<Types>(coords)...));
             }
         };
 
@@ -158,7 +139,7 @@ namespace ga {
     template<typename MetricSpaceType, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) vector(metric_space<MetricSpaceType> const &, Types &&... coords) GA_NOEXCEPT {
         static_assert(MetricSpaceType::vector_space_dimensions == sizeof...(Types), "The number of coordinates must be equal to the number of dimensions of the vector space.");
-        return detail::make_vector<detail::deduce_vector_t<MetricSpaceType::vector_space_dimensions, std::remove_cv_t<std::remove_reference_t<Types> >...> >::run(std::move(coords)...);
+        return detail::make_vector<detail::deduce_vector_t<MetricSpaceType::vector_space_dimensions, std::remove_cv_t<std::remove_reference_t<Types> >...> >::run(std::forward<Types>(coords)...);
     }
 
     namespace detail {
@@ -166,7 +147,7 @@ namespace ga {
         // Helper function to adapt one vector() function to another.
         template<typename MetricSpaceType, typename IteratorType, std::size_t... Indices, typename... ExtraTypes>
         GA_ALWAYS_INLINE constexpr decltype(auto) make_vector_using_iterator(metric_space<MetricSpaceType> const &mtr, IteratorType begin, std::index_sequence<Indices...>, ExtraTypes &&... extra_coords) GA_NOEXCEPT {
-            return vector(mtr, *(begin + Indices)..., std::move(extra_coords)...);
+            return vector(mtr, *(begin + Indices)..., std::forward<ExtraTypes>(extra_coords)...);
         };
 
     }
-- 
2.43.0


From d9f73ba8c182d27c645f957b8cd76431fb1edd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 13/24] fix: forward the arguments of scalar(), vector(),
 point() and storages instead of moving from the caller's variables

---
 cpp/include/gatl/ga/core/clifford_expression.hpp       |  6 +++---
 cpp/include/gatl/ga/core/constexpr.hpp                 | 10 +++++-----
 cpp/include/gatl/ga/core/scalar.hpp                    |  2 +-
 .../gatl/ga/model/conformal/euclidean_vector.hpp       |  2 +-
 .../ga/model/conformal/macro_for_algebra_overload.hpp  |  4 ++--
 cpp/include/gatl/ga/model/conformal/point.hpp          |  2 +-
 .../ga/model/signed/euclidean/euclidean_vector.hpp     |  2 +-
 .../signed/euclidean/macro_for_algebra_overload.hpp    |  2 +-
 .../ga/model/signed/homogeneous/euclidean_vector.hpp   |  2 +-
 .../signed/homogeneous/macro_for_algebra_overload.hpp  |  4 ++--
 cpp/include/gatl/ga/model/signed/homogeneous/point.hpp |  2 +-
 .../ga/model/signed/minkowski/euclidean_vector.hpp     |  2 +-
 .../signed/minkowski/macro_for_algebra_overload.hpp    |  4 ++--
 cpp/include/gatl/ga/model/signed/minkowski/point.hpp   |  4 ++--
 .../ga/model/signed/plane_based/euclidean_vector.hpp   |  2 +-
 .../signed/plane_based/macro_for_algebra_overload.hpp  |  2 +-
 .../gatl/ga/util/macro_for_algebra_overload.hpp        |  2 +-
 17 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index c1479b7..e6f0114 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -182,7 +182,7 @@ namespace ga {
 
             template<typename... Args>
             constexpr sequential_storage(Args &&... args) GA_NOEXCEPT :
-                entries_{ std::move(args)... } {
+                entries_{ std::forward<Args>(args)... } {
                 static_assert(sizeof...(args) == Size, "The number of arguments must be equal to the number of stored data entries.");
             }
 
@@ -704,7 +704,7 @@ namespace ga {
 
         template<typename... StorageTypes, std::enable_if_t<!std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<StorageTypes> > > >...>, int> = 0>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
-            super(std::move(args)...) {
+            super(std::forward<StorageTypes>(args)...) {
         }
 
         constexpr clifford_expression & operator=(clifford_expression const &) = default;
@@ -719,7 +719,7 @@ namespace ga {
     // Helper function to build a sequential storage of values, bitsets or maps.
     template<typename... Args>
     constexpr decltype(auto) make_sequential_storage(Args &&... args) GA_NOEXCEPT {
-        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::move(args)...);
+        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::forward<Args>(args)...);
     }
 
 }
diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index a72a5db..aa95fc5 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -124,19 +124,19 @@ namespace ga {
 
         template<typename Type, std::enable_if_t<!std::is_integral_v<Type>, int> = 0>
         GA_ALWAYS_INLINE constexpr decltype(auto) cast_to_floating_point(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg);
+            return std::forward<Type>(arg);
         }
 
         // Returns the square of a given value.
         template<typename Type>
-        GA_ALWAYS_INLINE constexpr decltype(auto) square(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg) * std::move(arg);
+        GA_ALWAYS_INLINE constexpr decltype(auto) square(Type const &arg) GA_NOEXCEPT {
+            return arg * arg;
         }
 
         // Returns the cube of a given value.
         template<typename Type>
-        GA_ALWAYS_INLINE constexpr decltype(auto) cube(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg) * std::move(arg) * std::move(arg);
+        GA_ALWAYS_INLINE constexpr decltype(auto) cube(Type const &arg) GA_NOEXCEPT {
+            return arg * arg * arg;
         }
 
         // Safe right-shifting operation.
diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 5dc59be..fa74d64 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -41,7 +41,7 @@ namespace ga {
 
     template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
     constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
-        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::move(arg)));
+        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::forward<ValueType>(arg)));
     }
 
     template<typename CoefficientType, typename Coefficient>
diff --git a/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp b/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
index feff067..f8112b4 100644
--- a/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(conformal_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>, c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>, c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
index 2d39251..ca580b9 100644
--- a/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_CONFORMAL_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -72,7 +72,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/conformal/point.hpp b/cpp/include/gatl/ga/model/conformal/point.hpp
index 7db4d71..930ff1d 100644
--- a/cpp/include/gatl/ga/model/conformal/point.hpp
+++ b/cpp/include/gatl/ga/model/conformal/point.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types>
     constexpr decltype(auto) point(conformal_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<1>, ((std::move(coords) * std::move(coords)) + ... + c<0>) / c<2>);
+        return vector(mtr, std::forward<Types>(coords)..., c<1>, ((coords * coords) + ... + c<0>) / c<2>);
     }
 
     namespace detail {
diff --git a/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
index 86c5f0b..0dd19ee 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t N, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(euclidean_metric_space<N> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)...);
+        return vector(mtr, std::forward<Types>(coords)...);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
index 25570a1..e140bb1 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_EUCLIDEAN_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
index 1b63519..59dc550 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(homogeneous_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
index 89837ee..2ef1250 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_HOMOGENEOUS_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -57,7 +57,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
index ed17b79..660a7cb 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) point(homogeneous_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<1>);
+        return vector(mtr, std::forward<Types>(coords)..., c<1>);
     }
 
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
index a5c7543..dc901b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(minkowski_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>, c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>, c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
index 2d0215d..b7fdfb6 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_MINKOWSKI_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -72,7 +72,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/point.hpp b/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
index 2f57047..18d38fa 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
@@ -29,8 +29,8 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types>
     constexpr decltype(auto) point(minkowski_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        auto aux = ((std::move(coords) * std::move(coords)) + ... + c<0>);
-        return vector(mtr, std::move(coords)..., (aux - c<1>) / c<2>, (aux + c<1>) / c<2>);
+        auto aux = ((coords * coords) + ... + c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., (aux - c<1>) / c<2>, (aux + c<1>) / c<2>);
     }
 
     namespace detail {
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
index 52a8002..6da3b27 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(plane_based_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
index ef5865f..cbc090b 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_PLANE_BASED_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
index e0d5066..990259c 100644
--- a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
@@ -31,7 +31,7 @@
     \
     template<typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) vector(Types &&... coords) GA_NOEXCEPT { \
-        return ga::vector(SPACE, std::move(coords)...); \
+        return ga::vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template<typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
-- 
2.43.0


From e1564c6535e4e96c8231ee8d0e8a578daec35ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 14/24] fix: if_else expressions having simplified tests as
 operands are evaluated as a single stored value

---
 cpp/include/gatl/ga/core/expression_traits.hpp | 5 +++++
 cpp/include/gatl/ga/core/lazy_context.hpp      | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index a0df463..685ac88 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -82,6 +82,11 @@ namespace ga {
             std::bool_constant<can_be_stored_v<Coefficient> && can_be_stored_v<BasisBlade> > {
         };
 
+        template<bool Value>
+        struct can_be_stored<std::bool_constant<Value> > :
+            std::true_type { // simplified test
+        };
+
         template<name_t Name, typename... Arguments>
         struct can_be_stored<function<Name, Arguments...> > :
             std::conjunction<std::bool_constant<can_be_stored_v<Arguments> >...>::type {
diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 02cd9d2..d01c763 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -496,9 +496,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
-- 
2.43.0


From 16306228384122b5f638dc4121c4d4b96fd88cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 15/24] fix: rightmost_set_bit of the most significant bit
 (63-dimensional spaces)

---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index aa95fc5..283f928 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -90,7 +90,7 @@ namespace ga {
 
         // Returns the rightmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t rightmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-            return arg & -std::make_signed_t<bitset_t>(arg);
+            return arg & bitset_t(~arg + bitset_t(1));
         }
 
         // Returns the index of the set bit, assuming that there is a single set bit in the bitset.
-- 
2.43.0


From beac8fb42502ccef15d2f6dc29743e8c7569e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 16/24] fix: the power of a product is not distributed over
 factors that may be negative

---
 .../gatl/ga/core/expression_simplification_power.hpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 1ccdd0f..c5c0ba3 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -348,12 +348,12 @@ namespace ga {
                 bind<LeftExpression, RightExpression> {
             };
 
-            // (A * ...)^{B} => A^{B} * (...)^{B}, for integer B, or non-negative A, or non-negative (...), or B = 1/3
-            // (A * ...)^{B} => (A * ...)^{B}, otherwise (bind), because both A and (...) may be negative
+            // (A * ...)^{B} => A^{B} * (...)^{B}, for integer B, or non-negative constant A, or non-negative A and (...), or B = 1/3
+            // (A * ...)^{B} => (A * ...)^{B}, otherwise (bind), because A or (...) may be negative
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
                 std::conditional_t<
-                    is_integer<RightExpression>::value || is_non_negative_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> > || std::is_same_v<RightExpression, power<constant_value<3>, constant_value<-1> > >,
+                    is_integer<RightExpression>::value || (is_non_negative_v<LeftArgument> && (is_constant_expression_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> >)) || std::is_same_v<RightExpression, power<constant_value<3>, constant_value<-1> > >,
                     distribute<LeftArgument, mul_t<LeftNextArguments...>, RightExpression>,
                     bind<mul<LeftArgument, LeftNextArguments...>, RightExpression>
                 > {
-- 
2.43.0


From e2c4687efd5c888f41fe6a2ec54d2e8729803a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 17/24] fix: the integer square root of large constants is
 found without deep recursion

---
 cpp/include/gatl/ga/core/constexpr.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index 283f928..cecc9db 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -49,12 +49,13 @@ namespace ga {
         }
 
         // Returns the square root of the given integer value (isqrt(A) = B, for A >= 1) when it is possible to have an integer value as result.
-        GA_ALWAYS_INLINE constexpr default_integral_t _isqrt_impl(default_integral_t sq, default_integral_t dlt, default_integral_t a) GA_NOEXCEPT {
-            return sq <= a ? _isqrt_impl(sq + dlt, dlt + 2, a) : (dlt >> 1) - 1;
-        }
-
         GA_ALWAYS_INLINE constexpr default_integral_t isqrt(default_integral_t arg) GA_NOEXCEPT {
-            return _isqrt_impl(1, 3, arg);
+            default_integral_t lower = 1, upper = arg / 2 + 1;
+            while (lower < upper) {
+                default_integral_t const middle = upper - (upper - lower) / 2;
+                if (middle <= arg / middle) lower = middle; else upper = middle - 1;
+            }
+            return lower;
         }
 
         // Returns the number of 1 bits in the given bitset.
-- 
2.43.0


From e1efaa1414bf37fa4168bf4b31a6b14cd1a0c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 18/24] fix: integer powers of cube roots are defined for
 negative values

---
 cpp/include/gatl/ga/core/expression.hpp | 33 ++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 0d8e3be..772d496 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -965,6 +965,31 @@ namespace ga {
             }
         };
 
+        // Three times the given exponent, when it is the sum of multiples of 1/3 that are known in compile time.
+        template<typename Exponent>
+        struct thirds {
+            constexpr static bool is_exact = false;
+            constexpr static default_integral_t value = 0;
+        };
+
+        template<>
+        struct thirds<power<constant_value<3>, constant_value<-1> > > {
+            constexpr static bool is_exact = true;
+            constexpr static default_integral_t value = 1;
+        };
+
+        template<default_integral_t Value>
+        struct thirds<mul<constant_value<Value>, power<constant_value<3>, constant_value<-1> > > > {
+            constexpr static bool is_exact = true;
+            constexpr static default_integral_t value = Value;
+        };
+
+        template<default_integral_t Value, typename Argument, typename... NextArguments>
+        struct thirds<add<constant_value<Value>, Argument, NextArguments...> > {
+            constexpr static bool is_exact = thirds<Argument>::is_exact && (thirds<NextArguments>::is_exact && ...);
+            constexpr static default_integral_t value = 3 * Value + thirds<Argument>::value + (default_integral_t(0) + ... + thirds<NextArguments>::value);
+        };
+
         // Specializations of power<LeftArgument, RightArgument>.
         template<typename LeftArgument, typename RightArgument>
         struct function<name_t::power, LeftArgument, RightArgument> {
@@ -973,7 +998,13 @@ namespace ga {
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
                 using std::pow;
-                return pow(LeftArgument::template eval<LowerTag, UpperTag>(args), RightArgument::template eval<LowerTag, UpperTag>(args));
+                if constexpr (thirds<RightArgument>::is_exact) {
+                    using std::cbrt;
+                    return pow(cbrt(LeftArgument::template eval<LowerTag, UpperTag>(args)), constant_value<thirds<RightArgument>::value>::template eval<LowerTag, UpperTag>(args)); // X^{K / 3} = cbrt(X)^{K} is defined for negative X
+                }
+                else {
+                    return pow(LeftArgument::template eval<LowerTag, UpperTag>(args), RightArgument::template eval<LowerTag, UpperTag>(args));
+                }
             }
 
             static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
-- 
2.43.0


From d81ad186c2dd9a7efd680c57d940b575fbb717d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 19/24] fix: the product of constants that simplifies to the
 inverse of a constant compiles

---
 .../ga/core/expression_simplification_product_values.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index 4d2d10e..5e3dd00 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -36,7 +36,11 @@ namespace ga {
 
         template<default_integral_t Numerator, default_integral_t Denominator>
         struct simpler_rational_constant<Numerator, Denominator, 1> {
-            using type = mul_t<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >;
+            using type = typename std::conditional_t<
+                (sign(Numerator) * sign(Denominator)) * iabs(Numerator) == 1,
+                power_t<constant_value<iabs(Denominator)>, constant_value<-1> >,
+                mul<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >
+            >::type;
         };
 
         template<default_integral_t Numerator, default_integral_t Denominator>
-- 
2.43.0


From ff79ea8003daafa0c4e0f7bffa42f15211618203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 20/24] fix: the absolute value of a constant expression is
 negated only when it is known to be non-positive

---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 772d496..ae6fb18 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -846,7 +846,7 @@ namespace ga {
                 is_non_negative_v<Value>,
                 Value,
                 std::conditional_t<
-                    is_constant_expression_v<Value> && !(is_function_v<name_t::add, Value> || is_function_v<name_t::if_else, Value>),
+                    is_constant_expression_v<Value> && is_non_negative_v<product_t<constant_value<-1>, Value, value_mapping> >,
                     product_t<constant_value<-1>, Value, value_mapping>,
                     function
                 >
-- 
2.43.0


From cdb6f44e2fe111c2af157ab45a56ff2c62ed2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 21/24] fix: the directions of dual flats, rounds and tangents
 compile (undual takes a pseudoscalar)

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From 0f78a8ae7e2928be135c538e53fdebd659a97923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 22/24] fix: run-time basis vectors compile when
 GA_MAX_BASIS_VECTOR_INDEX selects an 8 or 16-bit bitset

---
 cpp/include/gatl/ga/util/basis_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/basis_vector.hpp b/cpp/include/gatl/ga/util/basis_vector.hpp
index 2044b85..f653293 100644
--- a/cpp/include/gatl/ga/util/basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/basis_vector.hpp
@@ -44,7 +44,7 @@ namespace ga {
     // Returns a runtime defined unit basis vector.
     constexpr unit_basis_vector_t e(index_t const index) GA_NOEXCEPT {
         assert(index > 0);
-        return unit_basis_vector_t(make_sequential_storage(bitset_t(1) << (index - 1)));
+        return unit_basis_vector_t(make_sequential_storage(static_cast<bitset_t>(bitset_t(1) << (index - 1))));
     }
 
     // Returns a compile-time defined unit basis vector.
-- 
2.43.0


From 2293e71783eaa7e245215f826c09785f832ef189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 23/24] fix: fast_meet_and_join and fast_plunge compile when
 the default integral type is narrower than int

---
 cpp/include/gatl/ga/extra/fast_meet_and_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index 12db8b8..55e2847 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -34,7 +34,7 @@ namespace ga {
             using std::abs;
             using value_type = std::common_type_t<LeftCoefficientType, RightCoefficientType>;
             using largest_type = full_derived_multivector_t<default_integral_t, RightExpression>;
-            using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>, (grade_t)N)>;
+            using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min((grade_t)(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>), (grade_t)N)>;
 
             constexpr auto em = real_metric_space(); // Euclidean metric
 
-- 
2.43.0


From f151aff18f4ee7ad605987413b9caab149c5a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 24/24] fix: the one-time warning of implicit conversions does
 not race between threads

---
 cpp/include/gatl/ga/core.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core.hpp b/cpp/include/gatl/ga/core.hpp
index b83a5f4..1369b08 100644
--- a/cpp/include/gatl/ga/core.hpp
+++ b/cpp/include/gatl/ga/core.hpp
@@ -70,11 +70,8 @@
 
 #define _GA_ONE_TIME_WARNING(MESSAGE) \
     { \
-        static bool first_time = true; \
-        if (first_time) { \
-            std::clog << "[WARNING]: " << (MESSAGE) << std::endl; \
-            first_time = false; \
-        } \
+        static bool const printed = (std::clog << "[WARNING]: " << (MESSAGE) << std::endl, true); \
+        static_cast<void>(printed); \
     }
 
 namespace ga {
-- 
2.43.0

