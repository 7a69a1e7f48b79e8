From bb69a77c2461075e01b795309555d634ba0e9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 01/77] fix: tensor addition and subtraction modified their
 left operand in place when the shapes were equal

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8f8e552..df7dc6b 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -578,7 +578,7 @@ namespace ceras
     Tsor add( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // a broadcasted tensor may share its storage with lhs
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x += y; } );
@@ -609,7 +609,7 @@ namespace ceras
     Tsor minus( Tsor const& lhs, Tsor const& rhs ) noexcept
     {
         auto const& broadcasted_shape = broadcast_shape( lhs.shape(), rhs.shape() );
-        auto llhs = broadcast_tensor( lhs, broadcasted_shape );
+        auto llhs = broadcast_tensor( lhs, broadcasted_shape ).deep_copy(); // a broadcasted tensor may share its storage with lhs
         auto const& rrhs = broadcast_tensor( rhs, broadcasted_shape );
 
         for_each( llhs.begin(), llhs.end(), rrhs.begin(), []( auto& x, auto const& y ) noexcept { x -= y; } );
-- 
2.43.0


From 7c4d4a5b09e688dd5af66d3faec529aed8a9a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 02/77] fix: the maximum of a tensor holding only negative
 floating-point values was a small positive number

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index df7dc6b..25af074 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1005,7 +1005,7 @@ namespace ceras
         typedef typename Tsor::value_type value_type;
         better_assert( tsor.size() != 0, "tensor::max error: input tensor should not be empty!" );
         if ( tsor.size() == 0 ) return value_type{0};
-        value_type ans = std::numeric_limits<value_type>::min();
+        value_type ans = std::numeric_limits<value_type>::lowest();
         for ( auto idx : range( tsor.size() ) )
             ans = std::max( tsor[idx], ans );
         return ans;
@@ -1187,7 +1187,7 @@ namespace ceras
     template <Tensor Tsor>
     Tsor max( Tsor const& ts, unsigned long axis, bool keepdims=false ) noexcept
     {
-        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::min(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
+        return reduce( ts, axis, std::numeric_limits<typename Tsor::value_type>::lowest(), []( auto const& a, auto const& b ){ return a > b ? a : b; }, keepdims );
     }
 
     template <Tensor Tsor>
-- 
2.43.0


From 16d2b80763119a13c79fe3e170deda6dae310abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 03/77] fix: tensor repeat copied the shape through iterators
 of two different temporaries

---
 include/tensor.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 25af074..5252818 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -757,7 +757,8 @@ namespace ceras
 
             std::vector<unsigned long>  new_shape;
             new_shape.push_back( n );
-            std::copy( tsor.shape().begin(), tsor.shape().end(), std::back_inserter( new_shape ) );
+            auto const& old_shape = tsor.shape();
+            std::copy( old_shape.begin(), old_shape.end(), std::back_inserter( new_shape ) );
             ans.reshape( new_shape );
         }
 
-- 
2.43.0


From 0969ddf5b8d81ee73f5e9ab0993dd358b9070edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 04/77] fix: concatenating tensors of different dimensions read
 dangling shapes and swapped the operands

---
 include/tensor.tcc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 5252818..4f7174e 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -915,18 +915,24 @@ namespace ceras
     template< Tensor Tsor >
     Tsor concatenate( Tsor const& lhs, Tsor const& rhs, unsigned long axis=0 ) noexcept
     {
-        if ( lhs.ndim() < rhs.ndim() )
-            return concatenate( rhs, lhs, axis );
-
-        // axis alignment
-        if ( lhs.ndim() > rhs.ndim() )
+        // axis alignment: repeat the tensor with fewer dimensions along the leading dimensions of the other one
+        if ( lhs.ndim() != rhs.ndim() )
         {
-            unsigned long const dims_to_repeat = std::accumulate( lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim(), 1UL, [](auto x, auto y ){ return x*y; } );
-            auto new_rhs = repeat( rhs, dims_to_repeat );
-            std::vector<unsigned long> new_shape{ lhs.shape().begin(), lhs.shape().begin()+lhs.ndim()-rhs.ndim() };
-            std::copy( rhs.shape().begin(), rhs.shape().end(), std::back_inserter( new_shape ) );
-            new_rhs.reshape( new_shape );
-            return concatenate( lhs, new_rhs, axis );
+            auto const& align = []( Tsor const& tsor, std::vector<unsigned long> const& target_shape )
+            {
+                unsigned long const heading_dims = target_shape.size() - tsor.ndim();
+                std::vector<unsigned long> new_shape{ target_shape.begin(), target_shape.begin()+heading_dims };
+                unsigned long const dims_to_repeat = std::accumulate( new_shape.begin(), new_shape.end(), 1UL, [](auto x, auto y ){ return x*y; } );
+                auto const& old_shape = tsor.shape();
+                std::copy( old_shape.begin(), old_shape.end(), std::back_inserter( new_shape ) );
+                auto ans = repeat( tsor, dims_to_repeat );
+                ans.reshape( new_shape );
+                return ans;
+            };
+
+            if ( lhs.ndim() > rhs.ndim() )
+                return concatenate( lhs, align( rhs, lhs.shape() ), axis );
+            return concatenate( align( lhs, rhs.shape() ), rhs, axis );
         }
 
         auto l_shape = lhs.shape();
-- 
2.43.0


From f899e5a74c626eb90f5a323f93829f12b5f98de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 05/77] fix: multiplying a matrix by a 1-D tensor resized that
 tensor to the size of the matrix

---
 include/tensor.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 4f7174e..306b789 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -675,7 +675,7 @@ namespace ceras
             return multiply( reshape( lhs, {1UL, lhs.size()} ), rhs, ans );
 
         if ( 1 == rhs.ndim() )
-            return multiply( lhs, reshape( rhs, {lhs.size(), 1UL} ), ans );
+            return multiply( lhs, reshape( rhs, {rhs.size(), 1UL} ), ans );
 
         better_assert( 2 == rhs.ndim(), "expecting rhs tensor has 2 dimensions, but got ", rhs.ndim() );
 
-- 
2.43.0


From 8dfc277a201492f90b956a17a39101a92b5cec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 06/77] fix: parallel loops not starting at zero ran some
 indices twice or below the first index

---
 include/utils/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index 5320ffe..ea4a8ad 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -62,7 +62,7 @@ namespace ceras
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1), dim_last );
+            job_slice( tasks_per_thread*(total_cores-1) + dim_first, dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From afa2536be6c783fc814fd8022beeb2fa85bf4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 07/77] fix: saved tensors and sessions lost digits of the
 values they store

---
 include/tensor.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 306b789..b13f248 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1265,8 +1265,12 @@ namespace ceras
             std::copy( shape.begin(), shape.end(), std::ostream_iterator<unsigned long>{ __os, " " } );
             __os << "\n";
         }
-        {//write data
+        {//write data, with enough digits to read the same values back
+            auto const precision = __os.precision();
+            if constexpr ( std::is_floating_point_v<_Tp> )
+                __os.precision( std::max<std::streamsize>( precision, std::numeric_limits<_Tp>::max_digits10 ) );
             std::copy( __x.begin(), __x.end(), std::ostream_iterator<_Tp>{ __os, " " } );
+            __os.precision( precision );
         }
         __os << "\n";
 
-- 
2.43.0


From 2a4297a26c2e48ae9300c80f7d19ee6184abff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 08/77] fix: the gradient of log1p was 1/x instead of 1/(1+x)

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4734758..88d288c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4409,7 +4409,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / x; } );
+                                        for_each( input.begin(), input.end(), grad.begin(), ans.begin(), []( auto x, auto g, auto& v ) noexcept { v = g / ( x + decltype(x){1} ); } );
                                         return ans;
                                     },
                                     "log1p"
-- 
2.43.0


From 37fe30e0a39793af934b0afc7923f1bf4d370e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 09/77] fix: the gradient of an operator used more than once in
 an expression was computed from an empty input

---
 include/operation.hpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 88d288c..4b7d530 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -55,6 +55,8 @@ namespace ceras
         enable_id<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Unary_Operator">,
         enable_unary_serializer<unary_operator<Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer> >
     {
+        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
+
         struct unary_operator_state
         {
             Operator op_;
@@ -62,12 +64,10 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type input_data_; // shared by all the copies of this operator, as only one of them evaluates the input
         };
         std::shared_ptr<unary_operator_state> state_;
 
-        typedef decltype( std::declval<Forward_Action>()( std::declval<Operator>().forward() ) ) tensor_type;
-
-        tensor_type input_data_;
         tensor_type output_data_;
 
         unary_operator( Operator const& op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer ) noexcept : state_{ std::make_shared<unary_operator_state>( op, forward_action, backward_action, output_shape_calculator, serializer ) } {}
@@ -79,8 +79,8 @@ namespace ceras
 
             if ( output_data_.empty() )
             {
-                input_data_ = op().forward();
-                output_data_ = forward_action()( input_data_ );
+                state_->input_data_ = op().forward();
+                output_data_ = forward_action()( state_->input_data_ );
                 sess.update_forward_cache( (*this).id(), output_data_ );
             }
 
@@ -89,7 +89,7 @@ namespace ceras
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( input_data_, output_data_, grad );
+            auto const& current_gradient = backward_action()( state_->input_data_, output_data_, grad );
             op().backward( current_gradient );
         }
 
@@ -107,7 +107,7 @@ namespace ceras
         Output_Shape_Calculator const& output_shape_calculator() const { return state_->output_shape_calculator_; }
         Serializer const& serializer() const { return state_->serializer_; }
         tensor_type output_data() { return output_data_; }
-        tensor_type input_data() { return input_data_; }
+        tensor_type input_data() { return state_->input_data_; }
 
         Operator& op() { return state_->op_; }
         Forward_Action& forward_action() { return state_->forward_action_; }
@@ -145,6 +145,8 @@ namespace ceras
         enable_id<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>, "Binary Operator">,
         enable_binary_serializer<binary_operator<Lhs_Operator, Rhs_Operator, Forward_Action, Backward_Action, Output_Shape_Calculator, Serializer>>
     {
+        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
+
         struct binary_operator_state
         {
             Lhs_Operator lhs_op_;
@@ -153,13 +155,11 @@ namespace ceras
             Backward_Action backward_action_;
             Output_Shape_Calculator output_shape_calculator_;
             Serializer serializer_;
+            tensor_type lhs_input_data_; // shared by all the copies of this operator, as only one of them evaluates the inputs
+            tensor_type rhs_input_data_;
         };
         std::shared_ptr<binary_operator_state> state_;
 
-        typedef typename tensor_deduction<Lhs_Operator, Rhs_Operator>::tensor_type tensor_type; // defined in value.hpp
-
-        tensor_type lhs_input_data_;
-        tensor_type rhs_input_data_;
         tensor_type output_data_;
 
         binary_operator( Lhs_Operator const& lhs_op, Rhs_Operator const& rhs_op, Forward_Action const& forward_action, Backward_Action const& backward_action, Output_Shape_Calculator const& output_shape_calculator, Serializer const& serializer) noexcept :
@@ -177,21 +177,21 @@ namespace ceras
 
             if constexpr ( is_value_v<Lhs_Operator> )
             {
-                rhs_input_data_ = rhs_op().forward();
-                lhs_input_data_ = lhs_op().forward( rhs_input_data_ );
+                state_->rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward( state_->rhs_input_data_ );
             }
             else if constexpr ( is_value_v<Rhs_Operator> )
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward( lhs_input_data_ );
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward( state_->lhs_input_data_ );
             }
             else
             {
-                lhs_input_data_ = lhs_op().forward();
-                rhs_input_data_ = rhs_op().forward();
+                state_->lhs_input_data_ = lhs_op().forward();
+                state_->rhs_input_data_ = rhs_op().forward();
             }
 
-            output_data_ = forward_action()( lhs_input_data_, rhs_input_data_ );
+            output_data_ = forward_action()( state_->lhs_input_data_, state_->rhs_input_data_ );
             sess.update_forward_cache( (*this).id(), output_data_ );
             return output_data_;
         }
@@ -201,7 +201,7 @@ namespace ceras
         ///
         void backward( tensor_type const& grad )
         {
-            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( lhs_input_data_, rhs_input_data_, output_data_, grad );
+            auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, output_data_, grad );
             lhs_op().backward( current_gradient_lhs );
             rhs_op().backward( current_gradient_rhs );
         }
@@ -235,8 +235,8 @@ namespace ceras
         Serializer& serializer() { return state_->serializer_; }
 
         tensor_type output_data() { return output_data_; }
-        tensor_type lhs_input_data() { return lhs_input_data_; }
-        tensor_type rhs_input_data() { return rhs_input_data_; }
+        tensor_type lhs_input_data() { return state_->lhs_input_data_; }
+        tensor_type rhs_input_data() { return state_->rhs_input_data_; }
     }; // struct binary_operator
 
     template< typename Forward_Action, typename Backward_Action, typename Output_Shape_Calculator= identity_output_shape_calculator, typename Serializer = default_binary_expression_serializer >
-- 
2.43.0


From 41f879fc8bd38f5dd97be80d7b38a202213935af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/77] fix: the result of an evaluation shared the buffer of
 its operator and changed with the next evaluation

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 4b7d530..f0a17f1 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -80,7 +80,7 @@ namespace ceras
             if ( output_data_.empty() )
             {
                 state_->input_data_ = op().forward();
-                output_data_ = forward_action()( state_->input_data_ );
+                output_data_ = deep_copy( forward_action()( state_->input_data_ ) ); // actions return their own buffer, or their input
                 sess.update_forward_cache( (*this).id(), output_data_ );
             }
 
@@ -191,7 +191,7 @@ namespace ceras
                 state_->rhs_input_data_ = rhs_op().forward();
             }
 
-            output_data_ = forward_action()( state_->lhs_input_data_, state_->rhs_input_data_ );
+            output_data_ = deep_copy( forward_action()( state_->lhs_input_data_, state_->rhs_input_data_ ) ); // actions return their own buffer, or their input
             sess.update_forward_cache( (*this).id(), output_data_ );
             return output_data_;
         }
-- 
2.43.0


From 70b8eb36ea7be3f23a3d98515708d06343ac44a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 11/77] fix: dividing a number by an expression did not compile
 and would have divided the expression by the number

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index f0a17f1..7e43ffc 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -792,7 +792,7 @@ namespace ceras
     template< Expression Ex, arithmetic A >
     auto constexpr operator / ( A const& lhs_val, Ex const& ex ) noexcept
     {
-        return ex * inverse( lhs_val );
+        return lhs_val * inverse( ex );
     }
 
 
-- 
2.43.0


From 55c2263edeb66870f6de1732109010c9c76b4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 12/77] fix: pow did not compile, its serializer was passed as
 the output shape calculator

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 7e43ffc..2ef0596 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -4920,6 +4920,7 @@ namespace ceras
                                         return ans;
                                     },
                                     "pow",
+                                    identity_output_shape_calculator{},
                                     [exponent]<Expression Self_Expression, Expression Input_Expression>( Self_Expression const& self_expression, Input_Expression const& input_expression ) noexcept
                                     { // serializer
                                         auto const& [input_expression_name, input_expression_code] = serialize( input_expression );
-- 
2.43.0


From 9b9faa5e2ec65231809d1a2bc9584434a0c6fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 13/77] fix: the declared shape of a broadcasting binary
 operator was the shape of its right operand

---
 include/operation.hpp | 8 +++++++-
 include/tensor.tcc    | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2ef0596..fa8de42 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -34,7 +34,13 @@ namespace ceras
 
         std::vector<unsigned long> operator()( std::vector<unsigned long> const& lhs_input_shape, std::vector<unsigned long> const& rhs_input_shape ) const noexcept
         {
-            return lhs_input_shape.size() > rhs_input_shape.size() ? lhs_input_shape : rhs_input_shape;
+            if ( lhs_input_shape.size() != rhs_input_shape.size() )
+                return lhs_input_shape.size() > rhs_input_shape.size() ? lhs_input_shape : rhs_input_shape;
+
+            std::vector<unsigned long> ans = lhs_input_shape;
+            for ( unsigned long idx = 0; idx != ans.size(); ++idx )
+                if ( ans[idx] == 1UL ) ans[idx] = rhs_input_shape[idx]; // broadcast dimension
+            return ans;
         }
 
         std::vector<unsigned long> operator()() const noexcept
diff --git a/include/tensor.tcc b/include/tensor.tcc
index b13f248..4ccd0b3 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -716,7 +716,7 @@ namespace ceras
     {
         unsigned long const l_size = lhs.size();
         unsigned long const r_size = rhs.size();
-        if ( l_size < r_size ) return elementwise_product(rhs, lhs);
+        if ( l_size < r_size || ( l_size == r_size && lhs.ndim() < rhs.ndim() ) ) return elementwise_product(rhs, lhs);
 
         unsigned long const repeats = l_size / r_size;
         better_assert( (r_size * repeats) == l_size, "Dimension is not match!" );
-- 
2.43.0


From a8866a63088d38a670f4f6b3ec30f79e3adf9917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 14/77] fix: minimum sent its gradient to the larger operand

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index fa8de42..a580840 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2549,7 +2549,7 @@ namespace ceras
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
 
-                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m < 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
+                for_each( grad.begin(), grad.end(), mask.begin(), l_ans.begin(), r_ans.begin(), []( auto const g, auto const m, auto& l, auto& r ) { if ( m > 0.5 ) { l = g; r = 0.0; } else { l = 0.0; r = g; } } );
 
                 return std::make_tuple( l_ans, r_ans );
             },
-- 
2.43.0


From 2b49ba49d2bd7331c63f35bab6db875c7e55e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 15/77] fix: the gradients of atan2 had the wrong sign

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index a580840..2a357b7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2582,7 +2582,7 @@ namespace ceras
                 l_ans.resize( lhs_input.shape() );
                 Tsor& r_ans = context_cast<Tsor>( backward_cache_rhs );
                 r_ans.resize( rhs_input.shape() );
-                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = -g*y/c; r = g*x/c; } );
+                for_each( grad.begin(), grad.end(), l_ans.begin(), r_ans.begin(), lhs_input.begin(), rhs_input.begin(), []( auto const g, auto& l, auto& r, auto const x, auto const y ) { auto const c = x*x+y*y; l = g*y/c; r = -g*x/c; } );
                 return std::make_tuple( l_ans, r_ans );
             },
             "atan2"
-- 
2.43.0


From 994b3f4a11d044f7a0c297e407893f9cdb1cedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 16/77] fix: backpropagation through activations and clip
 modified the gradient it was given

---
 include/activation.hpp | 16 ++++++++--------
 include/operation.hpp  |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c10ae63..8b0739f 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -108,7 +108,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
                                         return ans;
                                     },
@@ -303,7 +303,7 @@ namespace ceras
                     better_assert( output.size(), "relu::backward: empty output." );
                     better_assert( grad.size(), "relu::backward: empty grad." );
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( x <= value_type{0} ) v = value_type{0}; } );
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){  v *= ( x > value_type{0} ); } );
                     return ans;
@@ -356,7 +356,7 @@ namespace ceras
                 return []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
-                    Tsor ans = grad; // shallow copy
+                    Tsor ans = grad.deep_copy();
                     //const typename Tsor::value_type zero{0};
                     for_each( ans.begin(), ans.end(), input.begin(), []( auto& v, auto x ){ if ( (x <= value_type{0}) || (x >= value_type{6}) ) v = value_type{0}; } );
                     return ans;
@@ -414,7 +414,7 @@ namespace ceras
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [factor]( value_type& v_back, value_type const v_in ){ v_back = (v_in > value_type{0}) ? v_back : factor*v_back; } );
                                             return ans;
                                         },
@@ -468,7 +468,7 @@ namespace ceras
                                         [alpha]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                         {
                                             typedef typename Tsor::value_type value_type;
-                                            Tsor ans = grad;// OK for shallow copy
+                                            Tsor ans = grad.deep_copy();
                                             for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
                                             return ans;
                                         },
@@ -506,7 +506,7 @@ namespace ceras
                                     },
                                     []<Tensor Tsor>( Tsor const&, Tsor const& output, Tsor const& grad ) noexcept
                                     {
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ){ a *= o; } );
                                         return ans;
                                     },
@@ -542,7 +542,7 @@ namespace ceras
                                     []<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), input.begin(), []( auto& a, auto x ) { a = ((x > value_type{1}) || (x < value_type{-1})) ? value_type{0} : (a / value_type{2}); } );
                                         return ans;
                                     },
@@ -600,7 +600,7 @@ namespace ceras
                                     [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
-                                        Tsor ans = grad;
+                                        Tsor ans = grad.deep_copy();
                                         for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
                                         return ans;
                                     },
diff --git a/include/operation.hpp b/include/operation.hpp
index 2a357b7..8352f5e 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1098,7 +1098,7 @@ namespace ceras
                                         {
                                             better_assert( !has_nan( grad ), "input gradient for operator clip contains NaN!" );
                                             const typename Tsor::value_type zero{0};
-                                            Tsor ans = grad;
+                                            Tsor ans = grad.deep_copy();
                                             for ( auto idx : range( input.size() ) )
                                                 ans[idx] = (input[idx] < lower) ? zero :
                                                            (input[idx] > upper) ? zero :
-- 
2.43.0


From 917f30ae0d2a148774c99c84054abf90de43efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 17/77] fix: the gradient of softmax ignored the off-diagonal
 terms of its Jacobian

---
 include/activation.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 8b0739f..07929b0 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -109,7 +109,15 @@ namespace ceras
                                     {
                                         better_assert( !has_nan( grad ), "backprop: upcoming gradient for activation softmax contains NaN" );
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), output.begin(), []( auto& a, auto o ) { a *= o * ( typename Tsor::value_type{1} - o ); } );
+                                        std::size_t const last_dim = *(output.shape().rbegin());
+                                        std::size_t const rest_dim = output.size() / last_dim;
+                                        for ( auto idx : range( rest_dim ) )
+                                        {
+                                            auto const o = output.begin() + idx*last_dim;
+                                            auto const g = ans.begin() + idx*last_dim;
+                                            typename Tsor::value_type const dot = std::inner_product( o, o+last_dim, g, typename Tsor::value_type{0} );
+                                            for_each( g, g+last_dim, o, [dot]( auto& a, auto v ) { a = v * ( a - dot ); } );
+                                        }
                                         return ans;
                                     },
                                     "softmax"
-- 
2.43.0


From 8630344532898ac5a03bda7537e28770530a942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 18/77] fix: the gradient of softplus had the wrong sign in its
 denominator

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 07929b0..c351175 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -199,7 +199,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() ); // 1 / ( 1 + exp(-x) )
-                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} - std::exp(-i) ); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), grad.begin(), []( auto& a, auto i, auto g ){ a = g / ( typename Tsor::value_type{1} + std::exp(-i) ); } );
                                         return ans;
                                     },
                                     "softplus"
-- 
2.43.0


From cc4eac545942fdb397d859946f72323ba34c7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 19/77] fix: the gradient of elu for negative inputs was a
 function of the incoming gradient only

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index c351175..1c0dba8 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -477,7 +477,7 @@ namespace ceras
                                         {
                                             typedef typename Tsor::value_type value_type;
                                             Tsor ans = grad.deep_copy();
-                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_back); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [alpha]( value_type& v_back, value_type const v_in ){ v_back = (v_in >= value_type{0}) ? v_back : alpha*std::exp(v_in)*v_back; } );
                                             return ans;
                                         },
                                         "elu",
-- 
2.43.0


From 355b3148d081379206650fdf34e22decc01105da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 20/77] fix: the gradient of gelu was a function of the
 incoming gradient only

---
 include/activation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 1c0dba8..54274f4 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -590,7 +590,7 @@ namespace ceras
         {
             auto const sq_2_pi_x = 0.79788456080286535588 * x;
             auto const _xx = x * x;
-            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) * ( 1.0 + 0.134145 * _xx) );
+            auto const ans = 0.5 * ( 1.0 + std::tanh( sq_2_pi_x * ( 1.0 + 0.044715 * _xx ) ) ) + 0.5 * sq_2_pi_x * sech_2( sq_2_pi_x * (1.0 + 0.044715 * _xx ) ) * ( 1.0 + 0.134145 * _xx);
             return static_cast<T>( ans );
         };
 
@@ -605,11 +605,11 @@ namespace ceras
                                         ans.map([_gelu](auto& x) { x = _gelu(x); });
                                         return ans;
                                     },
-                                    [_dgelu]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                                    [_dgelu]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
                                     {
                                         //typedef typename Tsor::value_type value_type;
                                         Tsor ans = grad.deep_copy();
-                                        for_each( ans.begin(), ans.end(), [&_dgelu]( auto& x ) {  x = _dgelu(x); } );
+                                        for_each( ans.begin(), ans.end(), input.begin(), [&_dgelu]( auto& g, auto x ) { g *= _dgelu(x); } );
                                         return ans;
                                     },
                                     "gelu"
-- 
2.43.0


From 68c95a4741133f17ca1fa59fc7a21a99cf75d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 21/77] fix: leaky_relu and elu did not compile, they named a
 serializer that does not exist

---
 include/activation.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index 54274f4..b49ca10 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -416,7 +416,7 @@ namespace ceras
                                         {
                                             Tsor& ans = context_cast<Tsor>( forward_cache );
                                             ans.resize( input.shape()  );
-                                            for_each( ans.begin(), ans.end(), input.begin(), [factor]( auto& v_out, auto v_in ){ v_out = std::max( T{v_in}, T{factor*v_in} ); } );
+                                            for_each( ans.begin(), ans.end(), input.begin(), [factor]( auto& v_out, auto v_in ){ v_out = std::max( static_cast<T>( v_in ), static_cast<T>( factor*v_in ) ); } );
                                             return ans;
                                         },
                                         [factor]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
@@ -427,7 +427,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "leaky_relu",
-                                        make_argumented_unary_operator_serializer( factor )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( factor )
                     )( ex );
         };
     }
@@ -481,7 +482,8 @@ namespace ceras
                                             return ans;
                                         },
                                         "elu",
-                                        make_argumented_unary_operator_serializer( alpha )
+                                        identity_output_shape_calculator{},
+                                        make_argumented_operator_serializer( alpha )
                     )( ex );
         };
     }
-- 
2.43.0


From 67013e7b1fbc65480d13106fbfb8603ac5e00250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 22/77] fix: mish and lisht multiplied their operands as
 matrices

---
 include/activation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index b49ca10..add46ee 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -683,7 +683,7 @@ namespace ceras
     template< Expression Ex >
     auto mish( Ex const& ex ) noexcept
     {
-        return ex*tanh(softplus(ex));
+        return hadamard_product( ex, tanh(softplus(ex)) );
     }
 
 
@@ -698,7 +698,7 @@ namespace ceras
     template< Expression Ex >
     auto lisht( Ex const& ex ) noexcept
     {
-        return ex*tanh(ex);
+        return hadamard_product( ex, tanh(ex) );
     }
 
 }//namespace ceras
-- 
2.43.0


From b1cc2563bc4a36f74cad5394a0f2ce5f63342317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 23/77] fix: the gradient of concatenate iterated over two
 different temporary shapes

---
 include/operation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 8352f5e..f24fee0 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2417,7 +2417,8 @@ namespace ceras
 
                     // 2D view of grad
                     unsigned long const ax = (axe == (unsigned long)(-1)) ? grad.ndim()-1 : axe;
-                    unsigned long const g_col = std::accumulate( grad.shape().begin()+ax, grad.shape().end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
+                    std::vector<unsigned long> const& g_shape = grad.shape();
+                    unsigned long const g_col = std::accumulate( g_shape.begin()+ax, g_shape.end(), 1UL, []( unsigned long x, unsigned long y ){ return x*y; } );
                     unsigned long const g_row = grad.size() / g_col;
                     view_2d<value_type> v_g{ grad.data(), g_row, g_col };
 
-- 
2.43.0


From 3f85c94d665b64c1e9256205f8fadfb64fceeb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 24/77] fix: operators created by the same factory shared their
 buffers, masks and indices

---
 include/operation.hpp | 112 ++++++++++++++++++------------------------
 1 file changed, 49 insertions(+), 63 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index f24fee0..56293c3 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -469,11 +469,10 @@ namespace ceras
     ///
     auto inline broadcast( std::vector<unsigned long> const& new_shape ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [new_shape, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [new_shape]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [new_shape, forward_cache]<Tensor Tsor>( Tsor const& input )noexcept
@@ -1334,11 +1333,10 @@ namespace ceras
     ///
     auto inline argmax( unsigned long axis=0 ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -1627,11 +1625,10 @@ namespace ceras
             }
         };
 
-        std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
-
-        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward, output_cache, back_grad_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation, img2col_forward, img2col_backward]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
@@ -1891,12 +1888,11 @@ namespace ceras
         better_assert( factor < T{1}, "Expecting drop out rate less than 1, but got factor = ", factor );
         better_assert( factor > T{0}, "Expecting drop out rate greater than 0, but got factor = ", factor );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [factor, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [factor]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [factor, mask, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2054,12 +2050,11 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting max_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> mask = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, mask, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> mask = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 max_pooling_2d_context{}.make_forward()( stride, mask, forward_cache ),
@@ -2079,11 +2074,10 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting average_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [stride, forward_cache]<Tensor Tsor>( Tsor const& input ) noexcept // [BS, R, C, CH] --> [BS, R/s, C/s, CH]
@@ -2219,11 +2213,10 @@ namespace ceras
     {
         better_assert( stride > 1, "Expecting up_sampling_pooling_2d stride greater than 1, but got ", stride );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [stride, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [stride]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 up_sampling_2d_context{}.make_forward()( stride, forward_cache ),
@@ -2252,13 +2245,13 @@ namespace ceras
     {
         std::shared_ptr<std::any> global_average_cache = std::make_shared<std::any>();
         std::shared_ptr<std::any> global_variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
 
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> average_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> variance_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const& input ) noexcept
@@ -2852,11 +2845,10 @@ namespace ceras
         better_assert( right >= 1, "Expecting zero_padding_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 zero_padding_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -2977,11 +2969,10 @@ namespace ceras
         better_assert( right >= 1, "Expecting cropping_2d right padding no less than 1, but got ", right );
 
         // to avoid re-allocating memory for tensors
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [padding, top, bottom, left, right, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [padding, top, bottom, left, right]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 cropping_2d_context{}.make_forward()( top, bottom, left, right, forward_cache ),
@@ -3094,12 +3085,11 @@ namespace ceras
 
     inline auto sliding_2d( unsigned long pixels ) noexcept
     {
-        std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
         return [=]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> shift_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return cropping_2d( {pixels,} )( detailed_sliding_2d(pixels, shift_cache, forward_cache, backward_cache)( zero_padding_2d( {pixels,} )( ex ) )  );
         };
     }
@@ -3193,11 +3183,10 @@ namespace ceras
     {
         better_assert( repeats > 0, "repeat: repeats can not be zero." );
 
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [repeats, axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [repeats, axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 repeat_context{}.make_forward()( repeats, axis, forward_cache ),
@@ -3325,12 +3314,11 @@ namespace ceras
     ///
     inline auto reduce_min( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_min_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3460,12 +3448,11 @@ namespace ceras
     ///
     inline auto reduce_max( unsigned long axis=-1 ) noexcept
     {
-        std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, index_cache, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> index_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_max_context{}.make_forward()( axis, forward_cache, index_cache ),
@@ -3577,11 +3564,10 @@ namespace ceras
     ///
     inline auto reduce_sum( unsigned long axis ) noexcept
     {
-        std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-        std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
-
-        return [axis, forward_cache, backward_cache]<Expression Ex>( Ex const& ex ) noexcept
+        return [axis]<Expression Ex>( Ex const& ex ) noexcept
         {
+            std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::any> backward_cache = std::make_shared<std::any>();
             return make_unary_operator
             (
                 reduce_sum_context{}.make_forward()( axis, forward_cache ),
-- 
2.43.0


From 096e5554d323fcedf95f763c551cd60dc7f7e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 25/77] fix: the declared shape of reduce_min, reduce_max and
 reduce_sum along the last axis by default was undefined

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 56293c3..36d013b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -3328,7 +3328,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3462,7 +3462,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
@@ -3577,7 +3577,7 @@ namespace ceras
                 {
                     std::vector<unsigned long> ans = shape;
                     auto const new_axis = std::min( axis, shape.size()-1 );
-                    std::copy( ans.begin()+axis+1, ans.end(), ans.begin()+new_axis );
+                    std::copy( ans.begin()+new_axis+1, ans.end(), ans.begin()+new_axis );
                     ans.resize( ans.size() - 1 );
                     return ans;
                 },
-- 
2.43.0


From 3641ee8b465e7bf1e3e0ff460469d10b6e3a7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 26/77] fix: max_pooling_2d accumulated the maxima and the
 gradients of all the inputs it has seen

---
 include/operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 36d013b..2d0bdb3 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1971,7 +1971,7 @@ namespace ceras
 
                         Tsor& mask__ = context_cast<Tsor>( mask );
                         mask__.resize( input.shape() );
-
+                        std::fill( mask__.begin(), mask__.end(), value_type{0} ); // forget the maxima of the last evaluation
 
                         std::vector<unsigned long> shape = input.shape();
                         auto const[batch_size, row, col, channel] = std::make_tuple(shape[0], shape[1], shape[2], shape[3]);
@@ -2023,6 +2023,7 @@ namespace ceras
 
                         Tsor& ans = context_cast<Tsor>( backward_cache );
                         ans.resize( input.shape() );
+                        std::fill( ans.begin(), ans.end(), value_type{0} );
 
                         view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2030,8 +2031,8 @@ namespace ceras
                         view_4d<value_type> tg{ grad_.data(), batch_size, row/stride, col/stride, channel };
 
                         for ( auto bs : range( batch_size ) )
-                            for ( auto r : range( row ) )
-                                for ( auto c : range( col ) )
+                            for ( auto r : range( (row/stride)*stride ) ) // the remaining rows and columns are not pooled
+                                for ( auto c : range( (col/stride)*stride ) )
                                     for ( auto ch : range( channel ) )
                                         if ( std::abs(tm[bs][r][c][ch] - 1.0) < 1.0e-5 )
                                             ta[bs][r][c][ch] = tg[bs][r/stride][c/stride][ch];
-- 
2.43.0


From 0475aa82cf4680319e78ae5e9d1b9db611a77e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 27/77] fix: the gradient of average_pooling_2d read past its
 end for inputs not divisible by the stride

---
 include/operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2d0bdb3..103515b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2115,6 +2115,7 @@ namespace ceras
 
                     Tsor& ans = context_cast<Tsor>( backward_cache );
                     ans.resize( input.shape() );
+                    std::fill( ans.begin(), ans.end(), value_type{0} );
 
                     view_4d<value_type> ta{ ans.data(), batch_size, row, col, channel };
 
@@ -2123,8 +2124,8 @@ namespace ceras
 
                     value_type const factor = value_type{1} / static_cast<value_type>(stride*stride);
                     for ( auto bs : range( batch_size ) )
-                        for ( auto r : range( row ) )
-                            for ( auto c : range( col ) )
+                        for ( auto r : range( (row/stride)*stride ) ) // the remaining rows and columns are not pooled
+                            for ( auto c : range( (col/stride)*stride ) )
                                 for ( auto ch : range( channel ) )
                                     ta[bs][r][c][ch] = factor * tg[bs][r/stride][c/stride][ch];
                     return ans;
-- 
2.43.0


From e3aa042af6895e1d184661bd58244aab984c046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 28/77] fix: the output columns of a convolution were computed
 with the row padding

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 103515b..0dbde9d 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1693,7 +1693,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
@@ -1746,7 +1746,7 @@ namespace ceras
             }
 
             unsigned long const row_output = ( row_input + 2 * row_padding - ( row_dilation * (row_kernel - 1) + 1 ) ) / row_stride + 1;
-            unsigned long const col_output = ( col_input + 2 * row_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
+            unsigned long const col_output = ( col_input + 2 * col_padding - ( col_dilation * (col_kernel - 1) + 1 ) ) / col_stride + 1;
 
             auto lhs_ex_as_col = img2col(row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation)( lhs_ex ); // [BS, R, C, CH] ==> [r*c*CH, BS*new_row*new_col]
 
-- 
2.43.0


From a6a414abd1f53a444cfd8b9c94a395b6e125dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 29/77] fix: a convolution of several channels did not read its
 filters as [NC, r, c, CH]

---
 include/operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 0dbde9d..ab9566b 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1568,9 +1568,10 @@ namespace ceras
                     std::int64_t const im_offset = bs * R * C * CH;
                     for ( auto c : range( CH * kernel_row * kernel_col ) )
                     {
-                        std::int64_t const w_offset = c % kernel_col;
-                        std::int64_t const h_offset = ( c / kernel_col ) % kernel_row;
-                        std::int64_t const c_im = c / ( kernel_col * kernel_row );
+                        // same order as the elements of a filter of shape [r, c, CH]
+                        std::int64_t const c_im = c % CH;
+                        std::int64_t const w_offset = ( c / CH ) % kernel_col;
+                        std::int64_t const h_offset = c / ( CH * kernel_col );
 
                         for ( auto h : range( output_row ) )
                         {
-- 
2.43.0


From 4e995b803e2f2136ae9b806f2f5d22e3f45178bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 30/77] fix: the padding of a convolution underflowed for
 strides larger than the kernel

---
 include/operation.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index ab9566b..49d280c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1685,9 +1685,11 @@ namespace ceras
             unsigned long col_padding = 0;
             if ( padding == "same" )
             {
-                unsigned long const row_padding_total = (row_kernel + (row_kernel - 1) * (row_dilation - 1) - row_stride);
+                unsigned long const row_extent = row_kernel + (row_kernel - 1) * (row_dilation - 1);
+                unsigned long const col_extent = col_kernel + (col_kernel - 1) * (col_dilation - 1);
+                unsigned long const row_padding_total = row_extent > row_stride ? row_extent - row_stride : 0UL;
                 better_assert( !(row_padding_total & 0x1), "Expecting total row padding to be even, but got ", row_padding_total, " With row input ", row_input, " and row_stride ", row_stride );
-                unsigned long const col_padding_total = (col_kernel + (col_kernel - 1) * (col_dilation - 1) - col_stride);
+                unsigned long const col_padding_total = col_extent > col_stride ? col_extent - col_stride : 0UL;
                 better_assert( !(col_padding_total & 0x1), "Expecting total col padding to be even, but got ", col_padding_total );
                 row_padding = ((row_kernel&1)+row_padding_total) >> 1;
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
@@ -1740,8 +1742,10 @@ namespace ceras
             unsigned long col_padding = 0;
             if ( padding == "same" )
             {
-                unsigned long const row_padding_total = (row_kernel + (row_kernel - 1) * (row_dilation - 1) - row_stride);
-                unsigned long const col_padding_total = (col_kernel + (col_kernel - 1) * (col_dilation - 1) - col_stride);
+                unsigned long const row_extent = row_kernel + (row_kernel - 1) * (row_dilation - 1);
+                unsigned long const col_extent = col_kernel + (col_kernel - 1) * (col_dilation - 1);
+                unsigned long const row_padding_total = row_extent > row_stride ? row_extent - row_stride : 0UL;
+                unsigned long const col_padding_total = col_extent > col_stride ? col_extent - col_stride : 0UL;
                 row_padding = ((row_kernel&1)+row_padding_total) >> 1;
                 col_padding = ((col_kernel&1)+col_padding_total) >> 1;
             }
-- 
2.43.0


From 2b0846128a37965e5cc429d3c70d89e9279ccada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 31/77] fix: img2col kept the indices of an input of another
 shape when the sizes of the results are the same

---
 include/operation.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 49d280c..a2eeb37 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1533,10 +1533,11 @@ namespace ceras
     {
         if ( col_kernel == (unsigned long)-1 ) col_kernel = row_kernel;
 
-        std::shared_ptr<std::vector<std::uint32_t>> s_index_record = std::make_shared<std::vector<std::uint32_t>>(); // col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
-
-        auto img2col_forward = [s_index_record]<Tensor Tsor>
+        // index_record: col_img[idx] = img[index_record[idx]]  -- (-1) for zero padding
+        // record_shape: the shape of the input the index record has been calculated for
+        auto img2col_forward = []<Tensor Tsor>
         (
+            std::vector<std::uint32_t>& index_record, std::vector<unsigned long>& record_shape,
             Tsor const& input_img, Tsor& output_col_mat,
             unsigned long kernel_row, unsigned long kernel_col,
             unsigned long padding_row, unsigned long padding_col,
@@ -1545,7 +1546,6 @@ namespace ceras
         ) noexcept
         {
             typedef typename Tsor::value_type value_type;
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
 
             std::vector<unsigned long> input_shape = input_img.shape();
             better_assert( input_shape.size() == 4, "Expecting a 4D tensor." );
@@ -1558,8 +1558,9 @@ namespace ceras
 
             output_col_mat.resize( {output_column_matrix_row, output_column_matrix_col} );
 
-            if ( index_record.size() != output_column_matrix_row * output_column_matrix_col ) // first-run?
+            if ( record_shape != input_shape ) // first-run?
             {
+                record_shape = input_shape;
                 index_record.resize( output_column_matrix_row * output_column_matrix_col );
 
                 for ( auto bs : range( BS ) )
@@ -1611,13 +1612,12 @@ namespace ceras
             }
         };
 
-        auto img2col_backward = [s_index_record]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
+        auto img2col_backward = []<Tensor Tsor>( std::vector<std::uint32_t> const& index_record, Tsor const& input, Tsor const&, Tsor const& grad, Tsor& ans ) noexcept
         {
             typedef typename Tsor::value_type value_type;
             ans.resize( input.shape() );
             std::fill( ans.begin(), ans.end(), value_type{0} );
 
-            std::vector<std::uint32_t>& index_record = *s_index_record; //32 bit should be enough for memory address offeset
             for ( auto idx : range( grad.size() ) )
             {
                 auto const index = index_record[idx];
@@ -1630,18 +1630,20 @@ namespace ceras
         {
             std::shared_ptr<std::any> output_cache = std::make_shared<std::any>();
             std::shared_ptr<std::any> back_grad_cache = std::make_shared<std::any>();
+            std::shared_ptr<std::vector<std::uint32_t>> index_record = std::make_shared<std::vector<std::uint32_t>>(); //32 bit should be enough for memory address offeset
+            std::shared_ptr<std::vector<unsigned long>> record_shape = std::make_shared<std::vector<unsigned long>>();
             return make_unary_operator
             (
                 [=]<Tensor Tsor>( Tsor const & tsor ) noexcept
                 {
                     Tsor& output = context_cast<Tsor>( output_cache );
-                    img2col_forward( tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
+                    img2col_forward( *index_record, *record_shape, tsor, output, row_kernel, col_kernel, row_padding, col_padding, row_stride, col_stride, row_dilation, col_dilation );
                     return Tsor{output};
                 },
                 [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     Tsor& back_grad = context_cast<Tsor>( back_grad_cache );
-                    img2col_backward( input, output, grad, back_grad );
+                    img2col_backward( *index_record, input, output, grad, back_grad );
                     return Tsor{back_grad};
                 },
                 "img2col",
-- 
2.43.0


From d79a4bafc00fd23b7f3baf060ec9ad7780a9997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 32/77] fix: a transposed convolution with strides applied them
 again to its dilated input

---
 include/operation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index a2eeb37..43e717c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1789,8 +1789,8 @@ namespace ceras
             new_shape[2] *= col_stride;
             if (padding == std::string("valid"))
             {
-                new_shape[1] += row_kernel * 2 - 2;
-                new_shape[2] += col_kernel * 2 - 2;
+                new_shape[1] += row_kernel * 2 - 1 - row_stride; // no zeros after the last row
+                new_shape[2] += col_kernel * 2 - 1 - col_stride;
             }
             return new_shape;
         };
@@ -1881,7 +1881,7 @@ namespace ceras
         {
             //auto new_lhs_ex = conv2d_tranpose_intermediate( row_kernel, col_kernel, row_stride, col_stride, padding )( lhs_ex );
             auto new_lhs_ex = conv2d_tranpose_intermediate( row_kernel, col_kernel, row_stride, col_stride, padding )( lhs_ex );
-            return general_conv2d( row_stride, col_stride, row_dilation, col_dilation, padding )( new_lhs_ex, flip(1)(flip(2)(rhs_ex)) );
+            return general_conv2d( 1UL, 1UL, row_dilation, col_dilation, padding )( new_lhs_ex, flip(1)(flip(2)(rhs_ex)) );
         };
     }
 
-- 
2.43.0


From 144bc6b4d35a0251afce34050553529fa24c5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 33/77] fix: the gradient of conv2d_transpose did not compile,
 it viewed its constant argument as mutable

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 43e717c..2b530bd 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1837,7 +1837,7 @@ namespace ceras
 
                     std::vector<unsigned long> const& output_shape = grad.shape();
                     auto [_bs, o_row, o_col, _ch] = std::make_tuple( output_shape[0], output_shape[1], output_shape[2], output_shape[3] );
-                    view_4d<value_type> g_4d{ grad.data(), bs, o_row, o_col, ch };
+                    view_4d<value_type const> g_4d{ grad.data(), bs, o_row, o_col, ch };
 
                     unsigned long row_offset = (padding == std::string{"valid"}) ? (row_kernel-1) : 0;
                     unsigned long col_offset = (padding == std::string{"valid"}) ? (col_kernel-1) : 0;
-- 
2.43.0


From 59e2bfd22428315840b1010cca2b84907793b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 34/77] fix: reshaping a tensor to an empty shape, as reducing
 a 1-D tensor does, read past the end of the shape

---
 include/tensor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor.hpp b/include/tensor.hpp
index 305226a..d997111 100644
--- a/include/tensor.hpp
+++ b/include/tensor.hpp
@@ -354,7 +354,7 @@ namespace ceras
         constexpr self_type& reshape( std::vector<unsigned long> const& new_shape )
         {
             std::vector<unsigned long> _new_shape = new_shape;
-            if ( *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) )
+            if ( (!_new_shape.empty()) && ( *(_new_shape.rbegin()) == static_cast<unsigned long>( -1 ) ) )
                 *(_new_shape.rbegin()) = (*this).size() / std::accumulate( _new_shape.begin(), _new_shape.end()-1, 1Ul, []( unsigned long x, unsigned long y ){ return x*y; } );
 
             unsigned long const new_size = std::accumulate( _new_shape.begin(), _new_shape.end(), 1UL, [](auto x, auto y){ return x*y; } );
-- 
2.43.0


From 6310a63b3ba72afc57b714befe6c99a17672aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 35/77] fix: the end of a 2D view, and the rows and columns of
 a constant one, did not compile

---
 include/utils/view.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils/view.hpp b/include/utils/view.hpp
index cced0b7..2df74d6 100644
--- a/include/utils/view.hpp
+++ b/include/utils/view.hpp
@@ -67,6 +67,8 @@ namespace ceras
         constexpr const T* data() const noexcept { return data_; }
 
         constexpr T* begin() noexcept { return data_; }
+        constexpr const T* begin() const noexcept { return data_; }
+        constexpr T* end() noexcept { return begin()+size(); }
         constexpr const T* end() const noexcept { return begin()+size(); }
 
         constexpr unsigned long row() const noexcept { return row_; }
-- 
2.43.0


From 5591bc8ad1089261b9d341875ac4df05437ae78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 36/77] fix: the gradient of drop_out was not scaled like its
 output

---
 include/operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 2b530bd..f983a8c 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1930,8 +1930,10 @@ namespace ceras
                         ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
-                [mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
+                [factor, mask, backward_cache]<Tensor Tsor>( Tsor const&, Tsor const&, Tsor const& grad ) noexcept
                 {
+                    typedef typename Tsor::value_type value_type;
+
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return grad;
 
@@ -1941,7 +1943,7 @@ namespace ceras
                     ans.deep_copy( grad );
 
                     for ( auto idx : range( grad.size() ) )
-                        ans[idx] *= mask__[idx];
+                        ans[idx] *= mask__[idx] / (value_type{1} - factor);
                     return ans;
                 },
                 "dropout",
-- 
2.43.0


From 6d5d99982ca1fe4f56e8a397ce354490ab0b6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 37/77] fix: drop_out dropped the same elements forever, and
 read past its mask when the batch grew

---
 include/operation.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index f983a8c..937fde7 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -1909,19 +1909,12 @@ namespace ceras
                     if ( learning_phase == 0 ) // defined in 'config.hpp'
                         return input;
 
-                    std::any& mask_ = *mask;
-                    // first run, initialize mask
-                    if ( !mask_.has_value() )
-                    {
-                        Tsor const random_tensor = random<value_type>( input.shape() );
-                        Tsor mask__{ input.shape() };
-                        for ( auto idx : range( input.size() ) )
-                            if ( random_tensor[ idx ] > factor )
-                                mask__[ idx ] = 1;
-                        mask_ = mask__; // initialize
-                    }
-
-                    Tsor& mask__ = std::any_cast<Tsor&>( mask_ );
+                    // every run drops elements of its own
+                    Tsor& mask__ = context_cast<Tsor>( mask );
+                    mask__.resize( input.shape() );
+                    Tsor const random_tensor = random<value_type>( input.shape() );
+                    for ( auto idx : range( input.size() ) )
+                        mask__[ idx ] = random_tensor[ idx ] > factor ? value_type{1} : value_type{0};
 
                     Tsor& ans = context_cast<Tsor>( forward_cache );
                     ans.deep_copy( input );
-- 
2.43.0


From 0f68c05ad2533f7a97ac2b389496774f14c85e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 38/77] fix: the gradient of normalization_batch was written
 past its end when the batch grew

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 937fde7..a599cca 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2358,6 +2358,7 @@ namespace ceras
                     unsigned long const rest_dims = input.size() / channels;
 
                     Tsor& ans = context_cast<Tsor>( backward_cache, zeros_like( input ) );
+                    ans.resize( input.shape() );
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
                     for ( auto r : range( rest_dims ) )
-- 
2.43.0


From d0002429f55b50743b7f3ff0f961621d28a28294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 39/77] fix: the gradient of normalization_batch ignored that
 the average and the variance depend on the input

---
 include/operation.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index a599cca..6ed8fb0 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2348,7 +2348,7 @@ namespace ceras
                     return ans;
                 },
 
-                [=]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
+                [=]<Tensor Tsor>( Tsor const& input, Tsor const& output, Tsor const& grad ) noexcept
                 {
                     typedef typename Tsor::value_type value_type;
                     Tsor& variance = context_extract<Tsor>( variance_cache );
@@ -2361,9 +2361,23 @@ namespace ceras
                     ans.resize( input.shape() );
                     view_2d<value_type> ans_{ans.data(), rest_dims, channels };
                     view_2d<value_type> grad_{grad.data(), rest_dims, channels };
-                    for ( auto r : range( rest_dims ) )
-                        for ( auto c : range( channels ) )
-                            ans_[r][c] = grad_[r][c] / std::sqrt( variance[c] + eps );
+                    view_2d<value_type> output_{output.data(), rest_dims, channels };
+                    // the average and the variance of a channel depend on all its elements
+                    for ( auto c : range( channels ) )
+                    {
+                        value_type grad_average{0};
+                        value_type grad_output_average{0};
+                        for ( auto r : range( rest_dims ) )
+                        {
+                            grad_average += grad_[r][c];
+                            grad_output_average += grad_[r][c] * output_[r][c];
+                        }
+                        grad_average /= static_cast<value_type>( rest_dims );
+                        grad_output_average /= static_cast<value_type>( rest_dims );
+
+                        for ( auto r : range( rest_dims ) )
+                            ans_[r][c] = ( grad_[r][c] - grad_average - output_[r][c] * grad_output_average ) / std::sqrt( variance[c] + eps );
+                    }
                     return ans;
                 },
                 "normalization_batch",
-- 
2.43.0


From 3bedefad86ce7bcdb364170d53c733c465847892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 40/77] fix: normalization_batch never learned its averages
 after a prediction before the training

---
 include/operation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 6ed8fb0..978b7e9 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2338,6 +2338,8 @@ namespace ceras
                         //       initializing global_variance to ones, after 10 epochs mnist gives an error of 0.028
                         Tsor& global_variance = context_cast<Tsor>( global_variance_cache, zeros_like( variance ) );
                         //Tsor& global_variance = context_cast<Tsor>( global_variance_cache, ones_like( variance ) );
+                        if ( global_average.empty() ) // a prediction has been made before
+                            global_average = zeros_like( average );
                         for ( auto idx : range( global_average.size() ) )
                         {
                             global_average[idx] = global_average[idx] * momentum + average[idx] * ( 1.0 - momentum );
-- 
2.43.0


From d5f7f01167166713a8876a9899554ebc64754314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 41/77] fix: operator > of place holders was operator <

---
 include/place_holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/place_holder.hpp b/include/place_holder.hpp
index 4c8eb06..0c6b4b9 100644
--- a/include/place_holder.hpp
+++ b/include/place_holder.hpp
@@ -118,7 +118,7 @@ namespace ceras
     template< Place_Holder Ph >
     bool operator > ( Ph const& lhs, Ph const& rhs )
     {
-        return lhs.id() < rhs.id();
+        return lhs.id() > rhs.id();
     }
 
     template< Place_Holder Ph >
-- 
2.43.0


From b7508c5db56ce9a7ed5cf03b91ea4a15f55135e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 42/77] fix: the declared shape of cross_entropy_loss was the
 one of its input

---
 include/loss.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/loss.hpp b/include/loss.hpp
index 804f15e..3e5b86b 100644
--- a/include/loss.hpp
+++ b/include/loss.hpp
@@ -129,7 +129,8 @@ namespace ceras
     template < Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point F=float >
     auto constexpr cross_entropy_loss( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex, F label_smoothing_factor=0.0 ) noexcept
     {
-        return make_binary_operator( cross_entropy_loss_context{}.make_forward( label_smoothing_factor ), cross_entropy_loss_context{}.make_backward( label_smoothing_factor ), "CrossEntropyLoss" )( lhs_ex, rhs_ex );
+        return make_binary_operator( cross_entropy_loss_context{}.make_forward( label_smoothing_factor ), cross_entropy_loss_context{}.make_backward( label_smoothing_factor ), "CrossEntropyLoss",
+                                     []( std::vector<unsigned long> const&, std::vector<unsigned long> const& ) noexcept { return std::vector<unsigned long>{ {1,} }; } )( lhs_ex, rhs_ex );
     }
 
     template < Expression Lhs_Expression, Expression Rhs_Expression >
-- 
2.43.0


From a7adac4409baad9b98651a8bb52a24bf7649c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 43/77] fix: the trainable flag and the regularizer of a
 variable were not shared by its copies in expressions and sessions

---
 include/optimizer.hpp | 12 +++++-----
 include/variable.hpp  | 56 ++++++++++++++++++++++---------------------
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 2c2afa0..31da89e 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -49,7 +49,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -94,7 +94,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -145,7 +145,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -195,7 +195,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -270,7 +270,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     auto& data = v.data();
                     auto& gradient = v.gradient();
@@ -340,7 +340,7 @@ namespace ceras
             auto& ss = get_default_session<tensor_type>();//.get();
             for ( auto& [id, v] : ss.variables_ )
             {
-                if (v.trainable_)
+                if (v.trainable())
                 {
                     //v.data() -= learning_rate_ * (v.gradient());
                     //
diff --git a/include/variable.hpp b/include/variable.hpp
index 37d4b55..73acc52 100644
--- a/include/variable.hpp
+++ b/include/variable.hpp
@@ -23,14 +23,6 @@ namespace ceras
     template< Tensor Tsor >
     ceras_private::session<Tsor>& get_default_session();
 
-    template< Tensor Tsor >
-    struct variable_state
-    {
-        Tsor data_;
-        Tsor gradient_;
-        std::vector<Tsor> contexts_;
-    };
-
     template< typename Float > requires std::floating_point<Float>
     struct regularizer
     {
@@ -42,6 +34,16 @@ namespace ceras
         constexpr regularizer( value_type l1=0.0, value_type l2=0.0, bool synchronized=false ) noexcept : l1_{l1}, l2_{l2}, synchronized_{synchronized} {}
     };
 
+    template< Tensor Tsor >
+    struct variable_state
+    {
+        Tsor data_;
+        Tsor gradient_;
+        std::vector<Tsor> contexts_;
+        regularizer<typename Tsor::value_type> regularizer_; // shared by all the copies of a variable
+        bool trainable_ = true;
+    };
+
     template< Tensor Tsor >
     struct variable : enable_id<variable<Tsor>, "Variable">
     {
@@ -49,12 +51,12 @@ namespace ceras
         typedef typename tensor_type::value_type value_type;
 
         std::shared_ptr<variable_state<tensor_type>> state_;
-        regularizer<value_type> regularizer_;
-        bool trainable_;
 
-        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}, regularizer_{l1, l2, true}, trainable_{trainable}
+        variable( tensor_type const& data, value_type l1=value_type{0}, value_type l2=value_type{0}, bool trainable=true ) : enable_id<variable<tensor_type>, "Variable">{}
         {
             (*this).state_ = std::make_shared<variable_state<tensor_type>>();
+            (*((*this).state_)).regularizer_ = regularizer<value_type>{ l1, l2, true };
+            (*((*this).state_)).trainable_ = trainable;
             (*((*this).state_)).data_ = data;
             (*((*this).state_)).gradient_ = tensor_type{ data.shape() };
 
@@ -77,16 +79,16 @@ namespace ceras
             {
                 typedef typename tensor_type::value_type value_type;
                 state.gradient_.reset( value_type{0} );
-                regularizer_.synchronized_ = false; // mark changes
+                state.regularizer_.synchronized_ = false; // mark changes
             }
             return state.data_;
         }
 
         void backward( auto const& grad ) noexcept
         {
-            if (!trainable_) return;
-
             auto& state = *((*this).state_);
+            if (!state.trainable_) return;
+
             {
                 if (state.gradient_.shape() != state.data_.shape())
                     state.gradient_.resize( state.data_.shape() );
@@ -94,20 +96,20 @@ namespace ceras
             state.gradient_ += grad; // collecting all the gradients from its children nodes, will be called mulitple times in a single backward pass
 
             // apply regularizers
-            if (!(regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
+            if (!(state.regularizer_.synchronized_)) // in case of multiple invoke of this method in a same backward pass
             {
-                if ( regularizer_.l1_ >= eps ) // l1 regularizer
+                if ( state.regularizer_.l1_ >= eps ) // l1 regularizer
                 {
-                    value_type const factor = regularizer_.l1_;
+                    value_type const factor = state.regularizer_.l1_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += (d >= value_type{0}) ? factor : -factor; } );
                 }
-                if ( regularizer_.l2_ >= eps ) // l2 regularizer
+                if ( state.regularizer_.l2_ >= eps ) // l2 regularizer
                 {
-                    value_type const factor = regularizer_.l2_;
+                    value_type const factor = state.regularizer_.l2_;
                     for_each( state.data_.begin(), state.data_.end(), state.gradient_.begin(), [factor]( value_type d, value_type& g ){ g += value_type{2} * d * factor; } );
                 }
 
-                regularizer_.synchronized_ = true;
+                state.regularizer_.synchronized_ = true;
             }
         }
 
@@ -159,29 +161,29 @@ namespace ceras
             gradient().reset();
         }
 
-        bool trainable() const noexcept { return trainable_; }
-        bool& trainable() noexcept { return trainable_; }
+        bool trainable() const noexcept { return (*((*this).state_)).trainable_; }
+        bool& trainable() noexcept { return (*((*this).state_)).trainable_; }
 
-        void trainable( bool t ) { trainable_ = t; }
+        void trainable( bool t ) { (*((*this).state_)).trainable_ = t; }
 
         value_type l1_regularizer() const
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type& l1_regularizer()
         {
-            return regularizer_.l1_;
+            return (*((*this).state_)).regularizer_.l1_;
         }
 
         value_type l2_regularizer() const
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
         value_type& l2_regularizer()
         {
-            return regularizer_.l2_;
+            return (*((*this).state_)).regularizer_.l2_;
         }
 
     };//struct variable
-- 
2.43.0


From 71b39154a391b1f1f6c778cc39f8965752d05a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 44/77] fix: making a model trainable or not did not compile

---
 include/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 7937e5e..6a686d9 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -23,12 +23,12 @@ namespace ceras
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            make_trainable( ex.lhs_op_, t );
-            make_trainable( ex.rhs_op_, t );
+            make_trainable( ex.lhs_op(), t );
+            make_trainable( ex.rhs_op(), t );
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            make_trainable( ex.op_, t );
+            make_trainable( ex.op(), t );
         }
     }
 
-- 
2.43.0


From d789c741390e98886f3e905c5443512acd45773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 45/77] fix: applying a model to an expression did not compile

---
 include/model.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/model.hpp b/include/model.hpp
index 6a686d9..d7a538b 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -54,13 +54,13 @@ namespace ceras
         }
         else if constexpr (is_unary_operator_v<Ex>)
         {
-            return make_unary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )( replace_placeholder_with_expression( ex.op_, old_place_holder, new_expression ) );
+            return make_unary_operator( ex.forward_action(), ex.backward_action(), ex.name(), ex.output_shape_calculator(), ex.serializer() )( replace_placeholder_with_expression( ex.op(), old_place_holder, new_expression ) );
         }
         else if constexpr (is_binary_operator_v<Ex>)
         {
-            return make_binary_operator( ex.forward_action_, ex.backward_action_, ex.name_, ex.output_shape_calculator_ )
-                                       ( replace_placeholder_with_expression( ex.lhs_op_, old_place_holder, new_expression ),
-                                         replace_placeholder_with_expression( ex.rhs_op_, old_place_holder, new_expression ) );
+            return make_binary_operator( ex.forward_action(), ex.backward_action(), ex.name(), ex.output_shape_calculator(), ex.serializer() )
+                                       ( replace_placeholder_with_expression( ex.lhs_op(), old_place_holder, new_expression ),
+                                         replace_placeholder_with_expression( ex.rhs_op(), old_place_holder, new_expression ) );
         }
         else
         {
-- 
2.43.0


From 3cc9210040518f746e288d3e358f1c03e30dbc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 46/77] fix: fit trained on the first validation batch, and
 averaged one error too many

---
 include/model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model.hpp b/include/model.hpp
index d7a538b..73c87dc 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -206,7 +206,7 @@ namespace ceras
                     // forward pass
                     auto error = s.run( loss_ ).as_scalar();
                     // in case of training split, do backpropagation
-                    if ( l <= training_loops )
+                    if ( l < training_loops )
                     {
                         training_error += error;
                         s.run( compiled_optimizer_ );
-- 
2.43.0


From 058afd4245b23b07eb2a09ee3ac90af94deb457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 47/77] fix: the validation batches of fit updated the
 normalization layers and were dropped out

---
 include/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/model.hpp b/include/model.hpp
index 73c87dc..fc9491f 100644
--- a/include/model.hpp
+++ b/include/model.hpp
@@ -200,6 +200,8 @@ namespace ceras
                 value_type validation_error = 0;
                 for ( auto l : tq::trange( loops_per_epoch ) )
                 {
+                    learning_phase = ( l < training_loops ) ? 1 : 0; // validation batches are only evaluated
+
                     // feed data
                     std::copy_n( inputs.data() + l * input_size_per_batch, input_size_per_batch, input_samples.data() );
                     std::copy_n( outputs.data() + l * output_size_per_batch, output_size_per_batch, output_samples.data() );
@@ -216,6 +218,8 @@ namespace ceras
                         validation_error += error;
                     }
                 }
+                learning_phase = 1; // for different behaviours in normalization and drop-out layers
+
                 training_errors.push_back( training_error / training_loops );
                 validation_errors.push_back( validation_error / validation_loops );
                 if ( verbose )
-- 
2.43.0


From c8069603f095cf6124c37e9da0dee27d61ff46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 48/77] fix: the nesterov flag of sgd was inverted

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 31da89e..4145634 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -58,7 +58,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
                     for_each( moments.begin(), moments.end(), gradient.begin(), [this]( T& m, T g ) { m *= (*this).momentum_; m -= (*this).learning_rate_ * g;} );
-                    if (!nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
+                    if ( nesterov_ ) for_each( moments.begin(), moments.end(), data.begin(), gradient.begin(), [this]( T m, T& v, T g ) { v += (*this).momentum_ * m - (*this).learning_rate_ * g; } );
                     else data += moments;
 
                     gradient.reset(); // clear variable gradient
-- 
2.43.0


From 08553e98390c045776818f71c90d3aac9319ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 49/77] fix: adadelta accumulated the updates and the gradients
 in the same buffer

---
 include/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index 4145634..d6cfc69 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -208,7 +208,7 @@ namespace ceras
                         contexts.push_back( zeros_like( data ) );
                     }
                     auto& moments = contexts[0];
-                    auto& delta = contexts[0];
+                    auto& delta = contexts[1];
 
                     /*
                     if (iterations_==0)
-- 
2.43.0


From ef1ab157308ec561d6d29d0cc31b92e8e6f38919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 50/77] fix: an optimizer started from the moments of the
 previous one, and read past them when it keeps more

---
 include/optimizer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/optimizer.hpp b/include/optimizer.hpp
index d6cfc69..91ced62 100644
--- a/include/optimizer.hpp
+++ b/include/optimizer.hpp
@@ -54,6 +54,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
+                    if ( iterations_ == 0 ) // drop the context of another optimizer
+                        contexts.clear();
                     if ( contexts.empty() ) // create context
                         contexts.push_back( zeros_like( data ) );
                     auto& moments = contexts[0];
@@ -99,6 +101,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
+                    if ( iterations_ == 0 ) // drop the context of another optimizer
+                        contexts.clear();
                     if ( contexts.empty() ) // create context
                         contexts.push_back( zeros_like( data ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
@@ -150,6 +154,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
+                    if ( iterations_ == 0 ) // drop the context of another optimizer
+                        contexts.clear();
                     if ( contexts.empty() ) // create context
                         contexts.push_back( zeros_like( data ) );
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
@@ -200,6 +206,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
+                    if ( iterations_ == 0 ) // drop the context of another optimizer
+                        contexts.clear();
                     if ( contexts.empty() ) // create context
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
@@ -275,6 +283,8 @@ namespace ceras
                     auto& data = v.data();
                     auto& gradient = v.gradient();
                     auto& contexts = v.contexts();
+                    if ( iterations_ == 0 ) // drop the context of another optimizer
+                        contexts.clear();
                     if ( contexts.empty() ) // create context
                     {
                         //contexts.push_back( std::make_shared<tensor_type>( zeros_like( data ) ) );
-- 
2.43.0


From 0a893230faa5e6a25cc6d8eb2aa289421aed87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 51/77] fix: the free function run and session::tap did not
 compile

---
 include/session.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/session.hpp b/include/session.hpp
index 3f8c609..d524cbe 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -65,7 +65,7 @@ namespace ceras
         // register variables associated to the op to this session
         // usually being called before restoring a session from a file
         template< typename Operation >
-        void tap( Operation& op ) const
+        void tap( Operation& op )
         {
             run( op );
         }
@@ -234,7 +234,7 @@ namespace ceras
     auto run( Operation& op )
     {
         typedef typename Operation::tensor_type tensor_type;
-        auto ss = get_default_session<tensor_type>();
+        auto& ss = get_default_session<tensor_type>();
         return ss.run( op );
     }
 
-- 
2.43.0


From 34e168fbb1ca8e0279e6600e494e543f594ad7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 52/77] fix: subtracting a complex expression from an
 expression added them

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index b0c959d..10f54fa 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -248,7 +248,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator - ( E const& e, C const& c ) noexcept
     {
-        return c + e;
+        return complex{ e-real(c), negative(imag(c)) };
     }
 
     ///
-- 
2.43.0


From e506820af07c9fa943f964eb70b52a5741b996f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 53/77] fix: the gradients of a model applied to its own output
 were overwritten while they propagated

---
 include/operation.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 978b7e9..555fc29 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -95,7 +95,7 @@ namespace ceras
 
         void backward( tensor_type const& grad )
         {
-            auto const& current_gradient = backward_action()( state_->input_data_, output_data_, grad );
+            auto const& current_gradient = deep_copy( backward_action()( state_->input_data_, output_data_, grad ) ); // actions return their own buffer, which the operators below can share
             op().backward( current_gradient );
         }
 
@@ -208,8 +208,10 @@ namespace ceras
         void backward( tensor_type const& grad )
         {
             auto const& [current_gradient_lhs, current_gradient_rhs] = backward_action()( state_->lhs_input_data_, state_->rhs_input_data_, output_data_, grad );
-            lhs_op().backward( current_gradient_lhs );
-            rhs_op().backward( current_gradient_rhs );
+            auto const& gradient_lhs = deep_copy( current_gradient_lhs ); // actions return their own buffers, which the operators below can share
+            auto const& gradient_rhs = deep_copy( current_gradient_rhs );
+            lhs_op().backward( gradient_lhs );
+            rhs_op().backward( gradient_rhs );
         }
 
         ///
-- 
2.43.0


From c27cb4140706d35820832095410cb0a047430a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 54/77] fix: the progress bar had an arbitrary or negative size
 without a terminal, for which fit and evaluate never ended

---
 include/utils/tqdm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utils/tqdm.hpp b/include/utils/tqdm.hpp
index 00ab065..3c130eb 100644
--- a/include/utils/tqdm.hpp
+++ b/include/utils/tqdm.hpp
@@ -43,9 +43,9 @@ namespace dm_details
         }
         else
         {
-            winsize w;
-            ioctl(0, 0x5413, &w); // 0x5413 is translated from macro 'TIOCGWINSZ'
-            return w.ws_col;
+            winsize w{};
+            bool const is_terminal = ( ioctl(0, 0x5413, &w) == 0 ); // 0x5413 is translated from macro 'TIOCGWINSZ'
+            return ( is_terminal && w.ws_col > 40 ) ? w.ws_col : 80; // no terminal, or too narrow for a progress bar
         }
     }
 }
-- 
2.43.0


From 2ba009f0072692271cc3910e2235c4b6e8cc7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 55/77] fix: zero_padding_2d padded with elements of its last
 result when the input had another shape

---
 include/operation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operation.hpp b/include/operation.hpp
index 555fc29..d5eca33 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2787,6 +2787,7 @@ namespace ceras
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
                         ans.resize( {batch_size, top+row+bottom, left+col+right, channel} );
+                        std::fill( ans.begin(), ans.end(), value_type{0} ); // the padding could hold the result for an input of another shape
                         view_4d<value_type> ta{ ans.data(), batch_size, top+row+bottom, left+col+right, channel };
 
                         for ( auto bs : range( batch_size ) )
-- 
2.43.0


From 814f2ffd2a4fe5980c20c1be2244758cb34ccdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 56/77] fix: lzw decompression accepted a file cut inside a
 code whose first bits look like the end mark

---
 include/utils/lzw.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index 4bb0607..31963ec 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -373,10 +373,12 @@ namespace lzw
                         k |= static_cast<CodeType>(temp & masks[remaining_bits]) << offset;
                         lo.used = CHAR_BIT - remaining_bits;
                         lo.data = temp >> remaining_bits;
+                        remaining_bits = 0;
                         break;
                     }
 
-                if (k == static_cast<CodeType>(MetaCode::Eof))
+                // the first bits of a truncated code may happen to look like the end-of-file metacode
+                if (k == static_cast<CodeType>(MetaCode::Eof) && remaining_bits == 0)
                 {
                     feofmc = true;
                     return false;
@@ -466,6 +468,12 @@ namespace lzw
         if (i != globals::dms)
         {
             cw.write(i);
+
+            // the decoder has one more dictionary entry by now
+            if (required_bits(ed.size()) > cw.get_bits())
+            {
+                cw.increase_bits();
+            }
         }
     }
 
-- 
2.43.0


From 471ed734507aebff49b1e07cfc168cb43d2d2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 57/77] fix: lzw decompression read an empty string for a
 damaged file whose first code is the next free one

---
 include/utils/lzw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/lzw.hpp b/include/utils/lzw.hpp
index 31963ec..b18ddcc 100644
--- a/include/utils/lzw.hpp
+++ b/include/utils/lzw.hpp
@@ -544,7 +544,7 @@ namespace lzw
                 break;
             }
 
-            if (k > dictionary.size())
+            if (k > dictionary.size() || (k == dictionary.size() && i == globals::dms)) // the first code cannot refer to a previous one
             {
                 better_assert(false, "lzw::invalid compression code with k = ", k, " but dictionary size ", dictionary.size());
                 return -1;
-- 
2.43.0


From 938e6796d5e25bb6634170240c07fc5387be3d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 58/77] fix: an expression times a complex expression
 multiplied the matrices in the opposite order

---
 include/complex_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/complex_operator.hpp b/include/complex_operator.hpp
index 10f54fa..0a3085f 100644
--- a/include/complex_operator.hpp
+++ b/include/complex_operator.hpp
@@ -266,7 +266,7 @@ namespace ceras
     template< Complex C, Expression E >
     auto operator * ( E const& e, C const& c ) noexcept
     {
-        return c * e;
+        return complex{ e*real(c), e*imag(c) };
     }
 
 
-- 
2.43.0


From a6225f9f0c4b6aec13752d80da22dc18ea745b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 59/77] fix: buffered_allocator allocated sizeof(T) times the
 elements it released

---
 include/utils/buffered_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/buffered_allocator.hpp b/include/utils/buffered_allocator.hpp
index 1ea9200..1faf9f2 100644
--- a/include/utils/buffered_allocator.hpp
+++ b/include/utils/buffered_allocator.hpp
@@ -43,7 +43,7 @@ namespace ceras
             else // default heap allocation
             {
                 std::allocator<T> a;
-                return a.allocate( bytes );
+                return a.allocate( n );
             }
         }
 
-- 
2.43.0


From d2b80b182606dfb586b7ff13e0278862549300a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 60/77] fix: memory released for want of memory was handed out
 again

---
 include/utils/cached_allocator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils/cached_allocator.hpp b/include/utils/cached_allocator.hpp
index d9be9a3..3ba86ec 100644
--- a/include/utils/cached_allocator.hpp
+++ b/include/utils/cached_allocator.hpp
@@ -104,6 +104,7 @@ namespace ceras
                 std::allocator<std::byte> alloc;
                 for ( auto& [size, address] : reserved_memory )
                     alloc.deallocate( address, size );
+                reserved_memory.clear();
 
                 return true;
             }
-- 
2.43.0


From 302f33197c0943b9dee7dfe8214293842fd86907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 61/77] fix: the move assignment of a vector leaked the memory
 of its destination

---
 include/utils/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4cec322..4f4d88b 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -33,6 +33,10 @@ namespace ceras
 
         constexpr vector& operator = ( vector && other ) noexcept
         {
+            if ( this == &other )
+                return *this;
+
+            clear();
             size_ = other.size_;
             data_ = other.data_;
             other.size_ = 0;
-- 
2.43.0


From e66afb2f56ea61a81a207b37ad048c58cab91101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 62/77] fix: a vector with memory inside of its allocator used
 the one of a destroyed allocator

---
 include/utils/vector.hpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index 4f4d88b..a4b1f81 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -22,13 +22,11 @@ namespace ceras
 
         unsigned long size_;
         pointer data_;
+        [[no_unique_address]] allocator_type alloc_; // the memory of a vector can be inside of its allocator
 
-        constexpr vector( vector && other ) noexcept
+        constexpr vector( vector && other ) noexcept : size_{ 0 }, data_{ nullptr }
         {
-            size_ = other.size_;
-            data_ = other.data_;
-            other.size_ = 0;
-            other.data_ = nullptr;
+            take( other );
         }
 
         constexpr vector& operator = ( vector && other ) noexcept
@@ -36,11 +34,7 @@ namespace ceras
             if ( this == &other )
                 return *this;
 
-            clear();
-            size_ = other.size_;
-            data_ = other.data_;
-            other.size_ = 0;
-            other.data_ = nullptr;
+            take( other );
             return *this;
         }
 
@@ -83,8 +77,7 @@ namespace ceras
         {
             if ( !empty() )
             {
-                allocator_type alloc;
-                alloc.deallocate( data_, size_ );
+                alloc_.deallocate( data_, size_ );
             }
             data_ = nullptr;
             size_ = 0;
@@ -100,8 +93,7 @@ namespace ceras
             if ( size != 0 )
             {
                 size_ = size;
-                allocator_type alloc;
-                data_ = alloc.allocate( size_ );
+                data_ = alloc_.allocate( size_ );
             }
         }
 
@@ -125,6 +117,23 @@ namespace ceras
             return size() == 0;
         }
 
+    private:
+        constexpr void take( vector& other )
+        {
+            if constexpr( std::allocator_traits<allocator_type>::is_always_equal::value )
+            {
+                clear();
+                size_ = other.size_;
+                data_ = other.data_;
+                other.size_ = 0;
+                other.data_ = nullptr;
+            }
+            else // the memory cannot be released by another allocator
+            {
+                *this = static_cast<vector const&>( other );
+                other.clear();
+            }
+        }
 
     }; // struct vector
 
-- 
2.43.0


From 0e72aeaff6afd88917a37c17336c3bb4930c67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 63/77] fix: a vector resized without enough memory released a
 null pointer

---
 include/utils/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/vector.hpp b/include/utils/vector.hpp
index a4b1f81..e1b1abc 100644
--- a/include/utils/vector.hpp
+++ b/include/utils/vector.hpp
@@ -92,8 +92,8 @@ namespace ceras
 
             if ( size != 0 )
             {
+                data_ = alloc_.allocate( size );
                 size_ = size;
-                data_ = alloc_.allocate( size_ );
             }
         }
 
-- 
2.43.0


From bcdd1575e85e8bda54e165572c98b26f92aaffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 64/77] fix: resizing a grey image read and wrote two channels
 per pixel

---
 include/utils/imageio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 025d1e8..0913116 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -20,7 +20,7 @@ namespace ceras::imageio
         }
         else
         {
-            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 2 ); // gray
+            stbir_resize_uint8( input_image.data(), input_shape[0], input_shape[1], 0, ans.data(), output_shape[0], output_shape[1], 0, 1 ); // gray
         }
 
         return ans;
-- 
2.43.0


From 6c6e93147ed308cf7628c5f38a1a7b3a83a5ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 65/77] fix: writing an image to a path without a dot in it
 threw

---
 include/utils/imageio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 0913116..32c95d6 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -52,7 +52,8 @@ namespace ceras::imageio
 
         // setting up extension
         std::string full_path = path;
-        std::string file_extension=full_path.substr(full_path.find_last_of('.'));
+        auto const last_dot = full_path.find_last_of('.');
+        std::string file_extension = (last_dot == std::string::npos) ? std::string{} : full_path.substr(last_dot);
         if ( file_extension.empty() )
         {
             full_path += std::string{".png"};
-- 
2.43.0


From e4541a308fc59099a81421600a843910fb800d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 66/77] fix: writing an hdr image reinterpreted its bytes as
 floats

---
 include/utils/imageio.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/utils/imageio.hpp b/include/utils/imageio.hpp
index 32c95d6..02838df 100644
--- a/include/utils/imageio.hpp
+++ b/include/utils/imageio.hpp
@@ -73,7 +73,18 @@ namespace ceras::imageio
             return 0 != stbi_write_jpg( full_path.c_str(), w, h, ch, reinterpret_cast<const void*>( image.data() ), 100 );
 
         if ( file_extension == std::string{".hdr"} )
-            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, reinterpret_cast<const float*>( image.data() ) );
+        {
+            typedef typename Tsor::value_type value_type;
+            tensor<float> image_{ image.shape() };
+            for_each( image.begin(), image.end(), image_.begin(), []( value_type x, float& v )
+            {
+                if constexpr( sizeof(value_type) == 1 ) // to linear light, as reading expects
+                    v = std::pow( static_cast<unsigned char>(x) / 255.0f, 2.2f );
+                else
+                    v = static_cast<float>( x );
+            } );
+            return 0 != stbi_write_hdr( full_path.c_str(), w, h, ch, image_.data() );
+        }
 
         // reaching here, the extension is unknown, png is the last chance
         full_path += std::string{".png"};
-- 
2.43.0


From aa690023f9d12fb9a2599cc194779bb6f4cf04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 67/77] fix: damaged or truncated mnist files were read beyond
 their end

---
 include/dataset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dataset.hpp b/include/dataset.hpp
index 07f1abc..f450029 100644
--- a/include/dataset.hpp
+++ b/include/dataset.hpp
@@ -44,6 +44,7 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                better_assert( image_data.size() >= offset && (image_data.size()-offset) % (28*28) == 0, "Expecting a header and whole images, but got ", image_data.size(), " bytes." );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -53,6 +54,8 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                better_assert( label_data.size() >= offset, "Expecting a header of ", offset, " bytes, but got ", label_data.size() );
+                better_assert( std::all_of( label_data.begin()+offset, label_data.end(), []( auto label ) { return label < 10; } ), "Expecting labels in range 0-9." );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
@@ -115,6 +118,7 @@ namespace ceras::dataset
             auto const& extract_image = []( std::vector<std::uint8_t> const& image_data )
             {
                 unsigned long const offset = 16;
+                better_assert( image_data.size() >= offset && (image_data.size()-offset) % (28*28) == 0, "Expecting a header and whole images, but got ", image_data.size(), " bytes." );
                 unsigned long const samples = (image_data.size()-offset) / (28*28);
                 tensor<std::uint8_t> ans{ {samples, 28UL, 28UL} };
                 std::copy( image_data.begin()+offset, image_data.end(), ans.data() );
@@ -124,6 +128,8 @@ namespace ceras::dataset
             auto const& extract_label = []( std::vector<std::uint8_t> const& label_data )
             {
                 unsigned long const offset = 8;
+                better_assert( label_data.size() >= offset, "Expecting a header of ", offset, " bytes, but got ", label_data.size() );
+                better_assert( std::all_of( label_data.begin()+offset, label_data.end(), []( auto label ) { return label < 10; } ), "Expecting labels in range 0-9." );
                 unsigned long const samples = label_data.size() - offset;
                 auto ans = zeros<std::uint8_t>({samples, 10});
                 auto ans_2d = matrix_view<std::uint8_t>{ ans.data(), samples, 10 };
-- 
2.43.0


From 8ab9ee93313f94906ccaed5895633dc765d508e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 68/77] fix: the image writer copied and released uninitialised
 memory

---
 include/utils/3rd_party/stb_image_write.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/utils/3rd_party/stb_image_write.h b/include/utils/3rd_party/stb_image_write.h
index df4de33..ef8c2c8 100644
--- a/include/utils/3rd_party/stb_image_write.h
+++ b/include/utils/3rd_party/stb_image_write.h
@@ -499,7 +499,7 @@ static int stbi_write_bmp_core(stbi__write_context *s, int x, int y, int comp, c
 
 STBIWDEF int stbi_write_bmp_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = {0};
+   stbi__write_context s = {};
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_bmp_core(&s, x, y, comp, data);
 }
@@ -507,7 +507,7 @@ STBIWDEF int stbi_write_bmp_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_bmp(char const *filename, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = {0};
+   stbi__write_context s = {};
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_bmp_core(&s, x, y, comp, data);
       stbi__end_write_file(&s);
@@ -598,7 +598,7 @@ static int stbi_write_tga_core(stbi__write_context *s, int x, int y, int comp, v
 
 STBIWDEF int stbi_write_tga_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = {};
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_tga_core(&s, x, y, comp, (void *) data);
 }
@@ -606,7 +606,7 @@ STBIWDEF int stbi_write_tga_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_tga(char const *filename, int x, int y, int comp, const void *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = {};
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_tga_core(&s, x, y, comp, (void *) data);
       stbi__end_write_file(&s);
@@ -772,7 +772,7 @@ static int stbi_write_hdr_core(stbi__write_context *s, int x, int y, int comp, f
 
 STBIWDEF int stbi_write_hdr_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const float *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = {};
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_hdr_core(&s, x, y, comp, (float *) data);
 }
@@ -780,7 +780,7 @@ STBIWDEF int stbi_write_hdr_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_hdr(char const *filename, int x, int y, int comp, const float *data)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = {};
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_hdr_core(&s, x, y, comp, (float *) data);
       stbi__end_write_file(&s);
@@ -1576,7 +1576,7 @@ static int stbi_write_jpg_core(stbi__write_context *s, int width, int height, in
 
 STBIWDEF int stbi_write_jpg_to_func(stbi_write_func *func, void *context, int x, int y, int comp, const void *data, int quality)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = {};
    stbi__start_write_callbacks(&s, func, context);
    return stbi_write_jpg_core(&s, x, y, comp, (void *) data, quality);
 }
@@ -1585,7 +1585,7 @@ STBIWDEF int stbi_write_jpg_to_func(stbi_write_func *func, void *context, int x,
 #ifndef STBI_WRITE_NO_STDIO
 STBIWDEF int stbi_write_jpg(char const *filename, int x, int y, int comp, const void *data, int quality)
 {
-   stbi__write_context s;// = 0;
+   stbi__write_context s = {};
    if (stbi__start_write_file(&s,filename)) {
       int r = stbi_write_jpg_core(&s, x, y, comp, data, quality);
       stbi__end_write_file(&s);
-- 
2.43.0


From cf250b09d46f3b838124257b949a1d939d62d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 69/77] fix: softplus overflowed for large arguments

---
 include/activation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/activation.hpp b/include/activation.hpp
index add46ee..0e38547 100644
--- a/include/activation.hpp
+++ b/include/activation.hpp
@@ -192,7 +192,7 @@ namespace ceras
                                         Tsor& ans = context_cast<Tsor>( forward_cache );
                                         ans.resize( input.shape() );
                                         std::copy( input.begin(), input.end(), ans.begin() );
-                                        ans.map( [](auto& x){ x = std::log(1.0+std::exp(x)); } ); // ln( 1+e^x )
+                                        ans.map( [](auto& x){ x = std::max( x, typename Tsor::value_type{0} ) + std::log1p( std::exp( -std::abs(x) ) ); } ); // ln( 1+e^x ), without overflow
                                         return ans;
                                     },
                                     [backward_cache]<Tensor Tsor>( Tsor const& input, Tsor const&, Tsor const& grad ) noexcept
-- 
2.43.0


From 4fe63cf09fded001485e39ca24ccbeea05be8f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 70/77] fix: the gradient of inverse was off below 0.0001 where
 its value is not

---
 include/operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index d5eca33..9898935 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -832,7 +832,7 @@ namespace ceras
                                     {
                                         Tsor& ans = context_cast<Tsor>( backward_cache );
                                         ans.resize( input.shape() );
-                                        for_each( ans.begin(), ans.end(), grad.begin(), input.begin(), []( auto& x, auto y, auto z ){ x = - y / std::max(static_cast<double>(z*z), eps); } );
+                                        for_each( ans.begin(), ans.end(), grad.begin(), input.begin(), []( auto& x, auto y, auto z ){ x = - y / std::max(static_cast<double>(z)*static_cast<double>(z), eps*eps); } );
                                         ans.resize( grad.shape() );
                                         return ans;
                                     },
-- 
2.43.0


From 1530a5264ac9304bd400f5a18e3949ad10f9a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 71/77] fix: a parallel loop ending near the largest index of
 its type ran beyond its end

---
 include/utils/parallel.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/utils/parallel.hpp b/include/utils/parallel.hpp
index ea4a8ad..065adc6 100644
--- a/include/utils/parallel.hpp
+++ b/include/utils/parallel.hpp
@@ -55,14 +55,12 @@ namespace ceras
 
             for ( auto index : range( total_cores-1 ) )
             {
-                Integer_Type first = tasks_per_thread * index + dim_first;
-                first = std::min( first, dim_last );
-                Integer_Type last =  first + tasks_per_thread;
-                last = std::min( last, dim_last );
+                Integer_Type first = dim_first + std::min<std::uint_least64_t>( tasks_per_thread * index, dim_last - dim_first ); // not beyond the range of Integer_Type
+                Integer_Type last =  first + std::min<std::uint_least64_t>( tasks_per_thread, dim_last - first );
                 threads.emplace_back( std::thread{ job_slice, first, last } );
             }
 
-            job_slice( tasks_per_thread*(total_cores-1) + dim_first, dim_last );
+            job_slice( dim_first + std::min<std::uint_least64_t>( tasks_per_thread*(total_cores-1), dim_last - dim_first ), dim_last );
 
             for ( auto& th : threads )
                 th.join();
-- 
2.43.0


From d1f0378fcbfcb530cf7bf681a85d0b355407fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 72/77] fix: cropping everything of an image was accepted, its
 size wrapping around

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 9898935..85fa8d2 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2906,8 +2906,8 @@ namespace ceras
                         Tsor input_ = input;
                         view_4d<value_type> ts{ input_.data(), batch_size, row, col, channel };
 
-                        better_assert( row-top-bottom > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
-                        better_assert( col-left-right > 0, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
+                        better_assert( row > top+bottom, fmt::format("Cropping2D: expecting a smaller cropping dimension in row: row:{}, top:{}, bottop:{}", row, top, bottom ) );
+                        better_assert( col > left+right, fmt::format("Cropping2D: expecting a smaller cropping dimension in col: col:{}, left:{}, right:{}", col, left, right ) );
 
                         // 4D view of output tensor
                         Tsor& ans = context_cast<Tsor>( forward_cache );
-- 
2.43.0


From 6d6a78171251a72da501bd7dd953394332f3263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 73/77] fix: the mean along an axis a tensor does not have read
 beyond its shape

---
 include/tensor.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 4ccd0b3..ea2a379 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1157,6 +1157,7 @@ namespace ceras
     {
         typedef typename Tsor::value_type value_type;
         axis = ( axis == static_cast<unsigned long>( -1 ) ) ? ts.ndim()-1 : axis;
+        better_assert( axis < ts.ndim(), "Error with tensor::mean, input axis ", axis, " is too large for a tensor with ", ts.ndim(), " dimensions." );
         auto const& _shape = ts.shape();
         return reduce( ts, axis, value_type{0}, []( auto const& a, auto const& b ){ return a+b; }, keepdims ) / static_cast<value_type>( _shape[axis] );
     }
-- 
2.43.0


From 202d33c8c43b8d32ceb0a42f70fffd84a065651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 74/77] fix: a session which could not be written to a full
 disk was reported as saved

---
 include/session.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/session.hpp b/include/session.hpp
index d524cbe..35e07ef 100644
--- a/include/session.hpp
+++ b/include/session.hpp
@@ -93,6 +93,8 @@ namespace ceras
                 std::ifstream ifs{ tmp_file_path, std::ios_base::binary };
                 std::ofstream ofs( file_path, std::ios_base::binary );
                 lzw::compress( ifs, ofs );
+                ofs.close();
+                better_assert( ofs.good(), "failed to write to file ", file_path );
             }
 
             // remove original
@@ -109,6 +111,8 @@ namespace ceras
                 std::ifstream ifs( file_path, std::ios_base::binary );
                 std::ofstream ofs{ tmp_file_path, std::ios_base::binary };
                 lzw::decompress( ifs, ofs );
+                ofs.close();
+                better_assert( ofs.good(), "failed to write to file ", tmp_file_path );
             }
 
             // restore original from tmp file to file_path
@@ -138,6 +142,7 @@ namespace ceras
             }
 
             ofs.close();
+            better_assert( ofs.good(), "failed to write to file ", file_path );
         }
 
         void restore_original( std::string const& file_path )
-- 
2.43.0


From 58bdd43143fd29be9898e050604ecbf111653803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 75/77] fix: a tensor which could not be written to a full disk
 was reported as saved

---
 include/tensor.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index ea2a379..8b9e724 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -1313,6 +1313,7 @@ namespace ceras
 
         write_tensor( ofs, tsor );
         ofs.close();
+        better_assert( ofs.good(), "failed to write to file ", file_name );
     }
 
 
-- 
2.43.0


From 4232d3fc5f8133e1e2a7400a93409e09fc3721af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 76/77] fix: poisson draws with the mean given, not with its
 whole part

---
 include/tensor.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor.tcc b/include/tensor.tcc
index 8b9e724..4508401 100644
--- a/include/tensor.tcc
+++ b/include/tensor.tcc
@@ -857,11 +857,11 @@ namespace ceras
     template< Tensor Tsor >
     Tsor poisson( Tsor const& tsor )
     {
-        std::poisson_distribution<long> distribution( 1 ); // Note: only integer type accepted for a std::poisson distribution
+        std::poisson_distribution<long> distribution( 1 ); // Note: the variates are integers, but their mean is not
         Tsor ans{ tsor.shape() };
         for ( auto idx : range( ans.size() ) ) // Note: cannot parallel here
         {
-            long const v = static_cast<long>(tsor[idx]);
+            double const v = static_cast<double>(tsor[idx]);
             ans[idx] = distribution( random_generator, std::poisson_distribution<long>::param_type(v) );
         }
         return ans;
-- 
2.43.0


From 3e6259ee7a663d59298d6e1326d8d93235a78503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 77/77] fix: equal and batch_normalization can be called with
 their default arguments

---
 include/operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operation.hpp b/include/operation.hpp
index 85fa8d2..a335ee8 100644
--- a/include/operation.hpp
+++ b/include/operation.hpp
@@ -2393,7 +2393,7 @@ namespace ceras
 
 
 
-    template< typename T > requires std::floating_point<T>
+    template< typename T=double > requires std::floating_point<T>
     inline auto batch_normalization( T const momentum=0.98 ) noexcept
     {
         return [=]<Expression Ex, Variable Va>( Ex const& ex, Va const& gamma, Va const& beta ) noexcept
@@ -2695,7 +2695,7 @@ namespace ceras
     /// auto eq = equal(l, r);
     /// @endcode
     ///
-    template< Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point FP >
+    template< Expression Lhs_Expression, Expression Rhs_Expression, std::floating_point FP=double >
     auto equal( Lhs_Expression const& lhs_ex, Rhs_Expression const& rhs_ex, FP threshold=0.5 ) noexcept
     {
         std::shared_ptr<std::any> forward_cache = std::make_shared<std::any>();
-- 
2.43.0

