From bb176ece62dd1f62cde4c6874bd55fd66c01f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:15 +0000
Subject: [PATCH 01/38] fix: degree of negations and powers with respect to a
 group of variables

The degree was the sum of the degrees in the single variables, so -(x+y) was
reported with degree 2 and (x+y)^2 with degree 4; a constant raised to a
negative integer given as an expression was reported as not polynomial.
---
 .../function_tree/operators/arithmetic.hpp    | 15 ++++++++
 .../function_tree/operators/arithmetic.cpp    | 38 +++++++++++--------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..de7aea0 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -309,6 +309,16 @@ namespace node{
 		 */
 		std::shared_ptr<Node> Differentiate(std::shared_ptr<Variable> const& v = nullptr) const override;
 
+		using UnaryOperator::Degree;
+
+		/**
+		 The degree of a negation with respect to a group is that of its operand.
+		 */
+		int Degree(VariableGroup const& vars) const override
+		{
+			return operand_->Degree(vars);
+		}
+
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
 		{
 			return operand_->IsHomogeneous(v);
@@ -727,6 +737,11 @@ namespace node{
 		 Compute the degree of a node.  For integer power functions, the degree is the product of the degree of the argument, and the power.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		/**
+		 Compute the degree with respect to a group of variables.
+		 */
+		int Degree(VariableGroup const& vars) const override;
 		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..7bfebb0 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -962,15 +962,13 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 }
 
 
-int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+namespace {
+// the degree of a power, from the degrees of its base and its exponent
+int DegreeOfPower(int base_deg, int exp_deg, std::shared_ptr<Node> const& exponent)
 {
-	
-	auto base_deg = base_->Degree(v);
-	auto exp_deg = exponent_->Degree(v);
-	
 	if (exp_deg==0)
 	{
-		auto exp_val = exponent_->Eval<dbl>();
+		auto exp_val = exponent->Eval<dbl>();
 		bool exp_is_int = false;
 		
 		if (fabs(imag(exp_val))< 10*std::numeric_limits<double>::epsilon()) // so a real thresholding step
@@ -982,7 +980,7 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 			if (abs(exp_val-dbl(0.0))< 10*std::numeric_limits<double>::epsilon())
 				return 0;
 			else if (real(exp_val)<0)
-				return -1;
+				return base_deg==0 ? 0 : -1;
 			else  // positive integer.
 			{
 				if (base_deg<0)
@@ -1007,18 +1005,16 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 		return -1;
 	}
 }
+} // unnamed namespace
+
+int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+{
+	return DegreeOfPower(base_->Degree(v), exponent_->Degree(v), exponent_);
+}
 
 int PowerOperator::Degree(VariableGroup const& vars) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
+	return DegreeOfPower(base_->Degree(vars), exponent_->Degree(vars), exponent_);
 }
 
 
@@ -1174,6 +1170,16 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 }
 
 
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+}
+
+
 
 
 
-- 
2.43.0


From 79bbf038be35ebab6f5bbd882bc49357531f17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:15 +0000
Subject: [PATCH 02/38] fix: degrees variable by variable of sums and products
 that are not polynomial

Quotients and negative degrees of the operands were ignored, so x/x and
x*y + atan(x) were reported with non-negative degrees.
---
 core/src/function_tree/operators/arithmetic.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 7bfebb0..7e85762 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -255,7 +255,11 @@ std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
+			auto& d = *(deg.begin()+(iter-term_deg.begin()));
+			if (d<0 || *iter<0) // not polynomial in this variable
+				d = -1;
+			else
+				d = std::max(d, *iter);
 		}
 	}
 	return deg;
@@ -815,13 +819,17 @@ int MultOperator::Degree(VariableGroup const& vars) const
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
 	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
+	for (size_t ii = 0; ii < operands_.size(); ++ii)
 	{
-		auto term_deg = iter->MultiDegree(vars);
+		auto term_deg = operands_[ii]->MultiDegree(vars);
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
+			auto& d = *(deg.begin()+(iter-term_deg.begin()));
+			if (d<0 || *iter<0 || (*iter!=0 && !mult_or_div_[ii])) // not polynomial in this variable
+				d = -1;
+			else
+				d += *iter;
 		}
 	}
 	return deg;
-- 
2.43.0


From 45af50715222917fa48a231cd873c6873b3f35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:28 +0000
Subject: [PATCH 03/38] fix: homogenizing a sum that is shared by several
 expressions

A shared sum was multiplied by the homogenizing variable once per use, so that
systems with a common subexpression were not homogeneous afterwards.
---
 core/src/function_tree/operators/arithmetic.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 7e85762..9dde494 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -278,13 +278,19 @@ void SumOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variable
 	
 	// then, homogenize this sum.
 	
+	// degrees are counted including the homogenizing variable, so that a sum which has been homogenized already,
+	// because it is shared by several expressions, is left alone.
+	auto vars_and_homvar = vars;
+	if (std::find(vars.begin(), vars.end(), homvar) == vars.end())
+		vars_and_homvar.push_back(homvar);
+
 	// compute the highest degree among all summands.
 	int maxdegree = 0;
 	std::vector<int> term_degrees;
 	// first homogenize each summand.
 	for (auto iter: operands_)
 	{
-		auto local_degree = iter->Degree(vars);
+		auto local_degree = iter->Degree(vars_and_homvar);
 		if (local_degree<0)
 			throw std::runtime_error("asking for homogenization on non-polynomial node");
 		// TODO: this throw would leave the tree in a partially homogenized state.  this is scary.
-- 
2.43.0


From 849ccd4e66de34fd507e43aa82d6da9445b2460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:40 +0000
Subject: [PATCH 04/38] fix: construct homogeneous linear slices

The constructor gave a homogeneous slice dim constants, so that the factory
functions aborted on their own assertion that there are none.
---
 core/include/bertini2/system/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 38a26b2..16335c5 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -223,7 +223,7 @@ namespace bertini {
 		/**
 		\brief the constructor for linear slices.
 		*/
-		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(dim)
+		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(homogeneous ? 0u : dim)
 		{ 
 			std::get<Mat<dbl> > (coefficients_working_).resize(Dimension(), NumVariables());
 			std::get<Mat<mpfr_complex> >(coefficients_working_).resize(Dimension(), NumVariables());
-- 
2.43.0


From fe732ce4dea1cad9eb1cb0dbcaba30979e41a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:27 +0000
Subject: [PATCH 05/38] fix: evaluating a system by its function tree fell
 through to the straight-line program

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..d25d548 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,11 +286,13 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
 					{
 						slp_.GetFuncValsInPlace<T>(function_values);
+						break;
 					}
 			}
 
-- 
2.43.0


From 7576924a1011eb67a649545103283b1f6a730d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:27 +0000
Subject: [PATCH 06/38] fix: changing the evaluation or differentiation method
 of a differentiated system

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index d25d548..fd1304d 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1585,6 +1585,7 @@ namespace bertini {
 		void SetEvalMethod(EvalMethod method)
 		{
 			eval_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
@@ -1604,6 +1605,7 @@ namespace bertini {
 		void SetDerivMethod(DerivMethod method)
 		{
 			deriv_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
-- 
2.43.0


From 7ca27dc7436cbc1213ddd2cf865d20efd52a45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:49 +0000
Subject: [PATCH 07/38] fix: copying and moving a system lost its straight-line
 program and methods

---
 core/src/system/system.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..894fc9b 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -85,6 +85,10 @@ namespace bertini
 
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -113,6 +117,9 @@ namespace bertini
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
+		slp_ = other.slp_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From a0057ecd95378a1a5d8aa089168905fc1223f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:09 +0000
Subject: [PATCH 08/38] fix: adding and scaling systems changed the functions
 of the operands and kept old derivatives

---
 core/src/system/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 894fc9b..c58bde0 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1327,8 +1327,9 @@ namespace bertini
 				throw std::runtime_error("System+=System cannot combine two patched systems whose patches differ.");
 
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
+			*iter = Function::Make( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode(), (*iter)->name());
 
+		is_differentiated_ = false;
 		return *this;
 	}
 
@@ -1342,8 +1343,9 @@ namespace bertini
 	{
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
 		{
-			(*iter)->SetRoot( N * (*iter)->EntryNode());
+			*iter = Function::Make( N * (*iter)->EntryNode(), (*iter)->name());
 		}
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From 5570bbb24c7ac85905981a1a062988bf7bc1a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:09 +0000
Subject: [PATCH 09/38] fix: reordering the functions of a system kept the
 derivatives in the old order

---
 core/src/system/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c58bde0..3e98e7d 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1014,6 +1014,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1041,6 +1042,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
-- 
2.43.0


From b6049ad48ed2efb143184ae8cebbe7d860435b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:09 +0000
Subject: [PATCH 10/38] fix: concatenating an unpatched system with a patched
 one

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 3e98e7d..b3b0e67 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1379,7 +1379,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From 6a84a02d2f415ba8c64d520037fb8beffe640c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:09 +0000
Subject: [PATCH 11/38] fix: clearing the variables of a system kept the order
 of the groups

---
 core/src/system/system.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index b3b0e67..0572c5c 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1068,8 +1068,13 @@ namespace bertini
 		hom_variable_groups_.clear();
 		homogenizing_variables_.clear();
 
+		time_order_of_variable_groups_.clear();
+
 		path_variable_.reset();
 		have_path_variable_ = false;
+
+		have_ordering_ = false;
+		is_differentiated_ = false;
 	}
 
 
-- 
2.43.0


From b8d541e0e49bba1a46bc4f1eb915f9d25776ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:09 +0000
Subject: [PATCH 12/38] fix: dehomogenizing a point of a system with several
 groups

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index fd1304d..617afb2 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1710,6 +1710,7 @@ namespace bertini {
 						{
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++);
+							affine_group_counter++;
 						}
 						break;
 					}
@@ -1717,6 +1718,7 @@ namespace bertini {
 					{
 						for (unsigned ii = 0; ii < hom_variable_groups_[hom_group_counter].size(); ++ii)
 							x_dehomogenized(dehom_index++) = x(hom_index++);
+						hom_group_counter++;
 						break;
 					}
 					case VariableGroupType::Ungrouped:
-- 
2.43.0


From eb97eae0f7d3d218690722f637c9b8aa41f2dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:34 +0000
Subject: [PATCH 13/38] fix: evaluating a system at a new point left its other
 stored values at the old point

---
 core/include/bertini2/system/system.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 617afb2..1a2bc61 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -352,7 +352,7 @@ namespace bertini {
 				throw std::runtime_error("not using a time value for evaluation of system, but path variable IS defined.");
 			
 			SetVariables(variable_values.eval());
-			ResetFunctions();
+			Reset();
 			EvalInPlace(function_values);
 		}
 		
@@ -416,7 +416,7 @@ namespace bertini {
 			SetVariables(variable_values.eval());//TODO: remove this eval
 			SetPathVariable(path_variable_value);
 
-			ResetFunctions(); // todo, elimiante this.  i feel like setting the variables or path variable should be enough to set the flag/ take the action
+			Reset(); // todo, elimiante this.  i feel like setting the variables or path variable should be enough to set the flag/ take the action
 
 			EvalInPlace(function_values);
 		}
@@ -619,7 +619,7 @@ namespace bertini {
 			
 			SetVariables(variable_values.eval()); // TODO: remove this eval
 			SetPathVariable(path_variable_value);
-			ResetJacobian();
+			Reset();
 			JacobianInPlace(J);
 		}
 
@@ -687,7 +687,7 @@ namespace bertini {
 
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
 			SetPathVariable(path_variable_value);
-			ResetTimeDerivatives();
+			Reset();
 			TimeDerivativeInPlace(ds_dt);
 		}
 
@@ -728,7 +728,7 @@ namespace bertini {
 			static_assert(std::is_same<typename Derived::Scalar, T>::value, "scalar types must be the same");
 
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
-			ResetTimeDerivatives();
+			Reset();
 			TimeDerivativeInPlace(ds_dt);
 		}
 
-- 
2.43.0


From 60e5640d8fb11489ac93bcb6112acee1fd0cd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:34 +0000
Subject: [PATCH 14/38] fix: a straight-line program evaluated in one number
 type was taken as evaluated in the other

---
 .../bertini2/system/straight_line_program.hpp | 22 +++++++++++++------
 core/src/system/straight_line_program.cpp     |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..8c1f416 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -609,7 +609,14 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		// the memories of the two number types are evaluated independently
+		mutable bool is_evaluated_dbl_ = false;
+		mutable bool is_evaluated_mpfr_ = false;
+
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::is_same<NumT,dbl_complex>::value ? is_evaluated_dbl_ : is_evaluated_mpfr_;
+		}
 
 
 
@@ -632,7 +639,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & is_evaluated_dbl_;
+			ar & is_evaluated_mpfr_;
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..a544041 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -216,7 +216,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -308,7 +308,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
-- 
2.43.0


From 9ec6c7931c7c2018b698cfe349f805c3048b7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:07 +0000
Subject: [PATCH 15/38] fix: raising the precision of a straight-line program
 kept numbers and results of the old precision

---
 core/src/system/straight_line_program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index a544041..76fec4d 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -78,6 +78,7 @@ namespace bertini{
 				auto& n = std::get<Nd>(p);
 				auto& loc = std::get<size_t>(p);
 
+				n->precision(new_precision); // so that the number is evaluated anew, not taken from the value stored at the old precision
 				mem[loc] = n->Eval<mpfr_complex>();
 			}
 
@@ -85,6 +86,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
-- 
2.43.0


From 473936ba8dd351a9f8536e49f8df82763eb7e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:07 +0000
Subject: [PATCH 16/38] fix: time derivatives of straight-line programs of
 systems differentiated by Jacobian nodes

---
 core/src/system/straight_line_program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 76fec4d..ad5f556 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -809,9 +809,10 @@ namespace bertini{
 
 
 		// sometimes have time derivatives
+		std::vector<std::shared_ptr<node::Node>> ds_dt; // gotten once, because the system may make new nodes on every request
 		if (sys.HavePathVariable()) {
 			
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
+			ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			slp_under_construction_.number_of_.TimeDeriv = ds_dt.size();
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
@@ -850,7 +851,6 @@ namespace bertini{
 		if (sys.HavePathVariable()) {
 			
 			// we need derivatives with respect to time only if the system has a path variable defined
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			for (auto n: ds_dt)
 				n->Accept(*this);
 		}
-- 
2.43.0


From 90b47628086a51c229439fc833a1b13f60cc048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:07 +0000
Subject: [PATCH 17/38] fix: straight-line programs of systems with repeated
 functions or functions that refer to later ones

---
 core/src/system/straight_line_program.cpp | 31 ++++++++++++-----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index ad5f556..54046c1 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -774,8 +774,7 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Functions = next_available_complex_;
 		for (auto f: sys.GetNaturalFunctions())
 		{
-			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
+			next_available_complex_++; // the place of the result, which is assigned after the function was visited
 
 			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
 						try{
@@ -801,8 +800,7 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Jacobian = next_available_complex_;
 		for (auto n: ds_dx)
 		{
-			locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[n] = next_available_complex_++;
+			next_available_complex_++;
 		}
 
 
@@ -817,8 +815,7 @@ namespace bertini{
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
 			{
-				locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-				locations_encountered_nodes_[n] = next_available_complex_++;
+				next_available_complex_++;
 			}
 		}
 
@@ -828,21 +825,24 @@ namespace bertini{
 
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
 		
-		for (auto& f: sys.GetNaturalFunctions())
-		{
-			f->shared_from_this();
-			f->Accept(*this);
+		// a node may appear at several places, also as part of an earlier function, so every result gets an assignment of its own.
+		auto visit_and_assign = [this](std::shared_ptr<node::Node> const& n, size_t location_result){
+			if (locations_encountered_nodes_.find(n) == locations_encountered_nodes_.end())
+				n->Accept(*this);
+			slp_under_construction_.AddInstruction(Assign, locations_encountered_nodes_[n], location_result);
+		};
 
-			// post visit function
-			/* code */
-		}
+		size_t location_result = slp_under_construction_.output_locations_.Functions;
+		for (auto& f: sys.GetNaturalFunctions())
+			visit_and_assign(f, location_result++);
 
 
 
 		
 		// always do derivatives with respect to space variables
+		location_result = slp_under_construction_.output_locations_.Jacobian;
 		for (auto n: ds_dx)
-			n->Accept(*this);
+			visit_and_assign(n, location_result++);
 
 
 
@@ -851,8 +851,9 @@ namespace bertini{
 		if (sys.HavePathVariable()) {
 			
 			// we need derivatives with respect to time only if the system has a path variable defined
+			location_result = slp_under_construction_.output_locations_.TimeDeriv;
 			for (auto n: ds_dt)
-				n->Accept(*this);
+				visit_and_assign(n, location_result++);
 		}
 
 
-- 
2.43.0


From 05f2d1272d40377d39924e27309d32373175564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:07 +0000
Subject: [PATCH 18/38] fix: compiling a second straight-line program with the
 same compiler

---
 core/src/system/straight_line_program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 54046c1..c295a91 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -875,6 +875,8 @@ namespace bertini{
 		next_available_int_ = 0;
 
 		locations_encountered_nodes_.clear();
+		locations_integers_.clear();
+		locations_top_level_functions_and_derivatives_.clear();
 		slp_under_construction_ = SLP();
 	}
 
-- 
2.43.0


From c48d838a806a8ca7042a201e81a2919e464db76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:01 +0000
Subject: [PATCH 19/38] fix: the Jacobian of a patched system held
 uninitialised numbers outside the columns of each group

---
 core/include/bertini2/system/patch.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..ce9ca44 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -371,8 +371,13 @@ namespace bertini {
 			unsigned offset(jacobian.rows() - NumVariableGroups()); // by precondition this number is at least 0.  the precondition is ensured by the public wrapper
 			unsigned counter(0);
 			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
+			{
+				for (unsigned jj=0; jj<NumVariables(); ++jj)
+					jacobian(ii+offset,jj) = T(0);
+
 				for (unsigned jj=0; jj<variable_group_sizes_[ii]; ++jj)
 					jacobian(ii+offset,counter++) = coefficients[ii](jj);
+			}
 		}
 
 		/**
-- 
2.43.0


From 883a7d6b2efc75bd6a8307e763462ffdadb769ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 20/38] fix: cloning a system that was differentiated by
 Jacobian nodes

---
 .../bertini2/function_tree/symbols/differential.hpp  | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..a5f783d 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -147,21 +147,11 @@ namespace node{
 		friend class boost::serialization::access;
 		
 		template<class Archive>
-		void save(Archive & ar, const unsigned int version) const
+		void serialize(Archive & ar, const unsigned int version)
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
 			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
 		}
-		
-		template<class Archive>
-		void load(Archive & ar, const unsigned int version)
-		{
-			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
-		}
-		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From 31c7ffab991e5b89c3bfcf061d50c58a1a7e692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:25 +0000
Subject: [PATCH 21/38] fix: cloning a system with a logarithm

---
 core/include/bertini2/function_tree.hpp | 1 +
 core/src/function_tree/node.cpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/include/bertini2/function_tree.hpp b/core/include/bertini2/function_tree.hpp
index 320ef12..c0067f7 100644
--- a/core/include/bertini2/function_tree.hpp
+++ b/core/include/bertini2/function_tree.hpp
@@ -101,6 +101,7 @@ BOOST_CLASS_EXPORT_KEY(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_KEY(bertini::node::LogOperator)
 
 
 
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 3542635..6540e61 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -54,6 +54,7 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
 
 
 
-- 
2.43.0


From 8d84bc80da66e007fd87580ee4610cce63072918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:06 +0000
Subject: [PATCH 22/38] fix: scaling a start system recursed without end

---
 core/src/system/start/mhom.cpp         | 2 +-
 core/src/system/start/total_degree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index e237a43..51c105d 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -101,7 +101,7 @@ namespace bertini
 		
 		MHomogeneous& MHomogeneous::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index 04d7f48..ddda8cc 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -52,7 +52,7 @@ namespace bertini {
 		
 		TotalDegree& TotalDegree::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
-- 
2.43.0


From 82ecf4b1f0cce918f5ed3df967d1686753f026af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:06 +0000
Subject: [PATCH 23/38] fix: multihomogeneous start points of systems with
 small groups and of homogenized systems

---
 core/src/system/start/mhom.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 51c105d..95484e8 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -225,7 +225,6 @@ namespace bertini
 			Vec<int> current_partition = -1*Vec<int>::Ones(target_system.NumNaturalFunctions());
 			Vec<int> variable_group_counter = Vec<int>::Zero(target_system.NumTotalVariableGroups());
 
-			auto size_of_each_var_gp = target_system.VariableGroupSizes(); //K
 			
 
 
@@ -233,7 +232,7 @@ namespace bertini
 
 			for(int ii = 0; ii < target_system.NumTotalVariableGroups(); ++ii)
 			{
-				variable_group_counter[ii] = size_of_each_var_gp[ii];
+				variable_group_counter[ii] = var_groups_[ii].size(); // without homogenizing variables
 			}			    
 			// std::cout << "variable_group_counter is " << std::endl;
 			// std::cout << variable_group_counter << std::endl;		
@@ -403,16 +402,20 @@ namespace bertini
 				b(ii) = -coeff[cols.size()];
 			}
 			
-			start_point = A.partialPivLu().solve(b);
-			
-			
-			var_groups_[0][0]->set_current_value(start_point(0));
-			var_groups_[0][1]->set_current_value(start_point(1));
-			
-			std::shared_ptr<node::Node> f = Function(0);
-			// !!! superfluous line?
-			
-			
+			Vec<T> solution = A.partialPivLu().solve(b);
+
+			// the solution holds the natural variables group by group.  homogenizing variables are one.
+			const auto& vars = Variables();
+			for (size_t ii = 0; ii < vars.size(); ++ii)
+				start_point(ii) = T(1);
+
+			size_t counter_solution = 0;
+			for (const auto& group : var_groups_)
+				for (const auto& v : group)
+					start_point(std::find(vars.begin(), vars.end(), v) - vars.begin()) = solution(counter_solution++);
+
+			if (IsPatched())
+				RescalePointToFitPatchInPlace(start_point);
 
 		}
 		
-- 
2.43.0


From f07b938c958438800212c6a43e94a5c793bc326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:06 +0000
Subject: [PATCH 24/38] fix: differential of a linear with respect to its
 homogenizing variable

---
 .../include/bertini2/function_tree/symbols/linear_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 43a0721..acd1aa4 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -985,7 +985,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<dbl>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
@@ -1032,7 +1032,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
-- 
2.43.0


From 8266e4761113b6002ead00b3f4b908dfac69cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:16 +0000
Subject: [PATCH 25/38] fix: linear products kept the coefficients of the old
 precision

---
 .../function_tree/symbols/linear_product.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index acd1aa4..68d4881 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -320,6 +320,7 @@ namespace  bertini {
 			{
 				auto& val_pair = std::get< std::pair<mpfr_complex,bool> >(current_value_);
 				val_pair.first.precision(prec);
+				val_pair.second = false;
 				
 				this->PrecisionChangeSpecific(prec);
 				
@@ -568,7 +569,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Variables to be used in each linear factor.  Does not have to correspond directly to a variable group from the system.
 			
@@ -740,14 +741,17 @@ namespace  bertini {
 					v.precision(prec);
 				}
 				
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
-						coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
-						coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						if (is_rational_coeffs_)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
 					}
 				}
 			}
@@ -919,6 +923,7 @@ namespace  bertini {
 			{
 				auto& val_pair = std::get< std::pair<mpfr_complex,bool> >(current_value_);
 				val_pair.first.precision(prec);
+				val_pair.second = false;
 				
 				this->PrecisionChangeSpecific(prec);
 				
@@ -1068,7 +1073,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Differentials of variables used in the linear.
 			
@@ -1101,12 +1106,17 @@ namespace  bertini {
 			
 			void PrecisionChangeSpecific(unsigned prec) const
 			{
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
+						if (coeffs_rat_real_.size() > 0)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
 					}
 				}
 			}
-- 
2.43.0


From 9e9df14aedf81ee47ce7ad9995460cf1acb15e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:24 +0000
Subject: [PATCH 26/38] fix: Newton correction never succeeded with a minimum
 of zero iterations

---
 core/include/bertini2/trackers/newton_corrector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/trackers/newton_corrector.hpp b/core/include/bertini2/trackers/newton_corrector.hpp
index e697cf7..f9168ff 100644
--- a/core/include/bertini2/trackers/newton_corrector.hpp
+++ b/core/include/bertini2/trackers/newton_corrector.hpp
@@ -162,7 +162,7 @@ namespace bertini{
 						
 						next_space += step_ref;
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 					}
 					
@@ -223,7 +223,7 @@ namespace bertini{
 						Mat<ComplexType>& J_temp_ref = std::get< Mat<ComplexType> >(J_temp_);
 						Eigen::PartialPivLU< Mat<ComplexType> >& LU_ref = std::get< Eigen::PartialPivLU< Mat<ComplexType> > >(LU_);
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 						
 						NumErrorT norm_J_inverse(LU_ref.solve(RandomOfUnits<ComplexType>(S.NumVariables())).norm());
@@ -304,7 +304,7 @@ namespace bertini{
 						norm_J_inverse = NumErrorT(LU_ref.solve(RandomOfUnits<ComplexType>(S.NumVariables())).norm());
 						condition_number_estimate = NumErrorT(norm_J*norm_J_inverse);
 												
-						if ( (norm_delta_z < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						if ( (norm_delta_z < tracking_tolerance) && (ii+1 >= min_num_newton_iterations) )
 							return SuccessCode::Success;
 						
 						if (!amp::CriterionB<ComplexType>(norm_J, norm_J_inverse, max_num_newton_iterations - ii, tracking_tolerance, norm_delta_z, AMP_config))
-- 
2.43.0


From d742057c97be03c2781fa4309a686cd080fe7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:04 +0000
Subject: [PATCH 27/38] fix: random unit complex numbers of multiple precision
 had modulus other than one

---
 core/include/bertini2/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/random.hpp b/core/include/bertini2/random.hpp
index 7485052..3b882f5 100644
--- a/core/include/bertini2/random.hpp
+++ b/core/include/bertini2/random.hpp
@@ -215,7 +215,7 @@ using bertini::RandomMp;
 	inline complex rand_unit()
 	{
 		complex returnme( RandomMp(mpfr_float(-1),mpfr_float(1)), RandomMp(mpfr_float(-1),mpfr_float(1)) );
-		return returnme / sqrt( abs(returnme));
+		return returnme / abs(returnme);
 	}
 
 	inline complex RandomUnit()
@@ -256,7 +256,7 @@ using bertini::RandomMp;
 		a.precision(num_digits);
 		
 		complex temp(RandomMp(num_digits),RandomMp(num_digits));
-		a = std::move(temp/sqrt(abs(temp)));
+		a = std::move(temp/abs(temp));
 		DefaultPrecision(cached);
 	}
 
-- 
2.43.0


From dddf62e508eb7325ed404c66a0e17b55f2932e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 28/38] fix: precision and step size chosen below the digits of
 criterion B

---
 core/include/bertini2/trackers/amp_tracker.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 233a74f..30ecd72 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -132,7 +132,7 @@ namespace bertini{
 										unsigned num_newton_iterations,
 										unsigned predictor_order = 0)
 		{
-			return pow(mpfr_float(10), -( digits_B - precision )*num_newton_iterations/(predictor_order+1));
+			return pow(mpfr_float(10), mpfr_float(long(precision) - long(digits_B))*num_newton_iterations/(predictor_order+1));
 		}
 		
 
@@ -226,13 +226,18 @@ namespace bertini{
 			if (lowest_mp_precision_to_test < LowestMultiplePrecision())
 				lowest_mp_precision_to_test = LowestMultiplePrecision();
 			else
-				lowest_mp_precision_to_test = (lowest_mp_precision_to_test/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+				lowest_mp_precision_to_test = ((lowest_mp_precision_to_test+PrecisionIncrement()-1)/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round up, so that the precision is not below the minimum.
 
 
 			if (max_precision < LowestMultiplePrecision())
 				max_precision = LowestMultiplePrecision();
 			else
+			{
+				bool nonempty_range = min_precision <= max_precision;
 				max_precision = (max_precision/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
+				if (nonempty_range && max_precision < lowest_mp_precision_to_test)
+					max_precision = lowest_mp_precision_to_test;
+			}
 
 			for (unsigned p = lowest_mp_precision_to_test; p <= max_precision; p+=PrecisionIncrement())
 				minimizer_routine(p);
-- 
2.43.0


From 89734fcd4ecbaa16d21acc9ca7a259a6e64c7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 29/38] fix: adaptive tracking aborted when it needed more
 digits than allowed

---
 core/include/bertini2/trackers/amp_tracker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 30ecd72..0e23883 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -1597,7 +1597,7 @@ namespace bertini{
 					assert(Precision(delta_t_) == current_precision_ && "delta_t_ out of precision");
 					assert(Precision(endtime_) == current_precision_ && "endtime_ out of precision");
 					assert(Precision(current_time_) == current_precision_ && "current_time_ out of precision");
-					assert(current_precision_ <= MaxPrecisionAllowed() && "current_precision_ exceeds max precision");
+					assert(current_precision_ <= MaxPrecisionAllowed()+1 && "current_precision_ exceeds max precision"); // one more than the max means that no allowed precision suffices, see MinimizeTrackingCost
 					assert(predictor_->precision() == current_precision_ && "predictor_ out of precision");
 					return  true;
 				}
-- 
2.43.0


From c43471378f7e1b0ad5a67bd91a0a333bc5bd77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:43 +0000
Subject: [PATCH 30/38] fix: endgame sample times with a sample factor other
 than one half

---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/cauchy.hpp       | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..fbae4b0 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back((times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor) + target_time); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0044c4e..0ca762e 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1022,7 +1022,7 @@ public:
 		auto& current_sample = ps_samples.back();
 
 		//Generalized next_time in case if we are not trying to converge to the t = 0.
-		CT next_time = (target_time-current_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+current_time;
+		CT next_time = (current_time-target_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+target_time;
 
 		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time)//we are too close to t = 0 but we do not have the correct tolerance - so we exit
 			return SuccessCode::MinTrackTimeReached;
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..ca2d78e 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor) + target_time; //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0


From 4d3ffd7f714dd147e8f9993039ed4585961f6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:43 +0000
Subject: [PATCH 31/38] fix: Cauchy endgame tested the norm of its estimates at
 the wrong security level, with uninitialised numbers

---
 core/include/bertini2/endgames/cauchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0ca762e..4295ed8 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1123,7 +1123,7 @@ public:
 				return SuccessCode::Success;
 			}
 
-			if (this->SecuritySettings().level)
+			if (this->SecuritySettings().level <= 0)
 			{//we are too large, break out of loop to return error.
 				norm_of_dehom_latest = this->GetSystem().DehomogenizePoint(latest_approx).template lpNorm<Eigen::Infinity>();
 
-- 
2.43.0


From 8ce73c93925a5c65fc5bbaecfafc7c2fd46a280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 32/38] fix: paths that met though they started apart were
 taken as started together

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index c7ead7f..b050551 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -158,7 +158,7 @@ namespace bertini{
 							
 							const auto start_jj = start_system.template StartPoint<ComplexType>(jj);
 							auto diff_start = start_ii - start_jj;
-							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() > SamePointTol());
+							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() < SamePointTol());
 							
 							
 							// Check if path has already been stored in crossed_paths_
-- 
2.43.0


From f4ec2a857097159b4c0c3e99783c8fe5bd07c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 33/38] fix: a midpath check remembered the crossings of the
 checks before it

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index b050551..6164c83 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -134,6 +134,9 @@ namespace bertini{
 			template <typename StartSystemT>
 			bool Check(BoundaryData const& boundary_data, StartSystemT const& start_system)
 			{
+				crossed_paths_.clear();
+				passed_ = true;
+
 				for (PathIndT ii = 0; ii < boundary_data.size(); ++ii)
 				{
 					if ( boundary_data[ii].success_code != SuccessCode::Success)
-- 
2.43.0


From af3581617d7a4edc0ce9b1d1903aba2f67fe6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 34/38] fix: solving a second time added to the multiplicities
 of the first

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 7ab3919..73753be 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -574,6 +574,11 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				auto num_as_size_t = static_cast<SolnIndT>(num_start_points_);
 
+				// start from fresh data, so that nothing from a previous solve is accumulated onto
+				solution_final_metadata_.clear();
+				solutions_at_endgame_boundary_.clear();
+				solutions_post_endgame_.clear();
+
 				solution_final_metadata_.resize(num_as_size_t);
 				solutions_at_endgame_boundary_.resize(num_as_size_t);
 				solutions_post_endgame_.resize(num_as_size_t);
-- 
2.43.0


From 0fb7f0830aad7788bdb0585a5b7017d07ce22642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:54 +0000
Subject: [PATCH 35/38] fix: start points were generated from a start system
 left in another precision

---
 .../bertini2/nag_algorithms/zero_dim_solve.hpp      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 73753be..095ab4b 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -630,6 +630,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
+				StartSystem().precision(DefaultPrecision()); // the start point is generated in the default precision
 				auto start_point = StartSystem().template StartPoint<BaseComplexType>(soln_ind);
 
 				Vec<BaseComplexType> result;
@@ -660,18 +661,30 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 			void EGBoundaryAction()
 			{
+				PrepareStartSystemForMidpath();
 				auto midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 
 				unsigned num_resolve_attempts = 0;
 				while (!midcheckpassed && num_resolve_attempts < this->template Get<ZeroDimConf>().max_num_crossed_path_resolve_attempts)
 				{
 					MidpathResolve();
+					PrepareStartSystemForMidpath();
 					midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 					num_resolve_attempts++;
 				}
 			}
 
 
+			/**
+			The midpath check generates start points, in the default precision.
+			*/
+			void PrepareStartSystemForMidpath()
+			{
+				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				StartSystem().precision(DefaultPrecision());
+			}
+
+
 			void MidpathResolve()
 			{
 				ShrinkMidpathTolerance();
-- 
2.43.0


From 4bb76298a50a9881e6106adb879bd432d31e6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 36/38] fix: the endgame was started with times in another
 precision than the point

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 095ab4b..cc033ca 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -749,6 +749,9 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				// we make these fresh so they are in the correct precision to start.
 				BaseComplexType t_end = this->template Get<ZeroDimConf>().target_time;
 				BaseComplexType t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
+				// copying keeps the precision of what is copied, so adjust explicitly.
+				Precision(t_end, Precision(bdry_point));
+				Precision(t_endgame_boundary, Precision(bdry_point));
 
 				auto eg_success = GetEndgame().Run(t_endgame_boundary, bdry_point, t_end);
 
-- 
2.43.0


From d9aaa5b6e156ac585a4e3f0694faa1f1e4b32d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 37/38] fix: precision metadata of a path was taken from paths
 before it, or from uninitialised memory

---
 .../bertini2/nag_algorithms/zero_dim_solve.hpp   | 12 ++++++++++++
 core/include/bertini2/trackers/observers.hpp     | 16 +++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index cc033ca..5cfd2c5 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -618,6 +618,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					// if you can think of a way to replace this `if` with something meta, please do so.
 					if (tracking::TrackerTraits<TrackerType>::IsAdaptivePrec)
 					{
+						ResetPrecisionRecorders(this->template Get<ZeroDimConf>().initial_ambient_precision);
 						GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
 					}
@@ -659,6 +660,16 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 			}
 
+			/**
+			The recorders are shared by all paths, so they must forget the path before.
+			*/
+			void ResetPrecisionRecorders(unsigned starting_precision)
+			{
+				first_prec_rec_.Reset(starting_precision);
+				min_max_prec_.MinPrecision(starting_precision);
+				min_max_prec_.MaxPrecision(starting_precision);
+			}
+
 			void EGBoundaryAction()
 			{
 				PrepareStartSystemForMidpath();
@@ -734,6 +745,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					// if you can think of a way to replace this `if` with something meta, please do so.
 					if (tracking::TrackerTraits<TrackerType>::IsAdaptivePrec)
 					{
+						ResetPrecisionRecorders(Precision(solutions_at_endgame_boundary_[soln_ind].path_point));
 						if (!smd.precision_changed)
 							GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
diff --git a/core/include/bertini2/trackers/observers.hpp b/core/include/bertini2/trackers/observers.hpp
index 427d6a5..ca9a6b6 100644
--- a/core/include/bertini2/trackers/observers.hpp
+++ b/core/include/bertini2/trackers/observers.hpp
@@ -97,13 +97,23 @@ namespace bertini {
 				return time_of_first_increase_;
 			}
 
+			/**
+			\brief Forget what was recorded, to be ready for another path.
+			*/
+			void Reset(unsigned starting_precision)
+			{
+				starting_precision_ = starting_precision;
+				next_precision_ = starting_precision;
+				precision_increased_ = false;
+			}
+
 			virtual ~FirstPrecisionRecorder() = default;
 
 		private:
 
-			unsigned starting_precision_;
-			unsigned next_precision_;
-			bool precision_increased_;
+			unsigned starting_precision_ = 0;
+			unsigned next_precision_ = 0;
+			bool precision_increased_ = false;
 			typename TrackerTraits<TrackerT>::BaseComplexType time_of_first_increase_;
 		};
 
-- 
2.43.0


From f6bfde8156de29116b98d81ff97080684b844837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:02 +0000
Subject: [PATCH 38/38] fix: solving a second time began with the step size the
 first solve ended with

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 5cfd2c5..f896450 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -598,6 +598,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
+				GetTracker().ReinitializeInitialStepSize(true); // the endgame turns this off
 
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
-- 
2.43.0

