From 092e88d80caa306d8d90a926d34d02aeb11a4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:05 +0000
Subject: [PATCH 001/153] fix: dual::operator*= and operator/= used the already
 overwritten real part

---
 src/autodiff/dual.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..eb69c96 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,9 +215,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this dual number by a real number
@@ -231,9 +229,7 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
-				b = (b * other.a - a * other.b) / square(other.a);
-				return *this;
+				return (*this = *this / other);
 			}
 
 			/// Divide a dual number by a real number
-- 
2.43.0


From f26c6a1ef6622eb2c2a0d5ee539127442418bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 002/153] fix: dual2::operator*= used components it had already
 overwritten

---
 src/autodiff/dual2.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..c766d15 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -207,10 +207,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this dual number by a real number
-- 
2.43.0


From d2224f56db9272fd1c3d9e3b21872d77160c4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 003/153] fix: second order part of dual2::inverse

---
 src/autodiff/dual2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index c766d15..50d810d 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,8 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a),
+					2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From bc44e49b5dafbf3c7c615745a41ec40eb668b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 004/153] fix: second derivatives of pow, cot, abs and atan of
 dual2

---
 src/autodiff/dual2_functions.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..db6adac 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -44,7 +44,8 @@ namespace theoretica {
 
 		real f = pow_n_2_x * square(x.Re());
 		real df = pow_n_2_x * x.Re() * n * x.Dual1();
-		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
+		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1())
+			+ pow_n_2_x * x.Re() * n * x.Dual2();
 
 		return dual2(f, df, d2f);
 	}
@@ -129,7 +130,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
@@ -196,7 +197,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
@@ -244,7 +245,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From 601616971e127da69042af810aa3449495032f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 005/153] fix: derivative of tanh for dual and multidual
 numbers

---
 src/autodiff/dual_functions.h      | 2 +-
 src/autodiff/multidual_functions.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..f63506d 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,7 +218,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..75a4159 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -213,7 +213,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
 	}
 
 }
-- 
2.43.0


From 6ffe0c4220bb03fb304b34ac516d5b6eb177a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 006/153] fix: static vec::operator/= did not compile when
 instantiated

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..09e7092 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From fe06a24eb05f4a00583cac71e63bb5d4c2908530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 007/153] fix: product of a vector and an integer did not
 compile

---
 src/algebra/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 09e7092..4babdb1 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -218,7 +218,7 @@ namespace theoretica {
 
 
 		/// Dot product between vectors (v * w = v.x * w.x + ...)
-		template<typename Vector>
+		template<typename Vector, enable_vector<Vector> = true>
 		inline Type operator*(const Vector& other) const {
 			return dot(other);
 		}
@@ -619,7 +619,7 @@ namespace theoretica {
 
 
 		/// Dot product between vectors (v * w = v.x * w.x + ...)
-		template<typename Vector>
+		template<typename Vector, enable_vector<Vector> = true>
 		inline Type operator*(const Vector& other) const {
 			return dot(other);
 		}
-- 
2.43.0


From 3dc35bde826a3e17b664b6eda528daa744d2f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 008/153] fix: multidual compound products and quotients used
 the overwritten real part, division tested the wrong operand

---
 src/autodiff/multidual.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..226d5d3 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 				if(a == 0) {
 					TH_MATH_ERROR("multidual::inverse", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(N, nan()));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(1.0 / a, v * (-1 / (a * a)));
@@ -156,9 +156,9 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(a / other.a,
@@ -205,9 +205,7 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
-				v = (other.v * a) + (v * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this multidual number by a real number
@@ -221,9 +219,7 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
-				v = (v * other.a - other.v * a) / (other.a * other.a);
-				return *this;
+				return (*this = *this / other);
 			}
 
 			/// Divide a multidual number by a real number
@@ -232,7 +228,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(v.size(), nan());
 					return *this;
 				}
 
-- 
2.43.0


From 00960780886ced2973f1c63ca3408d8b6e0eb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 009/153] fix: error values of multidual functions were built
 from a NaN size

---
 src/autodiff/multidual_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 75a4159..dbde638 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -51,7 +51,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(multidual)", sqrt_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(sqrt_x, x.Dual() * 0.5 / sqrt_x);
@@ -80,7 +80,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(multidual)", cos_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(tan(x.Re()), x.Dual() / square(cos_x));
@@ -95,7 +95,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(multidual)", sin_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(cot(x.Re()), x.Dual() * (-1 / square(sin_x)));
@@ -116,7 +116,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(ln(x.Re()), x.Dual() / x.Re());
@@ -129,7 +129,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log2(x.Re()), x.Dual() * LOG2E / x.Re());
@@ -142,7 +142,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log10(x.Re()), x.Dual() * LOG10E / x.Re());
@@ -162,7 +162,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(asin(x.Re()), x.Dual() / sqrt(1 - square(x.Re())));
@@ -175,7 +175,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(acos(x.Re()), x.Dual() * (-1 / sqrt(1 - square(x.Re()))));
-- 
2.43.0


From 1a6459f41f7d9786270c73b6d99c0b70b04cfe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:34 +0000
Subject: [PATCH 010/153] fix: extraction from dynamic multidual vectors
 ignored every element

---
 src/autodiff/multidual.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 226d5d3..43b5221 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -272,7 +272,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -288,8 +288,8 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
+				for (unsigned int i = 0; i < v.size(); ++i)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 				
 				return J;
@@ -304,9 +304,12 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
+				x.resize(v.size());
+				J.resize(v.size(), v.size());
+
+				for (unsigned int i = 0; i < v.size(); ++i) {
 					
-					for (unsigned int j = 0; j < N; ++j)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 					
 					x[i] = v.get(i).Re();
-- 
2.43.0


From 564d7abd78b2924482e5f5e54c7d844cd8ad72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:35 +0000
Subject: [PATCH 011/153] fix: autodiff::directional_derivative did not compile
 (unqualified dot)

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..92bdb12 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -341,7 +341,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * algebra::dot(v, gradient(f, x));
 		}
 
 
-- 
2.43.0


From f746ca2e4c889ea2be97cd693e40cb2d1f42762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:03 +0000
Subject: [PATCH 012/153] fix: dynamic mat indexed with the wrong stride for
 non-square matrices

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..64f86ae 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From d6f776648b21a49ba311e86b14015915b8fe3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 013/153] fix: dynamic mat::resize scrambled the retained
 elements

---
 src/algebra/mat.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 64f86ae..8fff90b 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1241,11 +1241,19 @@ namespace theoretica {
 
 			if (data.size()) {
 
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
+				const size_t min_rows = min(rows, row_sz);
+				const size_t min_cols = min(cols, col_sz);
 
 				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
+				for (unsigned int i = 0; i < min_rows; ++i) {
+					for (unsigned int j = 0; j < min_cols; ++j) {
+#ifdef THEORETICA_ROW_FIRST
+						new_data[j + i * cols] = data[j + i * col_sz];
+#else
+						new_data[i + j * rows] = data[i + j * row_sz];
+#endif
+					}
+				}
 			}
 
 			data = new_data;
-- 
2.43.0


From 2e3315a995e8ca7ee03d05122cda8306c09f0b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 014/153] fix: static diagonal mat constructor ignored the
 diagonal when the sizes are omitted

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 8fff90b..5f93bc8 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = min(N, K);
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From 7b892a6ec91db22aa26d39cebf07bfd6d83ca07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 015/153] fix: dynamic mat could not be constructed from a
 static one

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 5f93bc8..a69e5c8 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -720,7 +720,7 @@ namespace theoretica {
 		/// @tparam Matrix A compatible matrix type.
 		/// @param m The matrix to copy from.
 		template <
-			typename Matrix, enable_matrix<Matrix>
+			typename Matrix, enable_matrix<Matrix> = true
 		>
 		mat(const Matrix& m) {
 			resize(m.rows(), m.cols());
-- 
2.43.0


From 4d4fed8ee3789c860594e8045f4b2e310dbaeafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:32 +0000
Subject: [PATCH 016/153] fix: mat_swap_cols iterated over the columns instead
 of the rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..7eb8424 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -211,7 +211,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From 32d0afb413142da53b93b1507f8961fea458d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:32 +0000
Subject: [PATCH 017/153] fix: vec_copy and mat_copy wrote past the end of
 fixed-size destinations of another size

---
 src/algebra/algebra.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7eb8424..a9fc40e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -126,6 +126,11 @@ namespace theoretica {
 
 			dest.resize(src.rows(), src.cols());
 
+			if (dest.rows() != src.rows() || dest.cols() != src.cols()) {
+				TH_MATH_ERROR("algebra::mat_copy", src.rows(), INVALID_ARGUMENT);
+				return mat_error(dest);
+			}
+
 			for (unsigned int i = 0; i < src.rows(); ++i)
 				for (unsigned int j = 0; j < src.cols(); ++j)
 					dest(i, j) = src(i, j);
@@ -144,6 +149,11 @@ namespace theoretica {
 
 			dest.resize(src.size());
 
+			if (dest.size() != src.size()) {
+				TH_MATH_ERROR("algebra::vec_copy", src.size(), INVALID_ARGUMENT);
+				return vec_error(dest);
+			}
+
 			for (unsigned int i = 0; i < src.size(); ++i)
 				dest[i] = src[i];
 
-- 
2.43.0


From 37f65aeb55329eb4b4ce63742c5eb07fe47cd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:32 +0000
Subject: [PATCH 018/153] fix: norm, dot, trace and diagonal_product read the
 first element of empty operands

---
 src/algebra/algebra.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index a9fc40e..0a6c5c7 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -284,10 +284,10 @@ namespace theoretica {
 		template<typename Vector>
 		inline auto sqr_norm(const Vector& v) {
 
-			auto sum = pair_inner_product(v[0], v[0]);
+			auto sum = vector_element_t<Vector>(0.0);
 
 			// Use conjugation for complex numbers
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], v[i]);
 
 			return sum;
@@ -365,10 +365,10 @@ namespace theoretica {
 				return vector_element_t<Vector1>(nan());
 			}
 
-			auto sum = pair_inner_product(v[0], w[0]);
+			auto sum = vector_element_t<Vector1>(0.0);
 
 			// Use conjugation for complex numbers
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], w[i]);
 
 			return sum;
@@ -564,10 +564,10 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto trace(const Matrix& m) {
 
-			auto sum = m(0, 0);
+			auto sum = matrix_element_t<Matrix>(0.0);
 			const size_t n = min(m.rows(), m.cols());
 
-			for (unsigned int i = 1; i < n; ++i)
+			for (unsigned int i = 0; i < n; ++i)
 				sum += m(i, i);
 
 			return sum;
@@ -582,10 +582,10 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto diagonal_product(const Matrix& m) {
 
-			auto mul = m(0, 0);
+			auto mul = matrix_element_t<Matrix>(1.0);
 			const size_t n = min(m.rows(), m.cols());
 
-			for (unsigned int i = 1; i < n; ++i)
+			for (unsigned int i = 0; i < n; ++i)
 				mul *= m(i, i);
 
 			return mul;
-- 
2.43.0


From 2e6979a7784de288aa23944cc84615fede2908be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:32 +0000
Subject: [PATCH 019/153] fix: make_hermitian did not conjugate the diagonal

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 0a6c5c7..4d7e164 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -513,7 +513,7 @@ namespace theoretica {
 			}
 
 			for (unsigned int i = 0; i < m.rows(); ++i) {
-				for (unsigned int j = 0; j < i; ++j) {
+				for (unsigned int j = 0; j <= i; ++j) {
 					
 					const auto buff = m(i, j);
 					m(i, j) = conjugate(m(j, i));
-- 
2.43.0


From edd14cbf57e257e5984a31e3fccaa4037ee6c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 020/153] fix: apply_transform discarded its result

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 4d7e164..9ae0cc2 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -698,7 +698,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
-- 
2.43.0


From 2bd22010ac2e0f4aa1b5e285bd9cee28c4c581f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 021/153] fix: matrix-vector products wrote out of bounds for
 non-square matrices

---
 src/algebra/algebra.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 9ae0cc2..7380b8f 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -691,7 +691,14 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
+
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::apply_transform", A.rows(), INVALID_ARGUMENT);
+				vec_error(v);
+				return v;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
@@ -712,7 +719,7 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
 			if(v.size() != A.cols()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
@@ -720,6 +727,12 @@ namespace theoretica {
 				return res;
 			}
 
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::transform", A.rows(), INVALID_ARGUMENT);
+				vec_error(res);
+				return res;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
@@ -746,7 +759,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
-- 
2.43.0


From ca5ddba966a86824029545b547cda68174305c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 022/153] fix: in-place matrix and vector sums, differences and
 linear combinations returned the wrong operand

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7380b8f..cfad01c 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -784,7 +784,7 @@ namespace theoretica {
 		/// @param B The second matrix to add
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_sum(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_sum(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_sum", A.rows(), INVALID_ARGUMENT);
@@ -852,7 +852,7 @@ namespace theoretica {
 		/// @param B The second matrix
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_diff(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_diff(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_diff", A.rows(), INVALID_ARGUMENT);
@@ -921,7 +921,7 @@ namespace theoretica {
 		/// @param B The second matrix to combine
 		/// @return A reference to the overwritten matrix
 		template<typename Field1, typename Matrix1, typename Field2, typename Matrix2>
-		inline Matrix2& mat_lincomb(
+		inline Matrix1& mat_lincomb(
 			Field1 alpha, Matrix1& A, Field2 beta, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
@@ -1155,7 +1155,7 @@ namespace theoretica {
 		/// @param v2 The second vector to add
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_sum(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_sum(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_sum", v1.size(), INVALID_ARGUMENT);
@@ -1203,7 +1203,7 @@ namespace theoretica {
 		/// @param v2 The second vector
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_diff(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_diff(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_diff", v1.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 8d832762e758360a68ff5b56daf6787c094fd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 023/153] fix: mat_lincomb returned and overwrote its constant
 operand

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index cfad01c..d76393f 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -960,14 +960,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -986,7 +986,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From af815474cce6adb4cf6c31e1a57c2a772ee1114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 024/153] fix: decompose_lu left the strictly upper part of L
 unset

---
 src/algebra/algebra.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index d76393f..4717be5 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1415,9 +1415,8 @@ namespace theoretica {
 
 			using Type = matrix_element_t<Matrix1>;
 
-			// Set the diagonal of L to 1.0
-			for (unsigned int i = 0; i < A.rows(); ++i)
-				L(i, i) = (Type) 1.0;
+			// Set the diagonal of L to 1.0 and the rest to zero
+			make_identity(L);
 
 			// Compute L and U
 			for(unsigned int i = 0; i < A.rows(); ++i) {
-- 
2.43.0


From b698c178d6d51c947e7d46ba63a36f7192b71843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 025/153] fix: LU decomposition of complex matrices conjugated
 one of the factors

---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 4717be5..3743510 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1426,7 +1426,7 @@ namespace theoretica {
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1434,7 +1434,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1466,7 +1466,7 @@ namespace theoretica {
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From 8654ffdc0ce082eb72d61568121932a26e3f5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 026/153] fix: LU decomposition and solvers divided by null
 pivots without reporting an error

---
 src/algebra/algebra.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 3743510..1956da7 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1429,6 +1429,13 @@ namespace theoretica {
 						U(i, j) -= L(i, k) * U(k, j);
 				}
 
+				// Without pivoting, a null pivot cannot be used for elimination
+				if (i + 1 < A.rows() && U(i, i) == (Type) 0.0) {
+					TH_MATH_ERROR("algebra::decompose_lu", i, DIV_BY_ZERO);
+					mat_error(L); mat_error(U);
+					return;
+				}
+
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
 
 					L(j, i) = A(j, i);
@@ -1459,8 +1466,17 @@ namespace theoretica {
 				return A;
 			}
 
+			using Type = matrix_element_t<Matrix>;
+
 			for(unsigned int j = 0; j < A.cols(); ++j) {
 
+				// Without pivoting, a null pivot cannot be used for elimination
+				if (j + 1 < A.rows() && A(j, j) == (Type) 0.0) {
+					TH_MATH_ERROR("algebra::decompose_lu_inplace", j, DIV_BY_ZERO);
+					mat_error(A);
+					return A;
+				}
+
 				for(unsigned int i = j + 1; i < A.rows(); ++i) {
 
 					A(i, j) /= A(j, j);
@@ -1733,6 +1749,11 @@ namespace theoretica {
 				for (unsigned int j = i + 1; j < A.rows(); ++j)
 					sum += A(i, j) * b[j];
 
+				if (A(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_lu_inplace", i, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
 				b[i] = (b[i] - sum) / A(i, i);
 			}
 		
-- 
2.43.0


From 5868a5deeea2a4a2d7275aa406941b5113345d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 027/153] fix: solve_triangular_upper read past the end of the
 matrix and of the solution

---
 src/algebra/algebra.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 1956da7..9212814 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1657,17 +1657,12 @@ namespace theoretica {
 				return vec_error(x);
 			}
 
-			if (U.rows() == 1) {
-				x[0] = b[0] / U(0, 0);
-				return x;
-			}
-
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
-				
-				Type sum = U(i, i + 1) * x[i + 1];
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				Type sum = Type(0.0);
+
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From 1c5e1992199a8f06bfc43180c88da7f035091c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 028/153] fix: solve_triangular did not report non-triangular
 matrices

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 9212814..0fa3138 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1693,6 +1693,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("algebra::solve_triangular", false, INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From 1fa61c8d0fb05f08e9f82effdda9d5f2aa09520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 029/153] fix: decompose_cholesky_inplace did not check that
 the matrix is positive definite

---
 src/algebra/algebra.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 0fa3138..b5470de 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1570,6 +1570,12 @@ namespace theoretica {
 			// Compute the Cholesky decomposition in-place
 			for (unsigned int k = 0; k < A.rows(); ++k) {
 
+				// Ensure that the matrix is positive definite
+				if (A(k, k) < MACH_EPSILON) {
+					TH_MATH_ERROR("algebra::decompose_cholesky_inplace", A(k, k), INVALID_ARGUMENT);
+					return mat_error(A);
+				}
+
 				A(k, k) = sqrt(A(k, k));
 
 				for (unsigned int i = k + 1; i < A.rows(); ++i)
-- 
2.43.0


From ba5c721f338b652307bc28229e21f098acd7ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 030/153] fix: solve_cholesky divided by null diagonal elements
 without reporting an error

---
 src/algebra/algebra.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index b5470de..42c2f1a 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1884,6 +1884,11 @@ namespace theoretica {
 				for (unsigned int j = 0; j < i; ++j)
 					sum += L(i, j) * x[j];
 
+				if (L(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_cholesky", i, DIV_BY_ZERO);
+					return vec_error(x);
+				}
+
 				x[i] = (x[i] - sum) / L(i, i);
 			}
 
-- 
2.43.0


From d3401315e7cf5cdb7e8bfae9df6aaed8ac476fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:21 +0000
Subject: [PATCH 031/153] fix: eigenvector_inverse returned an empty vector on
 error

---
 src/algebra/algebra.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 42c2f1a..3f40f76 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2392,14 +2392,14 @@ namespace theoretica {
 
 			if (!is_square(A)) {
 				TH_MATH_ERROR("eigenvector_inverse", is_square(A), INVALID_ARGUMENT);
-				Vector x;
-				return vec_error(x);
+				Vector err = x;
+				return vec_error(err);
 			}
 
 			if (A.rows() != x.size()) {
 				TH_MATH_ERROR("eigenvector_inverse", x.size(), INVALID_ARGUMENT);
-				Vector x;
-				return vec_error(x);
+				Vector err = x;
+				return vec_error(err);
 			}
 
 			Matrix LU = A;
-- 
2.43.0


From f30ae2dea27826beee85ed06a4e7fc31d0111cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 032/153] fix: compound sums and differences of static vectors
 ignored the size of the other operand

---
 src/algebra/vec.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 4babdb1..d2076f3 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -248,8 +248,13 @@ namespace theoretica {
 		template<typename Vector>
 		inline vec<Type, N>& operator+=(const Vector& other) {
 
+			if(size() != other.size()) {
+				TH_MATH_ERROR("vec::operator+=", other.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(*this);
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
-				data[i] += other.data[i];
+				data[i] += other[i];
 		
 			return *this;
 		}
@@ -259,8 +264,13 @@ namespace theoretica {
 		template<typename Vector>
 		inline vec<Type, N>& operator-=(const Vector& other) {
 
+			if(size() != other.size()) {
+				TH_MATH_ERROR("vec::operator-=", other.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(*this);
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
-				data[i] -= other.data[i];
+				data[i] -= other[i];
 		
 			return *this;
 		}
-- 
2.43.0


From c915869faab8b566ef241807b618212a7b6e51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 033/153] fix: compound operators of dynamic vectors did not
 compile

---
 src/algebra/vec.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index d2076f3..e51ef99 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -660,11 +660,11 @@ namespace theoretica {
 
 			if(size() != other.size()) {
 				TH_MATH_ERROR("vec::operator+=", size(), INVALID_ARGUMENT);
-				return (*this = vec<Type>(max(size(), 1), nan()));
+				return (*this = vec<Type>(max<unsigned int>(size(), 1), Type(nan())));
 			}
 
 			for (unsigned int i = 0; i < size(); ++i)
-				data[i] += other.data[i];
+				data[i] += other[i];
 		
 			return *this;
 		}
@@ -676,11 +676,11 @@ namespace theoretica {
 
 			if(size() != other.size()) {
 				TH_MATH_ERROR("vec::operator-=", size(), INVALID_ARGUMENT);
-				return (*this = vec<Type>(max(size(), 1), nan()));
+				return (*this = vec<Type>(max<unsigned int>(size(), 1), Type(nan())));
 			}
 
 			for (unsigned int i = 0; i < size(); ++i)
-				data[i] -= other.data[i];
+				data[i] -= other[i];
 		
 			return *this;
 		}
@@ -701,7 +701,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				*this = vec<Type>(max(size(), 1), nan());
+				*this = vec<Type>(max<unsigned int>(size(), 1), Type(nan()));
 				return *this;
 			}
 
-- 
2.43.0


From 3587f2e2598f91159e08e22658977c75e436c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 034/153] fix: dynamic vec built from an empty list
 dereferenced an empty container

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index e51ef99..3c135e0 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -555,7 +555,7 @@ namespace theoretica {
 		vec(std::initializer_list<Type> l) {
 
 			resize(l.size());
-			std::copy(l.begin(), l.end(), &data[0]);
+			std::copy(l.begin(), l.end(), data.begin());
 		}
 
 		~vec() = default;
-- 
2.43.0


From a84130090575deba20fd26f7ddb80b2024613634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 035/153] fix: static vec::euclidean_base wrote out of bounds
 when given a larger size

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 3c135e0..1fc5b09 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -436,7 +436,7 @@ namespace theoretica {
 		inline static vec<Type, N> euclidean_base(
 			unsigned int i, unsigned int n = N) {
 
-			if(i >= n) {
+			if(i >= n || n != N) {
 				TH_MATH_ERROR("vec::euclidean_base", i, INVALID_ARGUMENT);
 				return vec<Type, N>(Type(nan()));
 			}
-- 
2.43.0


From 9936033f03ac5a8e86b0f8b9c4a3f37254226853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 036/153] fix: the product of a vector and a matrix computed
 the matrix-vector product

---
 src/algebra/mat.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index a69e5c8..bb93554 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -284,7 +284,19 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, K> operator*(
 			const vec<VecType, M>& a, const mat<Type, N, K>& B) {
-			return B * a;
+
+			vec<VecType, K> res;
+
+			if(a.size() != B.rows()) {
+				TH_MATH_ERROR("mat::operator*", a.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(res);
+			}
+
+			for (unsigned int i = 0; i < B.rows(); ++i)
+				for (unsigned int j = 0; j < B.cols(); ++j)
+					res[j] += a[i] * B(i, j);
+
+			return res;
 		}
 
 
@@ -849,7 +861,19 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, 0> operator*(
 			const vec<VecType, M>& a, const mat<Type, 0, 0>& B) {
-			return B * a;
+
+			vec<VecType, 0> res (B.cols());
+
+			if(a.size() != B.rows()) {
+				TH_MATH_ERROR("mat::operator*", a.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(res);
+			}
+
+			for (unsigned int i = 0; i < B.rows(); ++i)
+				for (unsigned int j = 0; j < B.cols(); ++j)
+					res[j] += a[i] * B(i, j);
+
+			return res;
 		}
 
 
-- 
2.43.0


From 16cdb5d09a42c87ca9e09b6f96483e3979cd73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 037/153] fix: matrix-vector product of non-square matrices

---
 src/algebra/mat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index bb93554..67ca329 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -331,7 +331,7 @@ namespace theoretica {
 			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
-				res.resize(cols());
+				res.resize(rows());
 				algebra::vec_error(res);
 				return res;
 			}
@@ -344,7 +344,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -901,7 +902,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
@@ -918,7 +919,9 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		template<unsigned int N = 0, unsigned int K = 0>
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			res.resize(rows());
+			return algebra::transform(res, *this, v);
 		}
 
 
-- 
2.43.0


From 67c3b2d16913e13e315d3745732e94f35ff6b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:49 +0000
Subject: [PATCH 038/153] fix: product of fixed-size non-square matrices had
 the wrong type

---
 src/algebra/mat.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 67ca329..93474f0 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -395,6 +395,16 @@ namespace theoretica {
    		/// @tparam Matrix The type of the matrix to multiply with.
    		/// @param B The matrix to multiply with.
    		/// @return The resulting matrix.
+		template<unsigned int M>
+		inline mat<Type, N, M> operator*(const mat<Type, K, M>& B) const {
+			return mul(B);
+		}
+
+
+		/// Matrix multiplication for any matrix type.
+		/// @tparam Matrix The matrix type for multiplication.
+		/// @param B The matrix to multiply.
+		/// @return A new matrix that is the product of the two.
 		template<typename Matrix>
 		inline auto operator*(const Matrix& B) const {
 
-- 
2.43.0


From 54dfe9e6cf54c0c6fffc260a7611892e6209a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 039/153] fix: l2_norm and linf_norm read the first element of
 empty vectors

---
 src/algebra/distance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 3c7be56..f271974 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -66,9 +66,9 @@ namespace theoretica {
 		template<typename Vector>
 		inline real l2_norm(const Vector& v) {
 
-			auto sum = pair_inner_product(v[0], v[0]);
+			auto sum = vector_element_t<Vector>(0.0);
 
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], v[i]);
 
 			return real(sqrt(sum));
@@ -83,9 +83,9 @@ namespace theoretica {
 		template<typename Vector>
 		inline real linf_norm(const Vector& v) {
 
-			real res = abs(v[0]);
+			real res = 0;
 
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				res = max(res, abs(v[i]));
 
 			return res;
-- 
2.43.0


From 9ffe4d60b2bc80d18ffe4f99131ba9bf26eedbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 040/153] fix: hermitian_distance conjugated the second vector
 before subtracting it

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index f271974..e42a3d7 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -207,7 +207,7 @@ namespace theoretica {
 			complex<T> sum = 0;
 
 			for (size_t i = 0; i < v1.size(); ++i) {
-				const complex<T> diff = v1[i] - conjugate(v2[i]);
+				const complex<T> diff = v1[i] - v2[i];
 				sum += diff * diff.conjugate();
 			}
 
-- 
2.43.0


From 24ab0958485dcc62f9392b947f8430f3705a50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 041/153] fix: canberra_distance divided by zero when both
 elements are null

---
 src/algebra/distance.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index e42a3d7..05cb13a 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -312,8 +312,14 @@ namespace theoretica {
 
 			real sum = 0;
 
-			for (size_t i = 0; i < v1.size(); ++i)
-				sum += abs(v1[i] - v2[i]) / (abs(v1[i]) + abs(v2[i]));
+			for (size_t i = 0; i < v1.size(); ++i) {
+
+				const real den = abs(v1[i]) + abs(v2[i]);
+
+				// Null pairs do not contribute to the distance
+				if(den != 0)
+					sum += abs(v1[i] - v2[i]) / den;
+			}
 
 			return sum;
 		}
-- 
2.43.0


From b2940ad886e5d438afdb5fae3947926d9a044291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 042/153] fix: cosine_distance returned the cosine similarity

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 05cb13a..d2a17aa 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -348,7 +348,7 @@ namespace theoretica {
 				sum_sqr_y += square(v2[i]);
 			}
 
-			return product / sqrt(sum_sqr_x * sum_sqr_y);
+			return 1 - product / sqrt(sum_sqr_x * sum_sqr_y);
 		}
 
 
-- 
2.43.0


From dc4b6f37c4cf75549a5cd577447958703402a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 043/153] fix: sign of an element of rotation_3d

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..e9e8547 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From 1701fbf666ff90cd2fa44fb3a5230879ceb7e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 044/153] fix: rotations around the y and z axes wrote out of
 bounds of 3x3 matrices

---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e9e8547..1e8ed94 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -286,7 +286,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -329,7 +328,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From 3f218d3d4d5e6fe7a1ebf34763881a495af47c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 045/153] fix: look_at used indices of the axes starting from
 one

---
 src/algebra/transform.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 1e8ed94..a219fe8 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -487,19 +487,19 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
 			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
 
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
 			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
 
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
 			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
 
 			m(3, 0) = 0;
-- 
2.43.0


From 7e2153f35291a4922a19f8ee9a3e5963d87f65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 046/153] fix: perspective_fov ignored the size of dynamic
 matrices

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index a219fe8..80415a5 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -415,7 +415,7 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(-width, width, -height, height, near, far, rows, cols);
 		}
 
 
-- 
2.43.0


From fb052b8f327e41cdb1424f651a13b3dabd314cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 047/153] fix: symplectic did not check the shape of fixed-size
 matrices

---
 src/algebra/transform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 80415a5..e8bd34d 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -519,8 +519,8 @@ namespace theoretica {
 			if(rows && cols)
 				m.resize(rows, cols);
 
-			if(rows != cols || (rows % 2 != 0)) {
-				TH_MATH_ERROR("algebra::symplectic", rows, INVALID_ARGUMENT);
+			if(m.rows() != m.cols() || (m.rows() % 2 != 0)) {
+				TH_MATH_ERROR("algebra::symplectic", m.rows(), INVALID_ARGUMENT);
 				mat_error(m);
 				return m;
 			}
-- 
2.43.0


From a448227d0f7f9230cd60b7787ced329bd0b2ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 048/153] fix: perspective and ortho built the transpose of the
 projection matrix

---
 src/algebra/transform.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e8bd34d..8972e63 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -377,12 +377,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 * near / (right - left);
-			m(2, 0)  = (right + left) / (right - left);
+			m(0, 2)  = (right + left) / (right - left);
 			m(1, 1)  = 2 * near / (top - bottom);
-			m(2, 1)  = (top + bottom) / (top - bottom);
+			m(1, 2)  = (top + bottom) / (top - bottom);
 			m(2, 2) = -(far + near) / (far - near);
-			m(3, 2) = -(2 * far * near) / (far - near);
-			m(2, 3) = -1;
+			m(2, 3) = -(2 * far * near) / (far - near);
+			m(3, 2) = -1;
 			m(3, 3) = 0;
 
 			return m;
@@ -445,11 +445,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 / (right - left);
-			m(3, 0)  = -(right + left) / (right - left);
+			m(0, 3)  = -(right + left) / (right - left);
 			m(1, 1)  = 2 / (top - bottom);
-			m(3, 1)  = -(top + bottom) / (top - bottom);
+			m(1, 3)  = -(top + bottom) / (top - bottom);
 			m(2, 2) = -2 / (far - near);
-			m(3, 2) = -(far + near) / (far - near);
+			m(2, 3) = -(far + near) / (far - near);
+			m(3, 3) = 1;
 
 			return m;
 		}
-- 
2.43.0


From 89115c3f5d699888d2314cf4c75fd0e30309b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 049/153] fix: floor of negative non-integer numbers rounded
 towards zero

---
 src/core/real_analysis.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..95f394b 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -270,12 +270,11 @@ namespace theoretica {
 	/// e.g. floor(-0.3) = -1
 	TH_CONSTEXPR inline int floor(real x) {
 
-		if(x < 0 && x > -1)
-			return -1;
-
 		// Compute the biggest integer number
 		// that is smaller than x
-		return x - (int(x) % 1);
+		const int n = int(x);
+
+		return (x < n) ? n - 1 : n;
 	}
 
 
-- 
2.43.0


From f801b527bb697a1d31fe97e7a4b1673fdcdc5710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 050/153] fix: atan2 returned the wrong angle in three
 quadrants

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 95f394b..6c02e89 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1107,9 +1107,9 @@ namespace theoretica {
 		}
 
 		if(x > 0) {
-			return sgn(y) * atan(y / x);
+			return atan(y / x);
 		} else {
-			return sgn(y) * atan(y / -x) + PI2;
+			return atan(y / x) + (y >= 0 ? PI : -PI);
 		}
 	}
 
-- 
2.43.0


From 19ac84c5730b57f285fb8cc8193db59040d88f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 051/153] fix: isqrt and icbrt divided by zero for the biggest
 integer

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 6c02e89..ac58f28 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -55,7 +55,7 @@ namespace theoretica {
 	inline UnsignedIntType isqrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = n / 2 + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
@@ -95,7 +95,7 @@ namespace theoretica {
 	inline UnsignedIntType icbrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = n / 2 + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
-- 
2.43.0


From f7c8f8a22a87d158ef476bcf193caca6fd4e1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 052/153] fix: ilog2 converted -inf to an unsigned integer

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index ac58f28..c50b856 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -550,7 +550,7 @@ namespace theoretica {
 
 		if(x == 0) {
 			TH_MATH_ERROR("ilog2", x, OUT_OF_RANGE);
-			return -inf();
+			return 0;
 		}
 
 		UnsignedIntType bit = 0;
-- 
2.43.0


From 8e958a4677dd837bd3b6118e533566bb4e2ba91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 053/153] fix: pad2 overflowed for results which do not fit a
 signed integer

---
 src/core/real_analysis.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index c50b856..68f7644 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -584,13 +584,21 @@ namespace theoretica {
 				bit = i;
 
 				// Check if x is a power of 2
-				for (int j = 0; j < i; ++j)
-					if(x & ((UnsignedIntType) 1 << j))
-						return (1 << (bit + 1));
+				for (int j = 0; j < i; ++j) {
+					if(x & ((UnsignedIntType) 1 << j)) {
+
+						if(bit + 1 >= sizeof(UnsignedIntType) * 8) {
+							TH_MATH_ERROR("pad2", x, OUT_OF_RANGE);
+							return 0;
+						}
+
+						return (UnsignedIntType) 1 << (bit + 1);
+					}
+				}
 			}
 		}
 
-		return (1 << bit);
+		return (UnsignedIntType) 1 << bit;
 	}
 
 
-- 
2.43.0


From 71c59f3549bbca1f46b55376d97aabbf67d22076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 054/153] fix: binomial_coeff overflowed even when the result
 is representable

---
 src/core/real_analysis.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 68f7644..50d8f3c 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1242,12 +1242,16 @@ namespace theoretica {
 
 		// TO-DO Check out of range
 
+		// The binomial coefficient is symmetric under m -> n - m
+		const unsigned int k = (m > n - m) ? (n - m) : m;
 		IntType res = 1;
 
-		for (unsigned int i = n; i > m; --i)
-			res *= i;
+		// Each partial product is a binomial coefficient itself,
+		// so that the division is exact
+		for (unsigned int i = 1; i <= k; ++i)
+			res = res * (n - k + i) / i;
 
-		return res / fact(n - m);
+		return res;
 	}
 
 
-- 
2.43.0


From 8a6f20a8bb91a25e601d058cac235fa0c711ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 055/153] fix: odd roots of negative numbers recursed
 indefinitely

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 50d8f3c..77fa3b4 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -836,6 +836,10 @@ namespace theoretica {
 		if(n == 3)
 			return cbrt(x);
 
+		// Roots of odd order are odd functions
+		if(x < 0)
+			return -root(-x, n);
+
 		if(x < 1) {
 
 			if(x == 0)
-- 
2.43.0


From 9b259a17a317302209fa8b3882101859f5ad7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 056/153] fix: exp recursed indefinitely for big arguments and
 NaN

---
 src/core/real_analysis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 77fa3b4..e64d782 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -744,10 +744,17 @@ namespace theoretica {
 	/// is approximated using Taylor series on [0, 0.25]
 	inline real exp(real x) {
 
+		if(is_nan(x))
+			return x;
+
 		// Domain reduction to [0, +inf]
 		if(x < 0)
 			return 1.0 / exp(-x);
 
+		// The result is not representable
+		if(x > 710)
+			return inf();
+
 		const real fract_x = fract(x);
 		const int floor_x = floor(x);
 
-- 
2.43.0


From e951153f714b4c4db41104d9721d22e5c33d3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 057/153] fix: log2 shifted by more than the integer width for
 big arguments

---
 src/core/real_analysis.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e64d782..76d8f86 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -441,10 +441,19 @@ namespace theoretica {
 		return fyl2x(x, 1.0);
 #else
 
+		if (x == inf())
+			return x;
+
 		// Domain reduction to [1, +inf)
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
+		// Domain reduction to [1, 2^63]
+		const real x_max = real(uint64_t(1) << 63);
+
+		if (x > x_max)
+			return log2(x / x_max) + 63;
+
 		// Compute the biggest power of 2 so that x <= 2^i
 		unsigned int i = 0;
 		while(x > (uint64_t(1) << i))
-- 
2.43.0


From 3201c527d8714f15d14d5cc76c01e994e4458809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 058/153] fix: coth(0) was not reported as a division by zero

---
 src/core/real_analysis.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 76d8f86..bf1a00c 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1177,6 +1177,12 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic cotangent of x
 	inline real coth(real x) {
+
+		if(x == 0) {
+			TH_MATH_ERROR("coth", x, DIV_BY_ZERO);
+			return nan();
+		}
+
 		real exp_x = exp(x);
 		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
 	}
-- 
2.43.0


From 2a68854202da1063b9577d523dda408b5f33206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 059/153] fix: complex division assignment by a null scalar did
 not compile

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..c3ba180 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From 1f205eddde608b7c584857df588eab7ba12a19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:59 +0000
Subject: [PATCH 060/153] fix: complex square root of negative real numbers was
 null

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..91c7af9 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -113,7 +113,7 @@ namespace theoretica {
 
 		return complex<T>(
 			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From 1f754b899e33650b6c8cc2b2471b6e53a56c4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:51 +0000
Subject: [PATCH 061/153] fix: quat::invert bound a temporary to a reference on
 error

---
 src/complex/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..1453990 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
-- 
2.43.0


From 5af8bb1b9245b9016bb3e800bcefb3a4535a5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:51 +0000
Subject: [PATCH 062/153] fix: quat::rotation called a constructor which does
 not exist

---
 src/complex/quat.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 1453990..2ca0024 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -323,9 +323,18 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
+
+				if(axis.size() != 3) {
+					TH_MATH_ERROR("quat::rotation", axis.size(), INVALID_ARGUMENT);
+					return quat((Type) nan());
+				}
+
+				const Vector n_axis = algebra::normalize(axis);
+				const Type s = sin(rad / 2.0);
+
 				return quat(
 					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
+					n_axis.get(0) * s, n_axis.get(1) * s, n_axis.get(2) * s
 				);
 			}
 
-- 
2.43.0


From 659a522b1963d5514d3d2330569ad5d87d171005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:51 +0000
Subject: [PATCH 063/153] fix: phasor::inverse returned a scalar

---
 src/complex/phasor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..6ebee73 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
-				if(modulus < MACH_EPSILON) {
+				if(abs(modulus) < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor((Type) nan(), (Type) nan());
 				}
 
 				return phasor(
@@ -143,7 +143,7 @@ namespace theoretica {
 			/// Invert the complex number
 			inline phasor& invert() {
 
-				if(modulus < MACH_EPSILON) {
+				if(abs(modulus) < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::invert", modulus, DIV_BY_ZERO);
 					modulus = (Type) nan();
 					phase = (Type) nan();
-- 
2.43.0


From eb839c38c0d62c588fc338c1b775fa3fab19e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:51 +0000
Subject: [PATCH 064/153] fix: difference of phasors with the same phase could
 have a negative norm

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 6ebee73..a58cd97 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -181,7 +181,7 @@ namespace theoretica {
 			/// in algebraic form.
 			inline phasor operator-(const phasor& other) const {
 
-				if(abs(phase - other.phase) < MACH_EPSILON)
+				if(abs(phase - other.phase) < MACH_EPSILON && modulus >= other.modulus)
 					return phasor(modulus - other.modulus, phase);
 
 				return phasor(to_complex() - other.to_complex());
@@ -248,7 +248,7 @@ namespace theoretica {
 			/// Subtract a phasor from this one
 			inline phasor& operator-=(const phasor& other) {
 
-				if(phase == other.phase)
+				if(phase == other.phase && modulus >= other.modulus)
 					modulus -= other.modulus;
 				else
 					*this = phasor(to_complex() - other.to_complex());
-- 
2.43.0


From be17c4ffb3ff365b7b06d64ad1236d35aa950502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:02 +0000
Subject: [PATCH 065/153] fix: complex tan and acos did not compile because of
 an ambiguous overload

---
 src/complex/complex_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 91c7af9..30806a2 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -99,7 +99,7 @@ namespace theoretica {
 	inline complex<T> tan(complex<T> z) {
 
 		const complex<T> t = z * complex<T>(0, 2);
-		return (exp(t) - 1) / (exp(t) + 1) * complex<T>(0, -1);
+		return (exp(t) - complex<T>(1, 0)) / (exp(t) + complex<T>(1, 0)) * complex<T>(0, -1);
 	}
 
 
@@ -137,7 +137,7 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
-		return ln(z + sqrt(square(z) - 1)) * complex<T>(0, -1);
+		return ln(z + sqrt(square(z) - complex<T>(1, 0))) * complex<T>(0, -1);
 	}
 
 
-- 
2.43.0


From 138995f0931de24f2851dc5cb4f8220eea211077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 066/153] fix: powf returns NaN for a null base

---
 src/core/real_analysis.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index bf1a00c..c8145a9 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -817,6 +817,16 @@ namespace theoretica {
 	/// Approximated as \f$e^{a ln(|x|) sgn(x)}\f$
 	inline real powf(real x, real a) {
 
+		if(x == 0) {
+
+			if(a < 0) {
+				TH_MATH_ERROR("powf", a, DIV_BY_ZERO);
+				return inf();
+			}
+
+			return (a == 0) ? 1 : 0;
+		}
+
 		if(a < 0)
 			return 1.0 / exp(-a * ln(abs(x)) * sgn(x));
 
-- 
2.43.0


From 4eca463c691d0920255d63bb55a63d97956b9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 067/153] fix: bit_rotate shifts by the full width when
 rotating by zero

---
 src/core/bit_op.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 2a03594..3d0a438 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -77,7 +77,13 @@ namespace theoretica {
 	inline TH_CONSTEXPR UnsignedIntType
 	bit_rotate(UnsignedIntType x, unsigned int i) {
 
-		return (x << i) | (x >> ((sizeof(UnsignedIntType) * 8) - i));
+		const unsigned int bits = sizeof(UnsignedIntType) * 8;
+		i %= bits;
+
+		if(i == 0)
+			return x;
+
+		return (x << i) | (x >> (bits - i));
 	}
 
 
-- 
2.43.0


From 4649092ab411c680ff9f54f8142648dd4c48a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 068/153] fix: gamma and half_gamma overflow 64-bit integers

---
 src/core/special.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 352576e..3bd36eb 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -27,7 +27,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return fact(k - 1);
+			return fact<real>(k - 1);
 		}
 
 
@@ -46,8 +46,8 @@ namespace theoretica {
 			}
 
 			return (k % 2 == 0)
-		        ? fact<uint64_t>(k / 2 - 1)
-		        : double_fact<uint64_t>(k - 2) * SQRTPI / (1 << ((k - 1) / 2));
+		        ? fact<real>(k / 2 - 1)
+		        : double_fact<real>(k - 2) * SQRTPI / pow(2.0, (k - 1) / 2);
 		}
 
 
-- 
2.43.0


From a0336f1bbc674417ebe1e857d436e6c92a9cd9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 069/153] fix: what() and to_string() do not describe
 OUT_OF_RANGE errors

---
 src/core/error.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..cc8ab37 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -112,6 +112,8 @@ namespace theoretica {
 				case DIV_BY_ZERO: return "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					return "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE:
+					return "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					return "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: return "The algorithm did not converge"; break;
@@ -166,6 +168,8 @@ namespace theoretica {
 				case DIV_BY_ZERO: err_str << "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					err_str << "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE:
+					err_str << "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					err_str << "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: err_str << "The algorithm did not converge"; break;
-- 
2.43.0


From 73ba1f2f5f88a2b2e9cc5114021b5a940a946f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:20 +0000
Subject: [PATCH 070/153] fix: math_exception cannot be caught as
 std::exception

---
 src/core/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.h b/src/core/error.h
index cc8ab37..511cbe2 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -86,7 +86,7 @@ namespace theoretica {
 
 #if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
 
-	class math_exception : std::exception {
+	class math_exception : public std::exception {
 
 	private:
 		MATH_ERRCODE err;
-- 
2.43.0


From 23c0152c08125a4645a7ac9feaa8f4477c5b346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:17 +0000
Subject: [PATCH 071/153] fix: mathematical constants truncated to fewer digits
 than double precision

---
 src/core/constants.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 4aa399a..37e9fae 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -216,7 +216,7 @@ namespace theoretica {
 	constexpr real PI = 3.141592653589793238462643;
 
 	/// Half of Pi
-	constexpr real PI2 = 1.57079632679489655799898;
+	constexpr real PI2 = 1.57079632679489661923132169;
 
 	/// A quarter of Pi
 	constexpr real PI4 = PI / 4.0;
@@ -231,40 +231,40 @@ namespace theoretica {
 	constexpr real INVPI = 1.0 / PI;
 
 	/// The square root of Pi
-	constexpr real SQRTPI = 1.7724538509055159927;
+	constexpr real SQRTPI = 1.77245385090551602729816748;
 
 	/// The Euler mathematical constant (e)
 	constexpr real E = 2.718281828459045235360287;
 
 	/// The binary logarithm of e
-	constexpr real LOG2E = 1.44269504088896338700465094;
+	constexpr real LOG2E = 1.44269504088896340735992468;
 
 	/// The binary logarithm of 10
-	constexpr real LOG210 = 3.32192809488736218170856773213;
+	constexpr real LOG210 = 3.32192809488736234787031943;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903;
+	constexpr real LOG10E = 0.434294481903251827651128919;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.69314718056;
+	constexpr real LN2 = 0.693147180559945309417232121;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299;
+	constexpr real LN10 = 2.30258509299404568401799145;
 
 	/// The scalar conversion factor from degrees to radians
-	constexpr real DEG2RAD = 0.017453292519943295474371680598;
+	constexpr real DEG2RAD = 0.0174532925199432957692369077;
 
 	/// The scalar conversion factor from radians to degrees
-	constexpr real RAD2DEG = 57.2957795130823228646477218717;
+	constexpr real RAD2DEG = 57.2957795130823208767981548;
 
 	/// The square root of 2
-	constexpr real SQRT2 = 1.4142135623730950488;
+	constexpr real SQRT2 = 1.41421356237309504880168872;
 
 	/// The inverse of the square root of 2
-	constexpr real INVSQR2 = 0.7071067811865475;
+	constexpr real INVSQR2 = 0.707106781186547524400844362;
 
 	/// The square root of 3
-	constexpr real SQRT3 = 1.732050807568877;
+	constexpr real SQRT3 = 1.73205080756887729352744634;
 
 	/// Tolerance for the elements of matrices
 	constexpr real ALGEBRA_ELEMENT_TOL = THEORETICA_ALGEBRA_ELEMENT_TOL;
-- 
2.43.0


From 6ff73825ae4099a9b48206cdb6fcac0c7f5528ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 072/153] fix: polynomial::find_order returns the highest null
 coefficient

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..45a76e1 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) >= MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From c7928ba3713312d2388d7492d7970b263e0d5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 073/153] fix: polynomial::trim never terminates on null
 polynomials

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 45a76e1..6d68ddb 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,7 +106,7 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
+				for (int i = coeff.size() - 1; i >= 0; --i) {
 					if(abs(coeff[i]) > MACH_EPSILON)
 						break;
 
-- 
2.43.0


From 120af348dd56bddba8dcc4b2500972d27c04e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 074/153] fix: polynomial subtraction reads past the end of a
 shorter minuend

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 6d68ddb..5ee3c8b 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -151,7 +151,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From 3148c40e99499bfab571e55c8bf09b385e0d8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 075/153] fix: product with an empty polynomial underflows its
 size

---
 src/polynomial/polynomial.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 5ee3c8b..db08bb5 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -169,6 +169,10 @@ namespace theoretica {
 			inline polynomial operator*(const polynomial& p) const {
 
 				polynomial r = polynomial();
+
+				if(!size() || !p.size())
+					return r;
+
 				r.coeff.resize(this->size() + p.size() - 1);
 
 				for (unsigned int i = 0; i < size(); ++i) {
@@ -293,6 +297,10 @@ namespace theoretica {
 			inline polynomial& operator*=(const polynomial& p) {
 
 				polynomial r = polynomial();
+
+				if(!size() || !p.size())
+					return (*this = r);
+
 				r.coeff.resize(this->size() + p.size() - 1, Type(0));
 
 				for (unsigned int i = 0; i < coeff.size(); ++i)
-- 
2.43.0


From 340d0b67daf08e52645ab51edebfc954641501af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 076/153] fix: comparison of polynomials of different size
 tests the common coefficients against zero

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index db08bb5..3f34c4b 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -353,12 +353,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From c5d6e9c37aae20a5c9fd2e3af85d47d7fe7c86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 077/153] fix: polynomial division by a null scalar carries on
 after reporting

---
 src/polynomial/polynomial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 3f34c4b..0d6a8eb 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -254,6 +254,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/", a, DIV_BY_ZERO);
+					return polynomial(Type(nan()));
 				}
 
 				polynomial r = polynomial(*this);
@@ -333,7 +334,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/=", a, DIV_BY_ZERO);
-					return *this;
+					return (*this = polynomial(Type(nan())));
 				}
 
 				for (unsigned int i = 0; i < coeff.size(); ++i)
-- 
2.43.0


From 05ea4b84a969f7f878d3e6389e134833d77ad2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 078/153] fix: polynomial division fails on constants, on
 divisors of degree zero and on empty operands

---
 src/polynomial/polynomial.h | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 0d6a8eb..8c041b1 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -191,19 +191,21 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
-					return polynomial(nan());
+				if(!d.size() || (d_order == 0 && d.get(0) == Type(0))) {
+					TH_MATH_ERROR("polynomial::operator/", d_order, DIV_BY_ZERO);
+					return polynomial(Type(nan()));
 				}
 
+				if(!size())
+					return polynomial();
+
 				// Remainder
 				polynomial r = *this;
 
 				// Quotient
 				polynomial q = polynomial();
-				unsigned int i = 0;
-
-				while(i < this_order) {
+				// Each iteration cancels the highest degree term of the remainder
+				for (unsigned int i = 0; i <= this_order; ++i) {
 
 					// Compute only once the degree of the polynomial
 					const unsigned int r_order = r.find_order();
@@ -223,14 +225,8 @@ namespace theoretica {
 					q += t;
 					r -= t * d;
 
-					i++;
-				}
-
-				// The algorithm has stopped iterating after a number
-				// of the dividend's degree counts
-				if(i == this_order) {
-					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
-					return polynomial(nan());
+					// Avoid leaving a residue due to rounding
+					r[r_order] = Type(0);
 				}
 
 				return q;
-- 
2.43.0


From 27c671d84bbe5a84fa15a1d97ad2dac3c26d55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 079/153] fix: associated Legendre polynomials of negative
 order use wrapping integer arithmetic

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..79f10f4 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1.0, m) * fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		for (int i = 0; i < m; ++i)
@@ -121,7 +121,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= fact(l + m) / fact(l - m);
+			K *= fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		polynomial<real> L = legendre_polynomial(l);
-- 
2.43.0


From ea7f6e914366dfd631294c393f477e5dff0d7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 080/153] fix: assoc_legendre_polynomial_even carries on after
 reporting an odd order

---
 src/polynomial/orthogonal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 79f10f4..9d327bd 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -114,8 +114,10 @@ namespace theoretica {
 	// Associated Legendre polynomial
 	inline polynomial<real> assoc_legendre_polynomial_even(unsigned int l, int m) {
 
-		if(m % 2 != 0)
+		if(m % 2 != 0) {
 			TH_MATH_ERROR("assoc_legendre_polynomial_even", m, IMPOSSIBLE_OPERATION);
+			return polynomial<real>(nan());
+		}
 
 		real K = 1;
 
-- 
2.43.0


From 589017de1c39faec5afa9681ef979be47f30b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 081/153] fix: normalization and weights of Hermite polynomials
 overflow integers

---
 src/polynomial/orthogonal.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 9d327bd..1897808 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -207,7 +207,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(2.0, n) * fact<real>(n) * SQRTPI);
 	}
 
 
@@ -318,6 +318,10 @@ namespace theoretica {
 	inline std::vector<real> hermite_weights(const std::vector<real>& roots) {
 
 		const unsigned int n = roots.size();
+
+		if(n == 0)
+			return {};
+
 		const polynomial<real> H = hermite_polynomial(n - 1);
 
 		std::vector<real> weights;
@@ -325,7 +329,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(2.0, n - 1) * fact<real>(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From e61d00112843e140e169696795ac2c32d3f1e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 082/153] fix: Simpson's method integrates wrongly over an odd
 number of steps

---
 src/calculus/integral.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..e86cc85 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -131,6 +131,10 @@ namespace theoretica {
 			return nan();
 		}
 		
+		// The method needs an even number of steps
+		if(steps % 2 != 0)
+			steps++;
+
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
 
-- 
2.43.0


From 76ddd319a6b88089499599071128d492bcfaec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 083/153] fix: Romberg's and Ridders' methods index empty
 tables when no iteration is requested

---
 src/calculus/deriv.h    | 5 +++++
 src/calculus/integral.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/calculus/deriv.h b/src/calculus/deriv.h
index c0d0983..563d002 100644
--- a/src/calculus/deriv.h
+++ b/src/calculus/deriv.h
@@ -137,6 +137,11 @@ namespace theoretica {
 	>
 	inline real deriv_ridders(RealFunction f, real x, real h = 0.01, unsigned int degree = 3) {
 
+		if(degree == 0) {
+			TH_MATH_ERROR("deriv_ridders", degree, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real A[degree][degree];
 
 		for (unsigned int i = 0; i < degree; ++i) {
diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index e86cc85..c79cac1 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -168,6 +168,11 @@ namespace theoretica {
 		real a, real b,
 		unsigned int iter = 8) {
 
+		if(iter == 0) {
+			TH_MATH_ERROR("integral_romberg", iter, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real T[iter][iter];
 
 		T[0][0] = (f(a) + f(b)) * (b - a) / 2.0;
-- 
2.43.0


From a81490e9eb6f570c13cef24e2aa64dcc09d39b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 084/153] fix: integral_legendre reads missing weights

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index c79cac1..04e63c6 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -336,6 +336,11 @@ namespace theoretica {
 		RealFunction f, real a, real b,
 		const std::vector<real>& x, const std::vector<real>& w) {
 
+		if(x.size() != w.size()) {
+			TH_MATH_ERROR("integral_legendre", x.size(), INVALID_ARGUMENT);
+			return nan();
+		}
+
 		const real mean = (b + a) / 2.0;
 		const real halfdiff = (b - a) / 2.0;
 
-- 
2.43.0


From df3c853338e8cca85eea4ed52a9b19d6e96d6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 085/153] fix: quadratic_roots does not compile

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 8c041b1..6af4cd4 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -416,7 +416,7 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = -sgn(p) * (abs(p) / 2.0
+					z1 = -real(sgn(p)) * (abs(p) / 2.0
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
-- 
2.43.0


From d454bed791366d0dfd2b36cdac1600a71affee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 086/153] fix: evaluating a real polynomial at an integer
 truncates the result

---
 src/polynomial/polynomial.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 6af4cd4..4f06c02 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -68,12 +68,13 @@ namespace theoretica {
 
 			/// Evaluate the polynomial using x as variable
 			template<typename EvalType = Type>
-			inline EvalType eval(EvalType x) const {
+			inline auto eval(EvalType x) const
+			-> decltype(std::declval<Type>() + std::declval<EvalType>()) {
 
 				if(!coeff.size())
 					return 0;
 
-				EvalType sum = 0;
+				decltype(std::declval<Type>() + std::declval<EvalType>()) sum = 0;
 
 				// Evaluate using Horner's method
 				for (unsigned int i = 0; i < coeff.size(); ++i)
@@ -85,7 +86,8 @@ namespace theoretica {
 
 			/// Evaluate the polynomial using x as variable
 			template<typename EvalType = Type>
-			inline EvalType operator()(EvalType x) const {
+			inline auto operator()(EvalType x) const
+			-> decltype(std::declval<Type>() + std::declval<EvalType>()) {
 				return eval(x);
 			}
 
-- 
2.43.0


From 4bcaab529b9d480402d45b95bdbd1d6d5459bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 087/153] fix: use all the stages of Kutta's 3/8 rule in
 step_k38

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..6816966 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From 15b83684b0a7860b1002b4fe9d358d113dc51861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 088/153] fix: correct the last coefficient of the third order
 Adams-Bashforth step

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 6816966..3c07f9d 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From bfa5a3fc6452ba29529cf4da2addb64b34eebbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 089/153] fix: report a non-positive step size in
 ode::solve_fixstep and return a NaN solution for every vector type

---
 src/calculus/ode.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 3c07f9d..18ca473 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -315,8 +315,12 @@ namespace theoretica {
 
 			if (tf < t0) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
-				return err;
+				return ode_solution_t<Vector>(1, x0 * nan(), nan());
+			}
+
+			if (!(stepsize > 0)) {
+				TH_MATH_ERROR("ode::solve_fixstep", stepsize, INVALID_ARGUMENT);
+				return ode_solution_t<Vector>(1, x0 * nan(), nan());
 			}
 
 			const unsigned int steps = floor((tf - t0) / stepsize);
-- 
2.43.0


From 07662326570da940bd7c2f10914ea9bb2d218e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 090/153] fix: do not report convergence at the last allowed
 step as a failure in integral_inf_riemann

---
 src/calculus/integral.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 04e63c6..5a50a35 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -528,7 +528,7 @@ namespace theoretica {
 		// Number of steps performed
 		unsigned int i = 0;
 
-		while(abs(delta) > tol && i <= max_iter) {
+		while(abs(delta) > tol && i < max_iter) {
 
 			delta = integral_romberg_tol(f, x_n, x_n + step_sz, tol);
 			sum += delta;
@@ -536,7 +536,7 @@ namespace theoretica {
 			i++;
 		}
 
-		if(i >= max_iter) {
+		if(!(abs(delta) <= tol)) {
 			TH_MATH_ERROR("integral_inf_riemann", i, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 8dbf7d883b8f636f365fe969b3447091071dfd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 091/153] fix: write the natural boundary condition inside the
 coefficient array in cubic_splines

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..8c30e74 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -271,7 +271,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -345,7 +345,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From 14018f783651e45fd221ec8fa42e554482c79a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 092/153] fix: eliminate with the subdiagonal element in
 cubic_splines

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 8c30e74..4ca552c 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -285,7 +285,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -359,7 +359,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From cf72e0fe98777155862812621406bcf65d6b7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 093/153] fix: work on a copy of the control points in bezier

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 4ca552c..48a8d1b 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -187,7 +187,7 @@ namespace theoretica {
 	/// \see quadratic_bezier
 	/// \see cubic_bezier
 	template<unsigned int N>
-	inline vec<real, N> bezier(const std::vector<vec<real, N>>& points, real t) {
+	inline vec<real, N> bezier(std::vector<vec<real, N>> points, real t) {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 7e80091144eb7633678564127c58add601407cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 094/153] fix: return the scalar parameter from the vector
 version of invlerp

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 48a8d1b..a9cb7fc 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -36,7 +36,7 @@ namespace theoretica {
 
 	/// Inverse linear interpolation
 	template<unsigned int N>
-	inline vec<real, N> invlerp(
+	inline real invlerp(
 		const vec<real, N>& P1, const vec<real, N>& P2, real value) {
 
 		real t = invlerp(P1.get(0), P2.get(0), value);
-- 
2.43.0


From 198ecc4fd9fc8567fa10b023a026b005b6b623a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 095/153] fix: check all pairs of nodes for equality in
 lagrange_polynomial

---
 src/interpolation/polynomial.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..0cf6102 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -30,10 +30,12 @@ namespace theoretica {
 
 		// Check that all x_i are different to prevent
 		// division by zero
-		for (unsigned int i = 0; i < points.size() - 1; ++i) {
-			if(points[i].get(0) == points[i + 1].get(0)) {
-				TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
-				return polynomial<T>({T(nan())});
+		for (unsigned int i = 0; i < points.size(); ++i) {
+			for (unsigned int j = i + 1; j < points.size(); ++j) {
+				if(points[i].get(0) == points[j].get(0)) {
+					TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
+					return polynomial<T>({T(nan())});
+				}
 			}
 		}
 
-- 
2.43.0


From 2f5155f2e7c19f46074633953ca55436eba9d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 096/153] fix: avoid dividing by zero in interpolate_grid of
 order zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index 0cf6102..30f99db 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -100,7 +100,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = i ? (b - a) / real(order) * real(i) + a : a;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From dc095aec586526fd78495342b236fab4faff1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 097/153] fix: return a point of the interval from root_bisect
 when it is already smaller than the tolerance

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..fee6285 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -70,7 +70,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		real x_avg = 0.0;
+		real x_avg = (a + b) / 2.0;
 		real x_min = a;
 		real x_max = b;
 
-- 
2.43.0


From 5f932c6fc34563465fb9949b78503a345b2baf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 098/153] fix: update the residual in root_steffensen instead
 of a shadowing variable

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index fee6285..35df064 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -426,7 +426,7 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From ebb10c182f4b867b599cf19bfd3661e88ea89c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 099/153] fix: call the derivative and compare the squared
 modulus in the complex root_newton

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 35df064..6ef0cf4 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -302,10 +302,10 @@ namespace theoretica {
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
-		while(f_z * f_z.conjugate() > tol * tol && iter <= max_iter) {
+		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
-			z = z - (f_z / df(z));
+			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-- 
2.43.0


From 7ff7657ae8930b905dceb392bf6a90c6f1ee83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 100/153] fix: stop iterative root finding when an exact root
 is reached

---
 src/optimization/roots.h | 47 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 6ef0cf4..2a23329 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -225,6 +225,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The current point is an exact root
+			if(f_x == 0)
+				break;
+
 			x = x - (f_x / Df(x));
 			iter++;
 		}
@@ -265,6 +270,10 @@ namespace theoretica {
 			// Compute the function and its derivative at the same time
 			s = f(dual(x, 1.0));
 
+			// The current point is an exact root
+			if(s.Re() == 0)
+				break;
+
 			x = x - (s.Re() / s.Dual());
 			iter++;
 		}
@@ -305,6 +314,11 @@ namespace theoretica {
 		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
+
+			// The current point is an exact root
+			if(f_z.sqr_norm() == 0)
+				break;
+
 			z = z - (f_z / Df(z));
 			iter++;
 		}
@@ -344,6 +358,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The current point is an exact root
+			if(f_x == 0)
+				break;
+
 			const real df_x = Df(x);
 
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * D2f(x));
@@ -387,6 +406,10 @@ namespace theoretica {
 			// second derivatives at the same time.
 			s = f(dual2(x, 1, 0));
 
+			// The current point is an exact root
+			if(s.Re() == 0)
+				break;
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real d2f_x = s.Dual2();
@@ -427,6 +450,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The current point is an exact root
+			if(f_x == 0)
+				break;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
@@ -473,6 +501,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The current point is an exact root
+			if(f_x == 0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 
@@ -521,6 +554,10 @@ namespace theoretica {
 
 			s = f(dual2(x, 1.0, 0.0));
 
+			// The current point is an exact root
+			if(s.Re() == 0)
+				break;
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real u = f_x / df_x;
@@ -567,6 +604,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The current point is an exact root
+			if(f_x == 0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
@@ -615,6 +657,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The current point is an exact root
+			if(f_x == 0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = Df(x - 2.0 * u / 3.0);
-- 
2.43.0


From 116e3ed403884086b872b1c58ebc164086e16b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 101/153] fix: list a root lying on the edge of two
 sub-intervals only once in roots

---
 src/optimization/roots.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 2a23329..5b82704 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -715,7 +715,12 @@ namespace theoretica {
 			// Check whether the extremes of the candidate intervals
 			// happen to coincide with the roots
 			if(abs(f(intervals[i][0])) <= MACH_EPSILON) {
-				res.push_back(intervals[i][0]);
+
+				// The root may have already been found as
+				// the upper extreme of the previous interval
+				if(res.empty() || res.back() != intervals[i][0])
+					res.push_back(intervals[i][0]);
+
 				continue;
 			}
 
-- 
2.43.0


From 3a1ac6964120a7fa2f0bcab146b184170046cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 102/153] fix: do not modify the argument of the polynomial
 version of roots and check its degree

---
 src/optimization/roots.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 5b82704..fdddf92 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -754,15 +754,22 @@ namespace theoretica {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+
+		if(n == 0) {
+			TH_MATH_ERROR("roots", n, INVALID_ARGUMENT);
+			return {Field(nan())};
+		}
+
+		// Normalized polynomial
+		const polynomial<Field> q = p / p.coeff[n];
 
 		// Absolute value of the highest coefficient
-		Field a_hi = abs(p.coeff[n]);
+		Field a_hi = abs(q.coeff[n]);
 		Field a_sum = 0;
 
 		// Sum the absolute values of the lesser coefficients
 		for (unsigned int i = 0; i < n; ++i)
-			a_sum += abs(p.coeff[i]);
+			a_sum += abs(q.coeff[i]);
 
 		// The roots are bounded in absolute value by the maximum
 		const Field M = max(a_hi, a_sum);
@@ -770,7 +777,7 @@ namespace theoretica {
 		// Back track from the bounds to the first sign inversion ?
 		
 		return roots(
-			[p](real x) { return p(x); },
+			[q](real x) { return q(x); },
 			-M, M, tolerance, steps ? steps : (2 * n));
 	}
 
-- 
2.43.0


From 7b1c154fae3b2604db0e9d7516779db39a520880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 103/153] fix: return NaN from minimize_bisection when the
 extremum is not a minimum

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From 5910f174523b00094d3460a577e387533c09969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 104/153] fix: qualify the gradient operator in the
 multivariate extrema search

---
 src/optimization/multi_extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..b9031cc 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -47,7 +47,7 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
-- 
2.43.0


From c8e7e3a7e3fc041462d5075daeaafb1e22f2b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 105/153] fix: use the tolerance argument in the multivariate
 extrema search

---
 src/optimization/multi_extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b9031cc..86e75c7 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -51,7 +51,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -126,7 +126,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
@@ -177,7 +177,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-- 
2.43.0


From 205798da44370c146e0c0ba9b1b9ebc71ecf85f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 106/153] fix: climb the gradient in multi_maximize_grad

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 86e75c7..b23fa1c 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+
+			grad = autodiff::gradient(f, x);
+			x -= gamma * grad;
+			iter++;
+
+		} while(grad.norm() > tolerance && iter <= max_iter);
+
+		if(iter > max_iter) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From a47382f7261f70bffd65409b1efddf8f4b15c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 107/153] fix: samples of rand_gaussian_polar and
 rand_gaussian_boxmuller depend only on their own generator

---
 src/pseudorandom/sampling.h | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..07fda27 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -198,14 +198,6 @@ namespace theoretica {
 	/// static variables to keep track of spare generated values.
 	inline real rand_gaussian_polar(real mean, real sigma, PRNG& g) {
 
-		static real spare;
-		static bool has_spare = false;
-
-		if(has_spare) {
-			has_spare = false;
-			return mean + spare * sigma;
-		}
-
 		real x, y, s;
 
 		// Generate a random point inside the unit circle
@@ -220,10 +212,6 @@ namespace theoretica {
 		// Project the point
 		s = sqrt(-2 * ln(s) / s);
 
-		// Keep the second generated value for future calls
-		spare = y * s;
-		has_spare = true;
-
 		return mean + sigma * x * s;
 	}
 
@@ -235,14 +223,6 @@ namespace theoretica {
 	/// static variables to keep track of spare generated values.
 	inline real rand_gaussian_boxmuller(real mean, real sigma, PRNG& g) {
 
-		static real spare;
-		static bool has_spare = false;
-
-		if(has_spare) {
-			has_spare = false;
-			return mean + spare * sigma;
-		}
-
 		// Generate a random point inside the unit circle
 		
 		const real x = rand_uniform(0, 1, g);
@@ -251,10 +231,6 @@ namespace theoretica {
 		const real x_transf = sqrt(-2 * ln(x));
 
 		const real u = x_transf * cos(TAU * y);
-		const real v = x_transf * sin(TAU * y);
-
-		spare = v;
-		has_spare = true;
 
 		return mean + sigma * u;
 	}
-- 
2.43.0


From 99137b9200884ccf0f244af0dc16021b93f98e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 108/153] fix: rand_gaussian_boxmuller computed the logarithm
 of zero when the generator yields zero

---
 src/pseudorandom/sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 07fda27..54549f4 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -228,7 +228,7 @@ namespace theoretica {
 		const real x = rand_uniform(0, 1, g);
 		const real y = rand_uniform(0, 1, g);
 
-		const real x_transf = sqrt(-2 * ln(x));
+		const real x_transf = sqrt(-2 * ln(1 - x));
 
 		const real u = x_transf * cos(TAU * y);
 
-- 
2.43.0


From 4a839fed0f5625185d34312b77b1227afd2c0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 109/153] fix: rand_uniform reports a null precision instead of
 dividing by zero

---
 src/pseudorandom/sampling.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 54549f4..c325020 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -32,6 +32,11 @@ namespace theoretica {
 	/// and p is the prec parameter
 	inline real rand_uniform(real a, real b, PRNG& g, uint64_t prec = STATISTICS_RAND_PREC) {
 
+		if(prec == 0) {
+			TH_MATH_ERROR("rand_uniform", prec, DIV_BY_ZERO);
+			return nan();
+		}
+
 		// Generate a uniform random real number in [0, 1]
 		real x = (g() % prec) / static_cast<real>(prec);
 
-- 
2.43.0


From f14940625563606228b27ebc5f5bae68a866333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 110/153] fix: shuffle returns after reporting an empty set

---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..fc306b7 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -210,8 +210,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From befbb17721ddf347e04b6f0d929cc3603b80e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 111/153] fix: PRNG::seed also seeds generators which keep
 their state in the parameters

---
 src/pseudorandom/prng.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index fc306b7..529f953 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -52,7 +52,14 @@ namespace theoretica {
 
 			/// Seed the PRNG.
 			inline void seed(uint64_t seed) {
-				x = seed;
+
+				// The state of these generators is held by their parameters
+				if(f == static_cast<pseudorandom_function>(randgen_xoshiro))
+					*this = PRNG::xoshiro(seed);
+				else if(f == static_cast<pseudorandom_function>(randgen_wyrand) && param.size() == 3)
+					*this = PRNG::wyrand(seed, param[1], param[2]);
+				else
+					x = seed;
 			}
 
 
-- 
2.43.0


From e270af536096590ea225bede47d49aab73bde77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 112/153] fix: randgen_congruential reports a null modulus

---
 src/pseudorandom/pseudorandom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/pseudorandom.h b/src/pseudorandom/pseudorandom.h
index 7916277..99d9138 100644
--- a/src/pseudorandom/pseudorandom.h
+++ b/src/pseudorandom/pseudorandom.h
@@ -65,7 +65,7 @@ namespace theoretica {
 		const uint64_t c = state[1];
 		const uint64_t m = state[2];
 
-        if(a > m || c > m) {
+        if(m == 0 || a > m || c > m) {
             TH_MATH_ERROR("randgen_congruential", max(a, c), INVALID_ARGUMENT);
             return 0;
         }
-- 
2.43.0


From 1441b78832c1d37b4dfb5a17a76b8e9873c44f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 113/153] fix: hit-or-miss integration of functions with a non
 null minimum

---
 src/pseudorandom/montecarlo.h | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..a9f9fd2 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -173,16 +173,12 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The points are distributed over the minimum of the function
+		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c) + c * (b - a);
 	}
 
 
@@ -241,16 +237,12 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The points are distributed over the minimum of the function
+		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c) + c * (b - a);
 	}
 
 
-- 
2.43.0


From b4a77e6af21624959d40654fe58f0d13b1c1264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 114/153] fix: sums of products of datasets accept any element
 type and different containers

---
 src/core/dataset.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..5b9ec40 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -42,12 +42,12 @@ namespace theoretica {
 
 
 	/// Sum the products of two sets of values
-	template<typename Vector>
-	inline auto product_sum(const Vector& X, const Vector& Y) {
+	template<typename Vector, typename Vector2 = Vector>
+	inline auto product_sum(const Vector& X, const Vector2& Y) {
 
 		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("product_sum", X.size(), INVALID_ARGUMENT);
-			return nan();
+			return decltype(X[0] * Y[0])(nan());
 		}
 
 		auto res = X[0] * Y[0];
@@ -59,12 +59,12 @@ namespace theoretica {
 
 
 	/// Sum the products of the squares of two sets of data
-	template<typename Vector>
-	inline auto product_sum_squares(const Vector& X, const Vector& Y) {
+	template<typename Vector, typename Vector2 = Vector>
+	inline auto product_sum_squares(const Vector& X, const Vector2& Y) {
 
 		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("product_sum_squares", X.size(), INVALID_ARGUMENT);
-			return nan();
+			return decltype(X[0] * Y[0])(nan());
 		}
 
 		auto res = (X[0] * X[0]) * (Y[0] * Y[0]);
@@ -77,12 +77,12 @@ namespace theoretica {
 
 
     /// Sum the products of three sets of values
-    template<typename Vector>
-	inline auto product_sum(const Vector& X, const Vector& Y, const Vector& Z) {
+    template<typename Vector, typename Vector2 = Vector, typename Vector3 = Vector>
+	inline auto product_sum(const Vector& X, const Vector2& Y, const Vector3& Z) {
 
 		if(X.size() != Y.size() || X.size() != Z.size() || !X.size()) {
 			TH_MATH_ERROR("product_sum", X.size(), INVALID_ARGUMENT);
-			return nan();
+			return decltype(X[0] * Y[0] * Z[0])(nan());
 		}
 
 		auto res = X[0] * Y[0] * Z[0];
@@ -128,7 +128,7 @@ namespace theoretica {
 
 		if(!X.size()) {
 			TH_MATH_ERROR("sum_squares", X.size(), INVALID_ARGUMENT);
-			return nan();
+			return decltype(X[0] * X[0])(nan());
 		}
 
 		auto res = X[0] * X[0];
-- 
2.43.0


From 1e3a75cd0c81dbda498e4af0db7e0bd5e590ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 115/153] fix: quotient_sum does not access the elements of
 empty datasets

---
 src/core/dataset.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 5b9ec40..62301c3 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -97,14 +97,14 @@ namespace theoretica {
 	template<typename Vector>
 	inline auto quotient_sum(const Vector& X, const Vector& Y) {
 
-		if(X.size() != Y.size()) {
+		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
-			return nan();
+			return decltype(X[0] / Y[0])(nan());
 		}
 
 		if(abs(Y[0]) < MACH_EPSILON) {
 			TH_MATH_ERROR("quotient_sum", Y[0], DIV_BY_ZERO);
-			return nan();
+			return decltype(X[0] / Y[0])(nan());
 		}
 
 		auto res = X[0] / Y[0];
@@ -112,7 +112,7 @@ namespace theoretica {
 
 			if(abs(Y[i]) < MACH_EPSILON) {
 				TH_MATH_ERROR("quotient_sum", Y[i], DIV_BY_ZERO);
-				return nan();
+				return decltype(X[0] / Y[0])(nan());
 			}
 
 			res += X[i] / Y[i];
-- 
2.43.0


From 77a549ef96e91c7cc3ce115d12253d5ac5744635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 116/153] fix: sum of datasets with non-real elements

---
 src/core/dataset.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 62301c3..dba9fde 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -214,7 +214,7 @@ namespace theoretica {
 	/// @param X The vector of values to sum
 	template <
 		typename Vector,
-		std::enable_if_t<has_real_elements<Vector>::value> = true
+		std::enable_if_t<has_real_elements<Vector>::value, bool> = true
 	>
 	inline auto sum(const Vector& X) {
 		return sum_pairwise(X);
@@ -224,15 +224,14 @@ namespace theoretica {
 	/// Compute the sum of a set of values.
 	///
 	/// @param X The vector of values to sum
-	template<typename Vector>
+	template <
+		typename Vector,
+		std::enable_if_t<!has_real_elements<Vector>::value, bool> = true
+	>
 	inline auto sum(const Vector& X) {
 
-		// Use pairwise sum to reduce floating point errors.
-		if TH_CONSTIF (has_real_elements<Vector>())
-			return sum_pairwise(X);
-
-		auto res = X[0];
-		for(unsigned int i = 1; i < X.size(); i++)
+		vector_element_t<Vector> res = vector_element_t<Vector>(0);
+		for(unsigned int i = 0; i < X.size(); i++)
 			res += X[i];
 
 		return res;
-- 
2.43.0


From f09dc2f4c5f6b747a25431e51ae05bb4ec1bfb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 117/153] fix: map fills the destination with NaN when the
 sizes do not match

---
 src/core/dataset.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index dba9fde..304082c 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -266,7 +266,10 @@ namespace theoretica {
 
 		if(src.size() != dest.size()) {
 			TH_MATH_ERROR("th::map", dest.size(), INVALID_ARGUMENT);
-			dest = Vector2(nan());
+
+			for (unsigned int i = 0; i < dest.size(); i++)
+				dest[i] = vector_element_t<Vector2>(nan());
+
 			return dest;
 		}
 
-- 
2.43.0


From 41ffe2253b4ec2abc03465c7056dff76f277f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 118/153] fix: lag-n autocorrelation is normalised over the
 whole dataset

---
 src/statistics/statistics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 2c2a88c..693e350 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -304,20 +304,22 @@ namespace theoretica {
 		template<typename Dataset>
 		inline real autocorrelation(const Dataset& X, unsigned int n = 1) {
 
-			if(X.size() < n) {
+			if(!X.size() || X.size() < n) {
 				TH_MATH_ERROR("autocorrelation", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
 
 			const real mu = mean(X);
 			real num = 0;
-			real den = square(X[0] - mu);
+			real den = 0;
 
-			for (unsigned int i = n; i < X.size(); ++i) {
+			for (unsigned int i = 0; i < X.size(); ++i) {
 
 				const real delta = X[i] - mu;
-				num += delta * (X[i - n] - mu);
 				den += delta * delta;
+
+				if(i >= n)
+					num += delta * (X[i - n] - mu);
 			}
 
 			return num / den;
-- 
2.43.0


From 6e1752e28ad78c2f4a236837ed8ee52171ea4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 119/153] fix: integration step and tolerance of the Gaussian
 approximation in pvalue_chi_squared

---
 src/statistics/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 693e350..fccd02a 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -508,7 +508,7 @@ namespace theoretica {
 					if(new_x < -3)
 						return 1 - integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, -new_x, 1E-16, 25);
+						}, -new_x, 1, 1E-16, 25);
 
 					return 0.5 + integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
@@ -518,7 +518,7 @@ namespace theoretica {
 					if(new_x > 3)
 						return integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, new_x, 1E-16, 25);
+						}, new_x, 1, 1E-16, 25);
 
 					return 0.5 - integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
-- 
2.43.0


From 3dbcf6f3774a4c4cf8546e0dd31f67740a7e3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 120/153] fix: minimum of a histogram filled by insertion

---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From dc41ea43f90e6df03e33558439da1b29bf04c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 121/153] fix: histogram bins are never accessed out of bounds

---
 src/statistics/histogram.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..65ea276 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,7 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				if(!(x >= range_min && x <= range_max) || bin_counts.empty())
 					return;
 
 				// Update average and TSS using Welford's method
@@ -137,10 +137,12 @@ namespace theoretica {
 				if(abs(x - range_max) < MACH_EPSILON)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const unsigned int i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
@@ -210,7 +212,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max) || bin_counts.empty())
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From 185163be5daed361218da272a33a00d8b945935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 122/153] fix: bernoulli distribution is null for values other
 than zero and one

---
 src/statistics/distributions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 1121a78..7dfbb86 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -80,6 +80,9 @@ namespace theoretica {
 		/// Bernoulli distribution
 		inline real bernoulli(unsigned int k, real p) {
 
+			if(k > 1)
+				return 0;
+
 			return pow(p, k) * pow(1 - p, 1 - k);
 		}
 
-- 
2.43.0


From f384ce5c614d85503d57debe733f4e26982d9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 123/153] fix: normalisation constant of the log-normal
 distribution

---
 src/statistics/distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 7dfbb86..4e17b22 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -283,7 +283,7 @@ namespace theoretica {
 		/// Log-normal distribution
 		inline real log_normal(real x, real mu, real sigma) {
 
-			return 1.0 / (2.50662827463 * sigma * x) *
+			return 1.0 / (SQRT2 * SQRTPI * sigma * x) *
 				exp(-square(ln(x) - mu) / (2 * square(sigma)));
 		}
 
-- 
2.43.0


From 327a8b3e13a1c2e98acb6d60f88e264097cd3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 124/153] fix: log-normal, Maxwell and Erlang distributions are
 null over negative values

---
 src/statistics/distributions.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 4e17b22..41cbc24 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -283,6 +283,9 @@ namespace theoretica {
 		/// Log-normal distribution
 		inline real log_normal(real x, real mu, real sigma) {
 
+			if(x <= 0)
+				return 0;
+
 			return 1.0 / (SQRT2 * SQRTPI * sigma * x) *
 				exp(-square(ln(x) - mu) / (2 * square(sigma)));
 		}
@@ -390,6 +393,9 @@ namespace theoretica {
 		/// Maxwell-Boltzmann distribution
 		inline real maxwell(real x, real a) {
 
+			if(x < 0)
+				return 0;
+
 			return (SQRT2 / SQRTPI) * square(x) * exp(-square(x / a) / 2.0) / cube(a);
 		}
 
@@ -460,6 +466,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(x < 0)
+				return 0;
+
 			return pow(lambda, k) * pow(x, k - 1)
 					* exp(-lambda * x) / fact(k - 1);
 		}
-- 
2.43.0


From 0a45aca8a048813f9a09b5fab3d660f35654147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 125/153] fix: the outputs of linear regression are all NaN
 when an error is reported

---
 src/statistics/regression.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..b5f52f2 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -59,6 +59,8 @@ namespace theoretica {
 			real& intercept, real& slope,
 			real& sigma_A, real& sigma_B) {
 
+			sigma_A = nan(); sigma_B = nan();
+
 			// Check that the two data sets have the same size
 			if(X.size() != Y.size()) {
 				TH_MATH_ERROR("regression::ols_linear", X.size(), INVALID_ARGUMENT);
@@ -98,6 +100,8 @@ namespace theoretica {
 			const Dataset1& X, const Dataset2& Y, real sigma_Y,
 			real& intercept, real& slope, mat2& covar_mat) {
 
+			covar_mat = mat2(nan());
+
 			// Check that the two data sets have the same size
 			if(X.size() != Y.size()) {
 				TH_MATH_ERROR("regression::ols_linear", X.size(), INVALID_ARGUMENT);
@@ -140,6 +144,8 @@ namespace theoretica {
 			const Dataset1& X, const Dataset2& Y, const Dataset3& W,
 			real& intercept, real& slope, mat2& covar_mat) {
 
+			covar_mat = mat2(nan());
+
 			if(X.size() != Y.size() || X.size() != W.size()) {
 				TH_MATH_ERROR("wls_linear", X.size(), INVALID_ARGUMENT);
 				intercept = nan(); slope = nan();
@@ -180,6 +186,8 @@ namespace theoretica {
 			real& intercept, real& slope,
 			mat2& covar_mat) {
 
+			covar_mat = mat2(nan());
+
 			if(X.size() != Y.size()) {
 				TH_MATH_ERROR("wls_linear", X.size(), INVALID_ARGUMENT);
 				intercept = nan();
@@ -202,7 +210,6 @@ namespace theoretica {
 			intercept = mean_y - slope * mean_x;
 
 			// TO-DO Compute Covariance Matrix for this case
-			covar_mat = mat2(nan());
 		}
 
 		/// Compute the Ordinary Least Squares regression
-- 
2.43.0


From d55e55af0aa5245b7b07d20f042ee19bbfa5c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 126/153] fix: least squares regression to a line passing
 through the origin

---
 src/statistics/regression.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index b5f52f2..14b0ab8 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -221,21 +221,21 @@ namespace theoretica {
 
 			if(X.size() != Y.size()) {
 				TH_MATH_ERROR("ols_linear_orig", X.size(), INVALID_ARGUMENT);
-				B = nan();
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			const real sum_x = sum(X);
-			const real sum_y = sum(Y);
+			const real sum_xx = sum_squares(X);
+			const real sum_xy = product_sum(X, Y);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
-				B = nan();
+			if(abs(sum_xx) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_xx, DIV_BY_ZERO);
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
-			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
+			B = sum_xy / sum_xx;
+			sigma_B = sqrt(square(sigma_Y) / sum_xx);
 		}
 
 		/// Compute the Weight Least Squares regression
@@ -247,21 +247,21 @@ namespace theoretica {
 
 			if(X.size() != Y.size() || X.size() != W.size()) {
 				TH_MATH_ERROR("wls_linear_orig", X.size(), INVALID_ARGUMENT);
-				B = nan();
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			const real sum_xw = product_sum(X, W);
-			const real sum_yw = product_sum(Y, W);
+			const real sum_xxw = product_sum(X, X, W);
+			const real sum_xyw = product_sum(X, Y, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
-				B = nan();
+			if(abs(sum_xxw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = sum_xyw / sum_xxw;
+			sigma_B = sqrt(1.0 / sum_xxw);
 		}
 
 
-- 
2.43.0


From 77df62d434a04e48df2a01a8462efd521edbeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 127/153] fix: ols_linear_error reports datasets without
 degrees of freedom

---
 src/statistics/regression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 14b0ab8..c6caf6b 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -272,7 +272,7 @@ namespace theoretica {
 			const Dataset1& X, const Dataset2& Y,
 			real intercept, real slope) {
 
-			if(X.size() != Y.size()) {
+			if(X.size() != Y.size() || X.size() <= 2) {
 				TH_MATH_ERROR("ols_linear_error", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
-- 
2.43.0


From 182aa7b81287c617eee9eb23ff18bfe0d3faed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 128/153] fix: linear regression with errors on both axes
 reports null divisors

---
 src/statistics/regression.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index c6caf6b..02eac9b 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -203,6 +203,12 @@ namespace theoretica {
 			const real delta_xy = (product_sum(X, Y) / X.size()) - mean_x * mean_y;
 			const real Delta = square(sigma_X) * delta_y - square(sigma_Y) * delta_x;
 
+			if(abs(square(sigma_X) * delta_xy) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear", delta_xy, DIV_BY_ZERO);
+				intercept = nan(); slope = nan();
+				return;
+			}
+
 			slope = (Delta + sqrt(
 					square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy)
 				)) / (2 * square(sigma_X) * delta_xy);
-- 
2.43.0


From 403fc4c9b6086c87ba5570ab62bc1f27ef879b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 129/153] fix: chi-squared of the linear model

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 02eac9b..a9eff5f 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -440,8 +440,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = ndf * square(err / sigma_Y);
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -520,8 +520,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = ndf * square(err) / (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From 27dbbf041b3a2cf605cba486b1f00ec5b0afa86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 130/153] fix: order of the arguments of apply in
 linear_model::fit

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index a9eff5f..f27e079 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -470,9 +470,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From db07a158fe6eb76bcb1f95316012b23b86b4b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 131/153] fix: linear_model values are NaN until a fit is
 computed

---
 src/statistics/regression.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index f27e079..8f2465f 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -299,37 +299,37 @@ namespace theoretica {
 		struct linear_model {
 
 			/// Intercept
-			real A;
+			real A {nan()};
 
 			/// Estimated error on A
-			real sigma_A;
+			real sigma_A {nan()};
 
 			/// Slope
-			real B;
+			real B {nan()};
 
 			/// Estimated error on B
-			real sigma_B;
+			real sigma_B {nan()};
 
 			/// Covariance matrix of the coefficients A and B
-			mat2 covar_mat;
+			mat2 covar_mat {mat2(nan())};
 
 			/// Total error on linearization
-			real err;
+			real err {nan()};
 
 			/// Chi-squared on linearization
-			real chi_squared;
+			real chi_squared {nan()};
 
 			/// Number of degrees of freedom
 			/// of the linear regression
-			unsigned int ndf;
+			unsigned int ndf {0};
 
 			/// The p-value associated to the
 			/// computed Chi-squared
-			real p_value;
+			real p_value {nan()};
 
 
 			/// Default constructor
-			linear_model() : A(nan()), B(nan()) {}
+			linear_model() {}
 
 
 			/// Construct a linear model from data
-- 
2.43.0


From ae0335d14a8dfbef1324e51d9588e145fcaab3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:47 +0000
Subject: [PATCH 132/153] fix: error_propagation reports uncertainties of a
 different size

---
 src/statistics/errorprop.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/statistics/errorprop.h b/src/statistics/errorprop.h
index 75f58a0..e60ee68 100644
--- a/src/statistics/errorprop.h
+++ b/src/statistics/errorprop.h
@@ -61,6 +61,11 @@ namespace theoretica {
 			MultiDualFunction f,
 			const vec<real, N>& x_best, const vec<real, N>& delta_x) {
 
+			if(delta_x.size() != x_best.size()) {
+				TH_MATH_ERROR("error_propagation", delta_x.size(), INVALID_ARGUMENT);
+				return nan();
+			}
+
 			real err_sqr = 0;
 			const multidual<N> df = f(multidual<N>::make_argument(x_best));
 
-- 
2.43.0


From f79fb502634d09535ed885c213c091b8634faa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:54 +0000
Subject: [PATCH 133/153] fix: probability distributions overflowed the integer
 factorial and binomial coefficient beyond 20!

---
 src/statistics/distributions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 41cbc24..7701686 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -103,7 +103,7 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / (real) fact(k);
+			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
 
@@ -122,7 +122,7 @@ namespace theoretica {
 		/// Binomial distribution function
 		inline real binomial(unsigned int nu, unsigned int n, real p) {
 
-			return binomial_coeff(n, nu) *
+			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
 
@@ -152,10 +152,10 @@ namespace theoretica {
 				return nan();
 			}
 
-			real res = fact(n);
+			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-				res *= pow(p[i], x[i]) / fact(x[i]);
+				res *= pow(p[i], x[i]) / fact<real>(x[i]);
 
 			return res;
 		}
@@ -470,7 +470,7 @@ namespace theoretica {
 				return 0;
 
 			return pow(lambda, k) * pow(x, k - 1)
-					* exp(-lambda * x) / fact(k - 1);
+					* exp(-lambda * x) / fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From e17e5827e10a8eaa4cf2c42e3ea7bff775ff8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:22 +0000
Subject: [PATCH 134/153] fix: fft did not report sizes which are not a power
 of two

---
 src/signal/fft.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 5d6eefc..84e234d 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -38,6 +38,7 @@ namespace theoretica {
 
 			// Enforce power of 2 vector size
 			if (N != (unsigned int) (1 << log2N)) {
+				TH_MATH_ERROR("signal::fft", N, INVALID_ARGUMENT);
 				return algebra::vec_error(k);
 			}
 
-- 
2.43.0


From 79ea6884db8efdf0afcf286ccc696c03d3fe5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:22 +0000
Subject: [PATCH 135/153] fix: ifft ignored its return type

---
 src/signal/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 84e234d..f8f498d 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -87,7 +87,7 @@ namespace theoretica {
 		/// @return The data in the time domain
 		template<typename ReturnVector = cvec, typename InputVector = cvec>
 		inline ReturnVector ifft(const InputVector& k) {
-			return fft(k, true);
+			return fft<ReturnVector>(k, true);
 		}
 	}
 }
-- 
2.43.0


From a30cf036c4a1a2cfeed05c7094b8c8b11c368ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 136/153] fix: bit_op.h uses macros and traits it does not
 include

---
 src/core/bit_op.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 3d0a438..2650434 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -7,6 +7,9 @@
 #define THEORETICA_BIT_OP_H
 
 #include <cstdint>
+#include <utility>
+#include "./core_traits.h"
+#include "./error.h"
 
 
 namespace theoretica {
-- 
2.43.0


From 2c43d772bbfab4e427fe8485193eb4885ae5a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 137/153] fix: size_t is undeclared when printing is disabled

---
 src/core/constants.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/constants.h b/src/core/constants.h
index 37e9fae..8e18f35 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -11,6 +11,7 @@
 
 #include <limits>
 #include <cstdint>
+#include <stddef.h>
 
 /// THEORETICA_DISABLE_X86 Define this macro to disable
 /// Assembly x86 optimizations.
-- 
2.43.0


From f995696bedd46099ceffeb74eea6d89c94437a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 138/153] fix: dataset.h uses real functions it does not
 include

---
 src/core/dataset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 304082c..84f3daf 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -14,6 +14,7 @@
 #include "./core_traits.h"
 #include "./constants.h"
 #include "./error.h"
+#include "./real_analysis.h"
 
 
 namespace theoretica {
-- 
2.43.0


From e9225ba61d214bb49381b7ef585fc2848c492d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 139/153] fix: autodiff_types.h uses types it does not include

---
 src/autodiff/autodiff_types.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autodiff/autodiff_types.h b/src/autodiff/autodiff_types.h
index 4afa4bf..281b981 100644
--- a/src/autodiff/autodiff_types.h
+++ b/src/autodiff/autodiff_types.h
@@ -6,6 +6,12 @@
 #ifndef THEORETICA_AUTODIFF_TYPES_H
 #define THEORETICA_AUTODIFF_TYPES_H
 
+#include <type_traits>
+#include "../core/core_traits.h"
+#include "./dual.h"
+#include "./dual2.h"
+#include "./multidual.h"
+
 
 namespace theoretica {
 
-- 
2.43.0


From 520e1514a18d54f7eacdb6852fdfb6503e265930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 140/153] fix: ode.h uses vector types it does not include

---
 src/calculus/ode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 18ca473..29c1bdf 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -7,6 +7,7 @@
 #define THEORETICA_ODE_H
 
 #include "../algebra/vec.h"
+#include "../algebra/algebra_types.h"
 
 
 namespace theoretica {
-- 
2.43.0


From defd852199abe6c2211b1d79b5de57376cc7abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 141/153] fix: root_itp needs the optional namespace alias

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index fdddf92..7b251da 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -143,7 +143,7 @@ namespace theoretica {
 
 		real x_t, x_new;
 
-		const long int n_half = th::floor(th::log2((b - a) / tol));
+		const long int n_half = floor(log2((b - a) / tol));
 		const long int n_max = n_half + n0;
 
 		real eps = tol * pow(2.0, n_max);
-- 
2.43.0


From b6a96485a1fafb4cf68bd7b27677ae0ed70d24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:41 +0000
Subject: [PATCH 142/153] fix: utility.h does not include functional

---
 src/utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.h b/src/utility.h
index c561ed4..64dfc5c 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <string>
 #include <algorithm>
+#include <functional>
 #include "./algebra/vec.h"
 
 
-- 
2.43.0


From 7ba3cdf38c3b8f2cfdc4f12e5ae57110b44e1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:27 +0000
Subject: [PATCH 143/153] fix: ode.h does not include functional

---
 src/calculus/ode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 29c1bdf..0dac213 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -6,6 +6,7 @@
 #ifndef THEORETICA_ODE_H
 #define THEORETICA_ODE_H
 
+#include <functional>
 #include "../algebra/vec.h"
 #include "../algebra/algebra_types.h"
 
-- 
2.43.0


From 7f3ad20e91855598e85c35af69691e7e3362b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:27 +0000
Subject: [PATCH 144/153] fix: pseudorandom.h uses real functions it does not
 include

---
 src/pseudorandom/pseudorandom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pseudorandom/pseudorandom.h b/src/pseudorandom/pseudorandom.h
index 99d9138..122796c 100644
--- a/src/pseudorandom/pseudorandom.h
+++ b/src/pseudorandom/pseudorandom.h
@@ -10,6 +10,7 @@
 #include <cstdint>
 
 #include "../core/bit_op.h"
+#include "../core/real_analysis.h"
 #include "../core/error.h"
 
 
-- 
2.43.0


From 2f349b22f55be126415528bde8cdca999b0ba290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:27 +0000
Subject: [PATCH 145/153] fix: complex cosine and quadratic roots are ambiguous
 when real is not double

---
 src/complex/complex_analysis.h | 2 +-
 src/polynomial/polynomial.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 30806a2..b75db3f 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -89,7 +89,7 @@ namespace theoretica {
 	inline complex<T> cos(complex<T> z) {
 
 		const complex<T> t = z * complex<T>(0, 1);
-		return (exp(t) + exp(-t)) / 2.0;
+		return (exp(t) + exp(-t)) / T(2);
 	}
 
 
diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 4f06c02..8f34fb0 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -418,7 +418,7 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = -real(sgn(p)) * (abs(p) / 2.0
+					z1 = -real(sgn(p)) * (abs(p) / real(2)
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
-- 
2.43.0


From f578a997352e4d5fc54e040e67589f934820c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:24 +0000
Subject: [PATCH 146/153] fix: Laguerre and Legendre quadrature tables were
 only accurate to about 11 digits

---
 src/calculus/gauss.h | 92 ++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/src/calculus/gauss.h b/src/calculus/gauss.h
index 8cbbb91..3383a94 100644
--- a/src/calculus/gauss.h
+++ b/src/calculus/gauss.h
@@ -84,7 +84,7 @@ namespace theoretica {
 		static real legendre_weights_16[16] = {
 			0.0271524594117540951122847,
 			0.0622535239386478849447004,
-			0.0951585116824928647197876,
+			0.0951585116824927848099,
 			0.124628971255533850669866,
 			0.149595988816576744480109,
 			0.169156519395002539321907,
@@ -95,8 +95,8 @@ namespace theoretica {
 			0.169156519395002538020865,
 			0.149595988816576744480109,
 			0.124628971255533850669866,
-			0.0951585116824928647197876,
-			0.0622535239386479161324535,
+			0.0951585116824927848099,
+			0.0622535239386478928628,
 			0.0271524594117540951122847
 		};
 
@@ -104,34 +104,34 @@ namespace theoretica {
 		// Laguerre
 
 		static real laguerre_roots_2[2] = {
-			0.58578643762690546732,
+			0.585786437626904951198,
 			3.4142135623730945322
 		};
 
 		static real laguerre_weights_2[2] = {
-			0.85355339059327000202,
-			0.14644660940672634871
+			0.8535533905932737622,
+			0.1464466094067262378
 		};
 
 
 		static real laguerre_roots_4[4] = {
-			0.32254768961939191742,
+			0.3225476896193923118,
 			1.7457611011583463777,
 			4.5366202969211275316,
 			9.3950709123011330332
 		};
 
 		static real laguerre_weights_4[4] = {
-			0.60315410434164023839,
-			0.35741869243780005017,
-			0.03888790851500541948,
+			0.603154104341633601636,
+			0.357418692437799686641,
+			0.0388879085150053842724,
 			0.00053929470556132749637
 		};
 
 
 		static real laguerre_roots_8[8] = {
-			0.17027963230510124502,
-			0.90370177679937967218,
+			0.170279632305100999789,
+			0.903701776799379912186,
 			2.2510866298661306928,
 			4.2667001702876592626,
 			7.0459054023934658056,
@@ -141,53 +141,53 @@ namespace theoretica {
 		};
 
 		static real laguerre_weights_8[8] = {
-			0.36918858934162849121,
-			0.41878678081434484077,
+			0.369188589341637529921,
+			0.418786780814342956077,
 			0.17579498663717180432,
-			0.033343492261215595242,
-			0.0027945362352256706928,
-			9.0765087733582173847e-005,
-			8.4857467162725295329e-007,
+			0.0333434922612156515221,
+			0.00279453623522567252494,
+			0.0000907650877335821310424,
+			8.48574671627253154487e-7,
 			1.0480011748715107818e-009
 		};
 
 
 		static real laguerre_roots_16[16] = {
-			0.087649410478928189153,
-			0.46269632891508138072,
+			0.0876494104789278403602,
+			0.462696328915080831881,
 			1.1410577748312272208,
 			2.1292836450983810438,
 			3.4370866338932063403,
-			5.0780186145497663115,
-			7.0703385350482545854,
-			9.4383143363918924219,
+			5.07801861454976791292,
+			7.0703385350482341304,
+			9.43831433639193878395,
 			12.214223368866159374,
-			15.441527368781641486,
-			19.180156856752924456,
-			23.51590569399238859,
-			28.578729742881671998,
-			34.583398702286930866,
-			41.940452647688152288,
-			51.701160339543346826
+			15.4415273687816170768,
+			19.1801568567531348547,
+			23.5159056939919085318,
+			28.5787297428821403675,
+			34.5833987022866258145,
+			41.9404526476883326355,
+			51.7011603395433183643
 		};
 
 		static real laguerre_weights_16[16] = {
-			0.20615171495777392289,
-			0.33105785495087120126,
-			0.26579577764421131011,
-			0.13629693429637680541,
-			0.047328928694125499268,
-			0.011299900080339313299,
-			0.0018490709435266595795,
-			0.00020427191530818007586,
-			1.4844586873978733152e-005,
-			6.8283193308651186878e-007,
-			1.8810248410831411265e-008,
-			2.8623502429707047297e-010,
-			2.1270790332192899185e-012,
-			6.2979670025300090354e-015,
-			5.050473700032298015e-018,
-			4.1614623703730629937e-022
+			0.206151714957800994334,
+			0.331057854950884165993,
+			0.2657957776442141526,
+			0.136296934296377539976,
+			0.0473289286941252189781,
+			0.0112999000803394532312,
+			0.00184907094352631086429,
+			0.000204271915308278460126,
+			0.0000148445868739812987714,
+			6.8283193308711995644e-7,
+			1.88102484107967321388e-8,
+			2.86235024297388161963e-10,
+			2.12707903322410296739e-12,
+			6.29796700251786778717e-15,
+			5.0504737000355128204e-18,
+			4.16146237037285519043e-22
 		};
 
 
-- 
2.43.0


From 0d33de129caf802584bfb6737e525655e33dfffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:24 +0000
Subject: [PATCH 147/153] fix: mathematical constants had double precision only
 when real is long double

---
 src/core/constants.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 8e18f35..a1f845f 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -208,16 +208,16 @@ namespace theoretica {
 	constexpr real MACH_EPSILON = std::numeric_limits<real>::epsilon();
 
 	/// The Phi (Golden Section) mathematical constant
-	constexpr real PHI = 1.6180339887498948482045868;
+	constexpr real PHI = 1.6180339887498948482045868L;
 
 	/// The inverse of the Golden Section mathematical constant
-	constexpr real INVPHI = 0.6180339887498948482045868;
+	constexpr real INVPHI = 0.6180339887498948482045868L;
 
 	/// The Pi mathematical constant
-	constexpr real PI = 3.141592653589793238462643;
+	constexpr real PI = 3.141592653589793238462643L;
 
 	/// Half of Pi
-	constexpr real PI2 = 1.57079632679489661923132169;
+	constexpr real PI2 = 1.57079632679489661923132169L;
 
 	/// A quarter of Pi
 	constexpr real PI4 = PI / 4.0;
@@ -232,40 +232,40 @@ namespace theoretica {
 	constexpr real INVPI = 1.0 / PI;
 
 	/// The square root of Pi
-	constexpr real SQRTPI = 1.77245385090551602729816748;
+	constexpr real SQRTPI = 1.77245385090551602729816748L;
 
 	/// The Euler mathematical constant (e)
-	constexpr real E = 2.718281828459045235360287;
+	constexpr real E = 2.718281828459045235360287L;
 
 	/// The binary logarithm of e
-	constexpr real LOG2E = 1.44269504088896340735992468;
+	constexpr real LOG2E = 1.44269504088896340735992468L;
 
 	/// The binary logarithm of 10
-	constexpr real LOG210 = 3.32192809488736234787031943;
+	constexpr real LOG210 = 3.32192809488736234787031943L;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903251827651128919;
+	constexpr real LOG10E = 0.434294481903251827651128919L;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.693147180559945309417232121;
+	constexpr real LN2 = 0.693147180559945309417232121L;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299404568401799145;
+	constexpr real LN10 = 2.30258509299404568401799145L;
 
 	/// The scalar conversion factor from degrees to radians
-	constexpr real DEG2RAD = 0.0174532925199432957692369077;
+	constexpr real DEG2RAD = 0.0174532925199432957692369077L;
 
 	/// The scalar conversion factor from radians to degrees
-	constexpr real RAD2DEG = 57.2957795130823208767981548;
+	constexpr real RAD2DEG = 57.2957795130823208767981548L;
 
 	/// The square root of 2
-	constexpr real SQRT2 = 1.41421356237309504880168872;
+	constexpr real SQRT2 = 1.41421356237309504880168872L;
 
 	/// The inverse of the square root of 2
-	constexpr real INVSQR2 = 0.707106781186547524400844362;
+	constexpr real INVSQR2 = 0.707106781186547524400844362L;
 
 	/// The square root of 3
-	constexpr real SQRT3 = 1.73205080756887729352744634;
+	constexpr real SQRT3 = 1.73205080756887729352744634L;
 
 	/// Tolerance for the elements of matrices
 	constexpr real ALGEBRA_ELEMENT_TOL = THEORETICA_ALGEBRA_ELEMENT_TOL;
-- 
2.43.0


From 978ce97c8425e2a13a2ba13b53dfc0cdb4fd0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 148/153] fix: sturm_liouville used a function which does not
 exist

---
 src/autodiff/autodiff.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 92bdb12..4291636 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -11,6 +11,7 @@
 #include "multidual.h"
 #include "../algebra/vec.h"
 #include "../algebra/mat.h"
+#include "../algebra/transform.h"
 #include "../core/error.h"
 #include "../core/core_traits.h"
 #include "./autodiff_types.h"
@@ -436,9 +437,10 @@ namespace theoretica {
 			multidual<N>(*H)(vec<multidual<N>, N>),
 			vec<real, N> eta) {
 
-			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+			return algebra::dot(
+				gradient(f, eta),
+				algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size()) * gradient(H, eta)
+			);
 		}
 
 	}
-- 
2.43.0


From 2d75c2cfa4b0c3ce8417853160a6b8305e914649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 149/153] fix: curl of a field which is not three-dimensional
 returned an error vector of wrong size

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 4291636..05e7ffe 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -289,7 +289,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
-- 
2.43.0


From 9778fbc85f8f7555aee3bfee236646e12d4e77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 150/153] fix: the second order part of dual2 errors was null
 instead of NaN

---
 src/autodiff/dual2_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index db6adac..6bf6157 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -58,7 +58,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(dual2)", sqrt_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -105,7 +105,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(dual2)", cos_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -124,7 +124,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(dual2)", sin_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -153,7 +153,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(ln(x.Re()),
@@ -168,7 +168,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -184,7 +184,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -206,7 +206,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
@@ -225,7 +225,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
-- 
2.43.0


From e3d2ee908fafac7167e4b859e2ac14a5963d64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 151/153] fix: arcsine and arccosine of dual numbers divided by
 zero at -1

---
 src/autodiff/dual2_functions.h     | 4 ++--
 src/autodiff/dual_functions.h      | 4 ++--
 src/autodiff/multidual_functions.h | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 6bf6157..d253ad8 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -204,7 +204,7 @@ namespace theoretica {
 	/// Compute the arcsine of a second order dual number
 	inline dual2 asin(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan(), nan());
 		}
@@ -223,7 +223,7 @@ namespace theoretica {
 	/// Compute the arcosine of a second order dual number
 	inline dual2 acos(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan(), nan());
 		}
diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index f63506d..2a52c81 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -157,7 +157,7 @@ namespace theoretica {
 	/// Compute the arcsine of a dual number
 	inline dual asin(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
@@ -169,7 +169,7 @@ namespace theoretica {
 	/// Compute the arccosine of a dual number
 	inline dual acos(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index dbde638..e88cf92 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -160,7 +160,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> asin(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
@@ -173,7 +173,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> acos(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
-- 
2.43.0


From be85cadfec5a4aa02eed00f32bffa99579827d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 152/153] fix: division of dual and multidual numbers by zero
 was not reported

---
 src/autodiff/dual.h      | 12 ++++++++++++
 src/autodiff/multidual.h |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index eb69c96..8442df4 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -171,12 +171,24 @@ namespace theoretica {
 
 			/// Dual division
 			inline dual operator/(const dual& other) const {
+
+				if(other.a == 0) {
+					TH_MATH_ERROR("dual::operator/", 0, DIV_BY_ZERO);
+					return dual(nan(), nan());
+				}
+
 				return dual(a / other.a,
 					(b * other.a - a * other.b) / square(other.a));
 			}
 
 			/// Divide a dual number by a real number
 			inline dual operator/(real r) const {
+
+				if(r == 0) {
+					TH_MATH_ERROR("dual::operator/", 0, DIV_BY_ZERO);
+					return dual(nan(), nan());
+				}
+
 				return dual(a / r, b / r);
 			}
 
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 43b5221..e68f753 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -167,6 +167,12 @@ namespace theoretica {
 
 			/// Divide a multidual number by a real number
 			inline multidual operator/(real r) const {
+
+				if(r == 0) {
+					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
+				}
+
 				return multidual(a / r, v / r);
 			}
 
-- 
2.43.0


From a07401849a1cd94001413918e5308e8c1716f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:24 +0000
Subject: [PATCH 153/153] fix: powers of null dual numbers to exponents zero
 and one divided by zero

---
 src/autodiff/dual2_functions.h     | 6 ++++++
 src/autodiff/dual_functions.h      | 3 +++
 src/autodiff/multidual_functions.h | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index d253ad8..cfaa048 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,6 +40,12 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
+		if(n == 0)
+			return dual2(1, 0, 0);
+
+		if(n == 1)
+			return x;
+
 		const real pow_n_2_x = pow(x.Re(), n - 2);
 
 		real f = pow_n_2_x * square(x.Re());
diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 2a52c81..b5508aa 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,9 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		if(n == 0)
+			return dual(1, 0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index e88cf92..3345c5c 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,10 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+
+		if(n == 0)
+			return multidual<N>(1, vec<real, N>(x.Dual().size(), 0));
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
 	}
-- 
2.43.0

