From d8a64959b8ada1212cef5a521747d4ca0aee9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 001/176] fix: floor of negative non-integers below -1

---
 src/core/real_analysis.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..3191187 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -270,12 +270,12 @@ namespace theoretica {
 	/// e.g. floor(-0.3) = -1
 	TH_CONSTEXPR inline int floor(real x) {
 
-		if(x < 0 && x > -1)
-			return -1;
+		// Truncate towards zero
+		const int i = int(x);
 
 		// Compute the biggest integer number
 		// that is smaller than x
-		return x - (int(x) % 1);
+		return (x < i) ? i - 1 : i;
 	}
 
 
-- 
2.43.0


From 54fe09fea74f75e1d9fc2c8a49bac29385410416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 002/176] fix: isqrt and icbrt of the maximum value of the type
 divide by zero

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 3191187..96fc10e 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -55,7 +55,7 @@ namespace theoretica {
 	inline UnsignedIntType isqrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
@@ -95,7 +95,7 @@ namespace theoretica {
 	inline UnsignedIntType icbrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
-- 
2.43.0


From 6742e3232e2f6e174123f4d29e1dd46c60981572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 003/176] fix: pad2 overflows int for arguments above 2^30

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 96fc10e..bb79ec2 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -587,11 +587,11 @@ namespace theoretica {
 				// Check if x is a power of 2
 				for (int j = 0; j < i; ++j)
 					if(x & ((UnsignedIntType) 1 << j))
-						return (1 << (bit + 1));
+						return ((UnsignedIntType) 1 << (bit + 1));
 			}
 		}
 
-		return (1 << bit);
+		return ((UnsignedIntType) 1 << bit);
 	}
 
 
-- 
2.43.0


From 124540d201d0e74b9ce6e6e1d3bd9122fe9823e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 004/176] fix: bit_rotate shifts by the full width when
 rotating by 0

---
 src/core/bit_op.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 2a03594..cd3ed8f 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -77,7 +77,10 @@ namespace theoretica {
 	inline TH_CONSTEXPR UnsignedIntType
 	bit_rotate(UnsignedIntType x, unsigned int i) {
 
-		return (x << i) | (x >> ((sizeof(UnsignedIntType) * 8) - i));
+		const unsigned int width = sizeof(UnsignedIntType) * 8;
+		i %= width;
+
+		return (x << i) | (x >> ((width - i) % width));
 	}
 
 
-- 
2.43.0


From 0f0250ffdedc026a9c1073ad8b7e7c7e77f1f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 005/176] fix: binomial_coeff overflows even when the result is
 small

---
 src/core/real_analysis.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index bb79ec2..07fc60a 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1237,10 +1237,17 @@ namespace theoretica {
 
 		IntType res = 1;
 
-		for (unsigned int i = n; i > m; --i)
-			res *= i;
+		// Use the symmetry of the coefficients
+		if(m > n - m)
+			m = n - m;
+
+		// The division is exact at each step
+		for (unsigned int i = 1; i <= m; ++i) {
+			res *= (n - m + i);
+			res /= i;
+		}
 
-		return res / fact(n - m);
+		return res;
 	}
 
 
-- 
2.43.0


From 0292aa2284cb5e7061ada7606f99d419c7b22deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 006/176] fix: atan2 returns the wrong angle outside the first
 quadrant

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 07fc60a..2d7e0a2 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1108,9 +1108,9 @@ namespace theoretica {
 		}
 
 		if(x > 0) {
-			return sgn(y) * atan(y / x);
+			return atan(y / x);
 		} else {
-			return sgn(y) * atan(y / -x) + PI2;
+			return atan(y / x) + (y >= 0 ? PI : -PI);
 		}
 	}
 
-- 
2.43.0


From fd9c36e9fe9206bc10e9c3d22bfec0cafec3a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 007/176] fix: odd n-th roots of negative numbers recurse
 forever for n > 3

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 2d7e0a2..23dc67c 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -834,6 +834,10 @@ namespace theoretica {
 			if(x == 0)
 				return 0;
 
+			// Odd roots are odd functions
+			if(x < 0)
+				return -root(-x, n);
+
 			// Approximate root between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
-- 
2.43.0


From 939a11065e4cb958ec78776a0df54d611392619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:14 +0000
Subject: [PATCH 008/176] fix: hit-or-miss integrals are wrong when the minimum
 of the function is not zero

---
 src/pseudorandom/montecarlo.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..eb60493 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -171,18 +171,12 @@ namespace theoretica {
 			const real x_n = rand_uniform(a, b, g);
 			const real y_n = rand_uniform(c, d, g);
 
-			const real f_x = f(x_n);
-
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f(x_n) >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// Add the signed area between the minimum and the x axis
+		return (b - a) * (c + (d - c) * (N_inside / static_cast<real>(N)));
 	}
 
 
@@ -239,18 +233,12 @@ namespace theoretica {
 			const real x_n = a + (b - a) * v[0];
 			const real y_n = c + (d - c) * v[1];
 
-			const real f_x = f(x_n);
-
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f(x_n) >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// Add the signed area between the minimum and the x axis
+		return (b - a) * (c + (d - c) * (N_inside / static_cast<real>(N)));
 	}
 
 
-- 
2.43.0


From 411d01e54e3478d775edcfadf75a22704c7643fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:14 +0000
Subject: [PATCH 009/176] fix: shuffle of an empty set divides by zero after
 reporting the error

---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..fc306b7 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -210,8 +210,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From 8fb8b803c20bd1386f3dafdf1589c30b319383d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 010/176] fix: n-th roots fail to converge for large arguments

The stopping criterion was an absolute tolerance on y^n - x, which rounding
errors never satisfy when x is large; without x86 instructions the iteration
also started too far away to converge within the iteration limit.
---
 src/core/real_analysis.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 23dc67c..3ac2953 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -844,25 +844,20 @@ namespace theoretica {
 			return 1.0 / root(1.0 / x, n);
 		}
 
-		// Approximate n-th root using Newton-Raphson.
-		// If fast exponentials and logarithms are available,
-		// use a first calculation to speed up convergence.
-#ifdef THEORETICA_X86
+		// Approximate n-th root using Newton-Raphson,
+		// starting from a first approximation of the root.
 		real y = exp(ln(x) / n);
-#else
-		real y = x;
-#endif
 
 		unsigned int i = 0;
 
 		while(i < OPTIMIZATION_NEWTON_ITER) {
 
-			const real y_pow = pow(y, n - 1);
+			const real y_prev = y;
+			y = (y * (n - 1) + x / pow(y, n - 1)) / (real) n;
 
-			if((y_pow * y - x) < OPTIMIZATION_TOL)
+			if(abs(y - y_prev) <= 4 * MACH_EPSILON * y)
 				break;
 
-			y = (y * (n - 1) + x / y_pow) / (real) n;
 			i++;
 		}
 
-- 
2.43.0


From b708adb0e276fe14b84bb2b52fa819d787297d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 011/176] fix: square and cubic roots of large numbers exhaust
 the iteration limit

---
 src/core/real_analysis.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 3ac2953..321a472 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -171,6 +171,13 @@ namespace theoretica {
 			return 1.0 / sqrt(1.0 / x);
 		}
 
+		// Reduce large arguments by powers of 4
+		real scale = 1;
+		for (unsigned int k = 0; x > 1073741824.0 && k < 40; ++k) {
+			x /= 1073741824.0;
+			scale *= 32768.0;
+		}
+
 		// Approximate sqrt(x) using Newton-Raphson
 		real y = x;
 		unsigned int i = 0;
@@ -180,7 +187,7 @@ namespace theoretica {
 			i++;
 		}
 
-		return y;
+		return scale * y;
 #endif
 
 	}
@@ -213,6 +220,13 @@ namespace theoretica {
 			return 1.0 / cbrt(1.0 / x);
 		}
 
+		// Reduce large arguments by powers of 8
+		real scale = 1;
+		for (unsigned int k = 0; x > 1073741824.0 && k < 40; ++k) {
+			x /= 1073741824.0;
+			scale *= 1024.0;
+		}
+
 		// Approximate cbrt(x) using Newton-Raphson
 		real y = x;
 		unsigned int i = 0;
@@ -222,7 +236,7 @@ namespace theoretica {
 			i++;
 		}
 
-		return y;
+		return scale * y;
 	}
 
 
-- 
2.43.0


From 4245001c083606eff57e9ed74efff66fc791d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 012/176] fix: dividing a fixed-size vector in place does not
 compile

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..09e7092 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From 66838faa5da487b152654ef599ae6d43a497a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 013/176] fix: copying into a fixed-size vector or matrix of
 another size writes out of bounds

---
 src/algebra/algebra.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..52579ea 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -126,6 +126,10 @@ namespace theoretica {
 
 			dest.resize(src.rows(), src.cols());
 
+			// Structures with fixed size cannot be resized
+			if(dest.rows() != src.rows() || dest.cols() != src.cols())
+				return mat_error(dest);
+
 			for (unsigned int i = 0; i < src.rows(); ++i)
 				for (unsigned int j = 0; j < src.cols(); ++j)
 					dest(i, j) = src(i, j);
@@ -144,6 +148,10 @@ namespace theoretica {
 
 			dest.resize(src.size());
 
+			// Structures with fixed size cannot be resized
+			if(dest.size() != src.size())
+				return vec_error(dest);
+
 			for (unsigned int i = 0; i < src.size(); ++i)
 				dest[i] = src[i];
 
-- 
2.43.0


From 2fd7b6c5bb236fab0e63159aa9b694453a38efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:40 +0000
Subject: [PATCH 014/176] fix: in-place vector sum and difference return the
 type of the wrong operand

---
 src/algebra/algebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 52579ea..0943107 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1140,7 +1140,7 @@ namespace theoretica {
 		/// @param v2 The second vector to add
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_sum(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_sum(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_sum", v1.size(), INVALID_ARGUMENT);
@@ -1188,7 +1188,7 @@ namespace theoretica {
 		/// @param v2 The second vector
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_diff(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_diff(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_diff", v1.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 790e96072cf4a124d0a4e18d644db8727163bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:41 +0000
Subject: [PATCH 015/176] fix: elements of non-square dynamic matrices overlap
 and lie out of bounds

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..64f86ae 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From a2b6c1d2ca0700ad6518b9d12a333006f7e318d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:41 +0000
Subject: [PATCH 016/176] fix: resizing a dynamic matrix moves its elements

---
 src/algebra/mat.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 64f86ae..83333ef 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1239,13 +1239,15 @@ namespace theoretica {
 
 			std::vector<Type> new_data (rows * cols);
 
-			if (data.size()) {
-
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
-
-				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
+			// Copy the overlapping elements
+			for (unsigned int i = 0; i < rows && i < row_sz; ++i) {
+				for (unsigned int j = 0; j < cols && j < col_sz; ++j) {
+#ifdef THEORETICA_ROW_FIRST
+					new_data[j + i * cols] = at(i, j);
+#else
+					new_data[i + j * rows] = at(i, j);
+#endif
+				}
 			}
 
 			data = new_data;
-- 
2.43.0


From 08031d835230762381809dcada67d46668cb838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:41 +0000
Subject: [PATCH 017/176] fix: constructing a fixed-size diagonal matrix
 without sizes gives the null matrix

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 83333ef..7878aaa 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = min(N, K);
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From 301da4761eb33dcfc15711f555d87977d77a7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:41 +0000
Subject: [PATCH 018/176] fix: a dynamic matrix cannot be constructed from
 another matrix type

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 7878aaa..c7067a8 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -720,7 +720,7 @@ namespace theoretica {
 		/// @tparam Matrix A compatible matrix type.
 		/// @param m The matrix to copy from.
 		template <
-			typename Matrix, enable_matrix<Matrix>
+			typename Matrix, enable_matrix<Matrix> = true
 		>
 		mat(const Matrix& m) {
 			resize(m.rows(), m.cols());
-- 
2.43.0


From a8ef8374ef08b7f4bf66e691cf26f4bdb5efc12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 019/176] fix: swapping columns of a non-square matrix runs
 over the wrong number of rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 0943107..ff8ed4f 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -219,7 +219,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From 77c104988223b44c04726dd4e01a326f8ef9576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 020/176] fix: in-place matrix sum, difference and combination
 return the type of the wrong operand

---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index ff8ed4f..c2d42e4 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -769,7 +769,7 @@ namespace theoretica {
 		/// @param B The second matrix to add
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_sum(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_sum(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_sum", A.rows(), INVALID_ARGUMENT);
@@ -837,7 +837,7 @@ namespace theoretica {
 		/// @param B The second matrix
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_diff(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_diff(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_diff", A.rows(), INVALID_ARGUMENT);
@@ -906,7 +906,7 @@ namespace theoretica {
 		/// @param B The second matrix to combine
 		/// @return A reference to the overwritten matrix
 		template<typename Field1, typename Matrix1, typename Field2, typename Matrix2>
-		inline Matrix2& mat_lincomb(
+		inline Matrix1& mat_lincomb(
 			Field1 alpha, Matrix1& A, Field2 beta, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
-- 
2.43.0


From 1d2ef67b516c87f748e198dc9da8eb980d902dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 021/176] fix: linear combination of matrices into another
 matrix does not compile

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index c2d42e4..41e327c 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -945,14 +945,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -971,7 +971,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From 155e104095df72fb2001d12887893738452815c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 022/176] fix: in-place Hermitian conjugate does not conjugate
 the diagonal

---
 src/algebra/algebra.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 41e327c..e1e3490 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -517,6 +517,8 @@ namespace theoretica {
 					m(i, j) = conjugate(m(j, i));
 					m(j, i) = conjugate(buff);
 				}
+
+				m(i, i) = conjugate(m(i, i));
 			}
 
 			return m;
-- 
2.43.0


From 03c4c22525b2d5cb119de8c1c8aba53a307993e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 023/176] fix: transforming vectors by non-square matrices
 writes out of bounds, in-place transform has no effect

---
 src/algebra/algebra.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index e1e3490..d7de6c5 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -691,14 +691,19 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
+
+			// Structures with fixed size cannot be resized
+			if(res.size() != A.rows())
+				return vec_error(v);
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
@@ -712,7 +717,7 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
 			if(v.size() != A.cols()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
@@ -720,6 +725,10 @@ namespace theoretica {
 				return res;
 			}
 
+			// Structures with fixed size cannot be resized
+			if(res.size() != A.rows())
+				return vec_error(res);
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
@@ -746,7 +755,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
-- 
2.43.0


From 1927c7223378b2bd3c1a3dc0a4fa89c556d1274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 024/176] fix: products of non-square matrices and vectors

---
 src/algebra/mat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index c7067a8..1397323 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -319,7 +319,7 @@ namespace theoretica {
 			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
-				res.resize(cols());
+				res.resize(rows());
 				algebra::vec_error(res);
 				return res;
 			}
@@ -332,7 +332,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -877,7 +878,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
@@ -894,7 +895,9 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		template<unsigned int N = 0, unsigned int K = 0>
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			res.resize(rows());
+			return algebra::transform(res, *this, v);
 		}
 
 
-- 
2.43.0


From e527e38cbf8297a898b576871603978fdbdbb522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 025/176] fix: vector times matrix computes matrix times vector

---
 src/algebra/mat.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1397323..130e5b6 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -284,7 +284,19 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, K> operator*(
 			const vec<VecType, M>& a, const mat<Type, N, K>& B) {
-			return B * a;
+
+			vec<VecType, K> res;
+
+			if(a.size() != N) {
+				TH_MATH_ERROR("operator*(vec, mat)", a.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(res);
+			}
+
+			for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int j = 0; j < K; ++j)
+					res[j] += a[i] * B(i, j);
+
+			return res;
 		}
 
 
@@ -850,7 +862,20 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, 0> operator*(
 			const vec<VecType, M>& a, const mat<Type, 0, 0>& B) {
-			return B * a;
+
+			vec<VecType, 0> res;
+			res.resize(B.cols());
+
+			if(a.size() != B.rows()) {
+				TH_MATH_ERROR("operator*(vec, mat)", a.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(res);
+			}
+
+			for (unsigned int i = 0; i < B.rows(); ++i)
+				for (unsigned int j = 0; j < B.cols(); ++j)
+					res[j] += a[i] * B(i, j);
+
+			return res;
 		}
 
 
-- 
2.43.0


From 72aab59ee0326f043653d559eceebce66bfe98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 026/176] fix: product of non-square fixed-size matrices is an
 error matrix of the wrong shape

---
 src/algebra/mat.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 130e5b6..0671897 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -391,6 +391,17 @@ namespace theoretica {
 		}
 
 
+   		/// Overloads the `*` operator for matrix multiplication
+   		/// with a statically allocated matrix.
+   		/// @tparam M The number of columns in matrix `B`.
+   		/// @param B The matrix to multiply with.
+   		/// @return The resulting matrix.
+		template<unsigned int M>
+		inline mat<Type, N, M> operator*(const mat<Type, K, M>& B) const {
+			return mul(B);
+		}
+
+
    		/// Overloads the `*` operator for matrix multiplication.
    		/// @tparam Matrix The type of the matrix to multiply with.
    		/// @param B The matrix to multiply with.
-- 
2.43.0


From 965476bf5b9cc3cc5a5b4c20ac820bf93dce59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 027/176] fix: product of a dynamic matrix by a fixed-size
 matrix fails unless the shapes coincide

---
 src/algebra/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 0671897..5978e1d 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -991,9 +991,9 @@ namespace theoretica {
 		/// If the number of rows in `B` does not match the number of columns in the
 		/// current matrix, an error is raised and an error matrix is returned.
 		template<typename Matrix>
-		inline Matrix mul(const Matrix& B) const {
+		inline mat<Type> mul(const Matrix& B) const {
 
-			Matrix res;
+			mat<Type> res;
 			res.resize(rows(), B.cols());
 
 			if(B.rows() != cols()) {
-- 
2.43.0


From cb6f1ba9a0cce00513b7ad6cbaf07e4ecfad600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:56 +0000
Subject: [PATCH 028/176] fix: adding in place a vector of another type does
 not compile

---
 src/algebra/vec.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 09e7092..b2d82d1 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -248,8 +248,13 @@ namespace theoretica {
 		template<typename Vector>
 		inline vec<Type, N>& operator+=(const Vector& other) {
 
+			if(other.size() != N) {
+				TH_MATH_ERROR("vec::operator+=", other.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(*this);
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
-				data[i] += other.data[i];
+				data[i] += other[i];
 		
 			return *this;
 		}
@@ -259,8 +264,13 @@ namespace theoretica {
 		template<typename Vector>
 		inline vec<Type, N>& operator-=(const Vector& other) {
 
+			if(other.size() != N) {
+				TH_MATH_ERROR("vec::operator-=", other.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(*this);
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
-				data[i] -= other.data[i];
+				data[i] -= other[i];
 		
 			return *this;
 		}
@@ -654,7 +664,7 @@ namespace theoretica {
 			}
 
 			for (unsigned int i = 0; i < size(); ++i)
-				data[i] += other.data[i];
+				data[i] += other[i];
 		
 			return *this;
 		}
@@ -670,7 +680,7 @@ namespace theoretica {
 			}
 
 			for (unsigned int i = 0; i < size(); ++i)
-				data[i] -= other.data[i];
+				data[i] -= other[i];
 		
 			return *this;
 		}
-- 
2.43.0


From d190839784f631ef1df4ea6285f6f23656de56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:57 +0000
Subject: [PATCH 029/176] fix: LU decomposition is wrong for complex matrices,
 not triangular, and silent on null pivots

---
 src/algebra/algebra.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index d7de6c5..7980b52 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1412,18 +1412,25 @@ namespace theoretica {
 			using Type = matrix_element_t<Matrix1>;
 
 			// Set the diagonal of L to 1.0
-			for (unsigned int i = 0; i < A.rows(); ++i)
-				L(i, i) = (Type) 1.0;
+			make_identity(L);
+			mat_zeroes(U);
 
 			// Compute L and U
 			for(unsigned int i = 0; i < A.rows(); ++i) {
 				
-				for(unsigned int j = 0; j < A.rows(); ++j) {
+				for(unsigned int j = i; j < A.rows(); ++j) {
 
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
+				}
+
+				// The decomposition does not exist with a null pivot
+				if (i + 1 < A.rows() && U(i, i) == (Type) 0.0) {
+					TH_MATH_ERROR("algebra::decompose_lu", i, IMPOSSIBLE_OPERATION);
+					mat_error(L); mat_error(U);
+					return;
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1431,7 +1438,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1456,14 +1463,22 @@ namespace theoretica {
 				return A;
 			}
 
+			using Type = matrix_element_t<Matrix>;
+
 			for(unsigned int j = 0; j < A.cols(); ++j) {
 
+				// The decomposition does not exist with a null pivot
+				if (j + 1 < A.rows() && A(j, j) == (Type) 0.0) {
+					TH_MATH_ERROR("algebra::decompose_lu_inplace", j, IMPOSSIBLE_OPERATION);
+					return mat_error(A);
+				}
+
 				for(unsigned int i = j + 1; i < A.rows(); ++i) {
 
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From cfc603fd7b3577c49d3f0bcb846c3a0b79efb167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:57 +0000
Subject: [PATCH 030/176] fix: in-place Cholesky decomposition is silent on
 matrices that are not positive definite

---
 src/algebra/algebra.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7980b52..b89314e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1566,6 +1566,12 @@ namespace theoretica {
 			// Compute the Cholesky decomposition in-place
 			for (unsigned int k = 0; k < A.rows(); ++k) {
 
+				// Additional check to ensure that the matrix is positive definite
+				if (A(k, k) < MACH_EPSILON) {
+					TH_MATH_ERROR("algebra::decompose_cholesky_inplace", A(k, k), INVALID_ARGUMENT);
+					return mat_error(A);
+				}
+
 				A(k, k) = sqrt(A(k, k));
 
 				for (unsigned int i = k + 1; i < A.rows(); ++i)
-- 
2.43.0


From 3c322bd7c3c6ed3bb1360344934b76d2014c37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:57 +0000
Subject: [PATCH 031/176] fix: back substitution reads past the end of the
 matrix and of the vector

---
 src/algebra/algebra.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index b89314e..812b1e8 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1659,17 +1659,12 @@ namespace theoretica {
 				return vec_error(x);
 			}
 
-			if (U.rows() == 1) {
-				x[0] = b[0] / U(0, 0);
-				return x;
-			}
-
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-				Type sum = U(i, i + 1) * x[i + 1];
+				Type sum = Type(0.0);
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From abf58fdd49e3f8187709cf4a6f93be2adcc7a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 032/176] fix: solve_triangular is silent on matrices that are
 not triangular

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 812b1e8..d9c1a36 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1695,6 +1695,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("algebra::solve_triangular", false, INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From b29711b7fa28e5fc6f9c0e48e273db23cc7d60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 033/176] fix: solving from a singular decomposition is silent

---
 src/algebra/algebra.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index d9c1a36..0ca9ee1 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1747,6 +1747,11 @@ namespace theoretica {
 				for (unsigned int j = i + 1; j < A.rows(); ++j)
 					sum += A(i, j) * b[j];
 
+				if (A(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_lu_inplace", i, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
 				b[i] = (b[i] - sum) / A(i, i);
 			}
 		
@@ -1867,6 +1872,13 @@ namespace theoretica {
 
 			using Type = matrix_element_t<Matrix>;
 
+			for (unsigned int i = 0; i < L.rows(); ++i) {
+				if (L(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_cholesky", i, DIV_BY_ZERO);
+					return vec_error(x);
+				}
+			}
+
 			// Forward elimination for L
 			for (unsigned int i = 0; i < L.rows(); ++i) {
 				
-- 
2.43.0


From fc61c2c302f208c90c1424ae2439c7f6786bdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 034/176] fix: solving a linear system fails silently on null
 pivots

---
 src/algebra/algebra.h | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 0ca9ee1..0110aae 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1769,8 +1769,43 @@ namespace theoretica {
 		template<typename Matrix, typename Vector>
 		inline Vector solve_lu(Matrix A, Vector b) {
 
-			// Apply in-place LU decomposition
-			decompose_lu_inplace(A);
+			using Type = matrix_element_t<Matrix>;
+
+			if (!is_square(A) || A.rows() != b.size()) {
+				TH_MATH_ERROR("algebra::solve_lu", A.rows(), INVALID_ARGUMENT);
+				return vec_error(b);
+			}
+
+			// Sort the rows so that all pivots are the biggest possible
+			for (unsigned int j = 0; j < A.cols(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i)
+					if (abs(A(i, j)) > abs(A(pivot, j)))
+						pivot = i;
+
+				if (A(pivot, j) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_lu", j, IMPOSSIBLE_OPERATION);
+					return vec_error(b);
+				}
+
+				if (pivot != j) {
+					mat_swap_rows(A, pivot, j);
+					const auto tmp = b[j];
+					b[j] = b[pivot];
+					b[pivot] = tmp;
+				}
+
+				// In-place LU decomposition step
+				for (unsigned int i = j + 1; i < A.rows(); ++i) {
+
+					A(i, j) /= A(j, j);
+
+					for (unsigned int k = j + 1; k < A.rows(); ++k)
+						A(i, k) -= A(i, j) * A(j, k);
+				}
+			}
 
 			// Apply forward and backward substitution
 			return solve_lu_inplace(A, b);
-- 
2.43.0


From 4c1df3589ce9497930e4220717c2c6c2e350519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 035/176] fix: determinant is NaN when a pivot is null

---
 src/algebra/algebra.h | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 0110aae..51300ed 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2106,12 +2106,47 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto det(const Matrix& A) {
 
+			using Type = matrix_element_t<Matrix>;
+
 			Matrix LU = A;
-			decompose_lu_inplace(LU);
+
+			if (!is_square(A)) {
+				TH_MATH_ERROR("algebra::det", A.rows(), INVALID_ARGUMENT);
+				mat_error(LU);
+				return diagonal_product(LU);
+			}
+
+			// Each exchange of rows changes the sign of the determinant
+			Type sign = Type(1.0);
+
+			for (unsigned int j = 0; j < LU.cols(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i)
+					if (abs(LU(i, j)) > abs(LU(pivot, j)))
+						pivot = i;
+
+				if (LU(pivot, j) == Type(0.0))
+					return Type(0.0);
+
+				if (pivot != j) {
+					mat_swap_rows(LU, pivot, j);
+					sign = sign * Type(-1.0);
+				}
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i) {
+
+					const Type coeff = LU(i, j) / LU(j, j);
+
+					for (unsigned int k = j; k < LU.cols(); ++k)
+						LU(i, k) -= coeff * LU(j, k);
+				}
+			}
 
 			// The determinant of a triangular matrix
 			// is the product of the elements on its diagonal
-			return diagonal_product(LU);
+			return Type(sign * diagonal_product(LU));
 		}
 
 
-- 
2.43.0


From abf67f10417835da56f0e807b2d2522c180e509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:58 +0000
Subject: [PATCH 036/176] fix: inverse loses all precision when a pivot is
 small

---
 src/algebra/algebra.h | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 51300ed..a926d89 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1995,36 +1995,23 @@ namespace theoretica {
 			// Iterate on all columns
 			for (unsigned int i = 0; i < src.rows(); ++i) {
 				
-				// Make sure the element on the diagonal
-				// is non-zero by adding the first non-zero row
-				if(A(i, i) == (Type) 0) {
-
-					bool flag = false;
-
-					// Iterate on all rows
-					for (unsigned int j = i + 1; j < src.rows(); ++j) {
-
-						// Add the j-th row to the i-th row
-						// if Aji is non-zero
-						if(A(j, i) != (Type) 0) {
-
-							for (unsigned int k = 0; k < src.rows(); ++k) {
-								A(i, k) += A(j, k);
-								dest(i, k) += dest(j, k);
-							}
-
-							flag = true;
-							break;
-						}
-					}
-
-					if(!flag) {
-						TH_MATH_ERROR("algebra::inverse", flag, IMPOSSIBLE_OPERATION);
-						mat_error(dest);
-						return dest;
-					}
+				// Make sure the element on the diagonal is non-zero
+				// by exchanging rows to have the biggest pivot
+				unsigned int pivot = i;
+
+				for (unsigned int j = i + 1; j < src.rows(); ++j)
+					if(abs(A(j, i)) > abs(A(pivot, i)))
+						pivot = j;
+
+				if(A(pivot, i) == (Type) 0) {
+					TH_MATH_ERROR("algebra::inverse", pivot, IMPOSSIBLE_OPERATION);
+					mat_error(dest);
+					return dest;
 				}
 
+				mat_swap_rows(A, i, pivot);
+				mat_swap_rows(dest, i, pivot);
+
 				auto inv_pivot = ((Type) 1.0) / A(i, i);
 
 				// Use the current row to make all other
-- 
2.43.0


From 266875f5d82880fb931446dd8f74d95522427a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:37 +0000
Subject: [PATCH 037/176] fix: inverse answers singular matrices with equal
 rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index a926d89..3963e4d 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2024,7 +2024,7 @@ namespace theoretica {
 
 					// Multiplication coefficient for
 					// the elision of Ajk
-					const auto coeff = A(j, i) * inv_pivot;
+					const auto coeff = A(j, i) / A(i, i);
 					
 					for (unsigned int k = 0; k < src.rows(); ++k) {
 						A(j, k) -= coeff * A(i, k);
-- 
2.43.0


From dc1c646ecc336501e7eadb659699983c27aec15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 038/176] fix: rotation_3d is not a rotation (wrong sign, axis
 not normalized)

---
 src/algebra/transform.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..77948bd 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -188,15 +188,24 @@ namespace theoretica {
 			const real s = sin(theta);
 			const real c = cos(theta);
 
-			const real Rx = (real) axis[0];
-			const real Ry = (real) axis[1];
-			const real Rz = (real) axis[2];
+			const real axis_norm = sqrt((real) (
+				axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]));
+
+			if(axis_norm == 0) {
+				TH_MATH_ERROR("algebra::rotation_3d", axis_norm, DIV_BY_ZERO);
+				mat_error(m);
+				return m;
+			}
+
+			const real Rx = (real) axis[0] / axis_norm;
+			const real Ry = (real) axis[1] / axis_norm;
+			const real Rz = (real) axis[2] / axis_norm;
 
 			const real cm1 = (1 - c);
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From 040f4ba094f176ff332cf63479514c69828ba503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 039/176] fix: rotations around the y and z axes write out of
 bounds of 3x3 matrices

---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 77948bd..628359d 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -295,7 +295,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -338,7 +337,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From 78a95a773b8a3a4b7eb6d29be85b28ce1e5783f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 040/176] fix: the perspective matrix is transposed

---
 src/algebra/transform.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 628359d..a096524 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -386,12 +386,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 * near / (right - left);
-			m(2, 0)  = (right + left) / (right - left);
+			m(0, 2)  = (right + left) / (right - left);
 			m(1, 1)  = 2 * near / (top - bottom);
-			m(2, 1)  = (top + bottom) / (top - bottom);
+			m(1, 2)  = (top + bottom) / (top - bottom);
 			m(2, 2) = -(far + near) / (far - near);
-			m(3, 2) = -(2 * far * near) / (far - near);
-			m(2, 3) = -1;
+			m(2, 3) = -(2 * far * near) / (far - near);
+			m(3, 2) = -1;
 			m(3, 3) = 0;
 
 			return m;
-- 
2.43.0


From ba0ba56531826fabc3637dea5814f79145170c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 041/176] fix: the orthographic matrix is transposed and maps
 every point to infinity

---
 src/algebra/transform.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index a096524..ec77251 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -454,11 +454,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 / (right - left);
-			m(3, 0)  = -(right + left) / (right - left);
+			m(0, 3)  = -(right + left) / (right - left);
 			m(1, 1)  = 2 / (top - bottom);
-			m(3, 1)  = -(top + bottom) / (top - bottom);
+			m(1, 3)  = -(top + bottom) / (top - bottom);
 			m(2, 2) = -2 / (far - near);
-			m(3, 2) = -(far + near) / (far - near);
+			m(2, 3) = -(far + near) / (far - near);
+			m(3, 3) = 1;
 
 			return m;
 		}
-- 
2.43.0


From 95245faf77890663b475a7ed7d9b942c8149aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 042/176] fix: perspective_fov drops the size of dynamic
 matrices

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index ec77251..7a0fe5a 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -424,7 +424,7 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(-width, width, -height, height, near, far, rows, cols);
 		}
 
 
-- 
2.43.0


From d704c32c649c3321a53794c9f96aa6fa38049022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 043/176] fix: look_at reads the axes out of bounds

---
 src/algebra/transform.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 7a0fe5a..94f4f47 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -497,19 +497,19 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
 			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
 
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
 			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
 
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
 			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
 
 			m(3, 0) = 0;
-- 
2.43.0


From c861f5e035d7ce506b19c2ce8067cda836dd77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 044/176] fix: symplectic accepts fixed-size matrices of odd
 size

---
 src/algebra/transform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 94f4f47..3724415 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -529,8 +529,8 @@ namespace theoretica {
 			if(rows && cols)
 				m.resize(rows, cols);
 
-			if(rows != cols || (rows % 2 != 0)) {
-				TH_MATH_ERROR("algebra::symplectic", rows, INVALID_ARGUMENT);
+			if(m.rows() != m.cols() || (m.rows() % 2 != 0)) {
+				TH_MATH_ERROR("algebra::symplectic", m.rows(), INVALID_ARGUMENT);
 				mat_error(m);
 				return m;
 			}
-- 
2.43.0


From ec7122714c2c5ce8a7e4d1901f71da4549fc7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:26 +0000
Subject: [PATCH 045/176] fix: hermitian_distance conjugates only one of the
 vectors

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 3c7be56..96b4d44 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -207,7 +207,7 @@ namespace theoretica {
 			complex<T> sum = 0;
 
 			for (size_t i = 0; i < v1.size(); ++i) {
-				const complex<T> diff = v1[i] - conjugate(v2[i]);
+				const complex<T> diff = v1[i] - v2[i];
 				sum += diff * diff.conjugate();
 			}
 
-- 
2.43.0


From 70dd7d70efdcf510a8a7ab21828c6bea9e02f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:26 +0000
Subject: [PATCH 046/176] fix: canberra_distance is NaN when both vectors have
 a null element

---
 src/algebra/distance.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 96b4d44..0988b38 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -312,8 +312,14 @@ namespace theoretica {
 
 			real sum = 0;
 
-			for (size_t i = 0; i < v1.size(); ++i)
-				sum += abs(v1[i] - v2[i]) / (abs(v1[i]) + abs(v2[i]));
+			for (size_t i = 0; i < v1.size(); ++i) {
+
+				// Pairs of null elements do not contribute
+				const real scale = abs(v1[i]) + abs(v2[i]);
+
+				if(scale != 0)
+					sum += abs(v1[i] - v2[i]) / scale;
+			}
 
 			return sum;
 		}
-- 
2.43.0


From 3d0f595458dd911a61fb848f674e2ce2965fc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:26 +0000
Subject: [PATCH 047/176] fix: cosine_distance returns the cosine similarity

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 0988b38..9d568c5 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -348,7 +348,7 @@ namespace theoretica {
 				sum_sqr_y += square(v2[i]);
 			}
 
-			return product / sqrt(sum_sqr_x * sum_sqr_y);
+			return 1.0 - product / sqrt(sum_sqr_x * sum_sqr_y);
 		}
 
 
-- 
2.43.0


From 88b59d6d9304a4d5a097db1cfd8f344959b5736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:26 +0000
Subject: [PATCH 048/176] fix: complex square root of negative real and of
 small numbers

---
 src/complex/complex_analysis.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..1ea9f6b 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -108,12 +108,16 @@ namespace theoretica {
 	template<typename T>
 	inline complex<T> sqrt(complex<T> z) {
 
-		if(abs(z.a) < MACH_EPSILON && abs(z.b) < MACH_EPSILON)
+		if(z.a == 0 && z.b == 0)
 			return complex<T>(0);
 
-		return complex<T>(
-			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+		// The component without cancellation
+		const T w = INVSQR2 * sqrt(z.norm() + abs(z.a));
+
+		if(z.a >= 0)
+			return complex<T>(w, z.b / (2 * w));
+
+		return complex<T>(abs(z.b) / (2 * w), z.b < 0 ? -w : w);
 	}
 
 
-- 
2.43.0


From c571583318fc9b755a2463fbb20c9000493abada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:24 +0000
Subject: [PATCH 049/176] fix: complex::operator/= by a scalar does not compile

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..c3ba180 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From 2d85696f47ac3ebe01fe9b0c866e4c0423ddbd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:24 +0000
Subject: [PATCH 050/176] fix: argument of complex numbers of small modulus

---
 src/complex/complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index c3ba180..bbc92c4 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -173,12 +173,12 @@ namespace theoretica {
 			inline Type arg() const {
 
 				// Real number case
-				if(abs(b) < MACH_EPSILON) {
+				if(b == 0) {
 					return (a >= 0) ? ((Type) 0) : ((Type) PI);
 				}
 
 				// Pure imaginary number case
-				if(abs(a) < MACH_EPSILON) {
+				if(a == 0) {
 					return (b >= 0) ? ((Type) PI / 2.0) : ((Type) -PI / 2.0);
 				}
 
-- 
2.43.0


From 5d5b5baa5a3f494203ce0819ce075cbbdec5133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 051/176] fix: quat::invert does not compile

---
 src/complex/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..1453990 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
-- 
2.43.0


From d04938451fa12bf96cf82d1e9b63dccccd1563ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 052/176] fix: quat::rotation uses a missing constructor and
 does not compile

---
 src/complex/quat.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 1453990..2ca0024 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -323,9 +323,18 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
+
+				if(axis.size() != 3) {
+					TH_MATH_ERROR("quat::rotation", axis.size(), INVALID_ARGUMENT);
+					return quat((Type) nan());
+				}
+
+				const Vector n_axis = algebra::normalize(axis);
+				const Type s = sin(rad / 2.0);
+
 				return quat(
 					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
+					n_axis.get(0) * s, n_axis.get(1) * s, n_axis.get(2) * s
 				);
 			}
 
-- 
2.43.0


From cd717cbd0b7700d6c238c523a15b6b8c1215bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 053/176] fix: phasor::inverse returns a real number

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..f4f4406 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
 				if(modulus < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor(nan(), nan());
 				}
 
 				return phasor(
-- 
2.43.0


From ce0c295c36564cff2fdb156f6614683dfe98e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 054/176] fix: difference of phasors of equal phase has a
 negative modulus

---
 src/complex/phasor.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index f4f4406..653fad8 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -181,8 +181,14 @@ namespace theoretica {
 			/// in algebraic form.
 			inline phasor operator-(const phasor& other) const {
 
-				if(abs(phase - other.phase) < MACH_EPSILON)
+				// The modulus of the difference must not be negative
+				if(abs(phase - other.phase) < MACH_EPSILON) {
+
+					if(modulus < other.modulus)
+						return phasor(other.modulus - modulus, phase + PI);
+
 					return phasor(modulus - other.modulus, phase);
+				}
 
 				return phasor(to_complex() - other.to_complex());
 			}
@@ -248,12 +254,7 @@ namespace theoretica {
 			/// Subtract a phasor from this one
 			inline phasor& operator-=(const phasor& other) {
 
-				if(phase == other.phase)
-					modulus -= other.modulus;
-				else
-					*this = phasor(to_complex() - other.to_complex());
-
-				return *this;
+				return (*this = operator-(other));
 			}
 
 
-- 
2.43.0


From 510e72a645e75568f465363ab77b6d51670b64fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 055/176] fix: polynomial::find_order finds the highest null
 coefficient

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..e981d13 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) > MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From d248bdb21d146368d5dc67f4f54d7a12d472a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 056/176] fix: polynomial::trim reads out of bounds on null
 polynomials

---
 src/polynomial/polynomial.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index e981d13..afb1343 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,12 +106,8 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) > MACH_EPSILON)
-						break;
-
+				while (coeff.size() && !(abs(coeff.back()) > MACH_EPSILON))
 					coeff.pop_back();
-				}
 			}
 
 
-- 
2.43.0


From cb4001f9618432b7f91267ad7306c160d0f31ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 057/176] fix: polynomial::operator- reads out of bounds when
 the subtrahend is longer

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index afb1343..f530e76 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -147,7 +147,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From 353f4c9d0ab6c9cc21b557235631d03976f7d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 058/176] fix: product of empty polynomials

---
 src/polynomial/polynomial.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index f530e76..8056d9e 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -165,6 +165,10 @@ namespace theoretica {
 			inline polynomial operator*(const polynomial& p) const {
 
 				polynomial r = polynomial();
+
+				if(!size() || !p.size())
+					return r;
+
 				r.coeff.resize(this->size() + p.size() - 1);
 
 				for (unsigned int i = 0; i < size(); ++i) {
@@ -288,15 +292,7 @@ namespace theoretica {
 			/// Multiply two polynomials
 			inline polynomial& operator*=(const polynomial& p) {
 
-				polynomial r = polynomial();
-				r.coeff.resize(this->size() + p.size() - 1, Type(0));
-
-				for (unsigned int i = 0; i < coeff.size(); ++i)
-					for (unsigned int j = 0; j < p.size(); ++j)
-						r[i + j] += coeff[i] * p.get(j);
-
-				*this = r;
-				return *this;
+				return (*this = operator*(p));
 			}
 
 
-- 
2.43.0


From 8e49e4a024d140f585b407574380589deac44ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 059/176] fix: polynomial division fails for every dividend

---
 src/polynomial/polynomial.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 8056d9e..ad279c8 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -187,8 +187,8 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
+				if(!d.size() || (d_order == 0 && d.get(0) == 0)) {
+					TH_MATH_ERROR("polynomial::operator/", d_order, DIV_BY_ZERO);
 					return polynomial(nan());
 				}
 
@@ -197,16 +197,16 @@ namespace theoretica {
 
 				// Quotient
 				polynomial q = polynomial();
-				unsigned int i = 0;
 
-				while(i < this_order) {
+				// The degree of the remainder decreases at each step
+				for (unsigned int i = 0; i <= this_order; ++i) {
 
 					// Compute only once the degree of the polynomial
 					const unsigned int r_order = r.find_order();
 
 					// Stop execution if the division is complete
 					// (when the remainder is 0 or has lower degree)
-					if((r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
+					if(!r.size() || (r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
 						break;
 
 					// Simple division between highest degree terms
@@ -219,14 +219,9 @@ namespace theoretica {
 					q += t;
 					r -= t * d;
 
-					i++;
-				}
-
-				// The algorithm has stopped iterating after a number
-				// of the dividend's degree counts
-				if(i == this_order) {
-					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
-					return polynomial(nan());
+					// The highest degree term is cancelled
+					// regardless of rounding
+					r[r_order] = Type(0);
 				}
 
 				return q;
-- 
2.43.0


From c367ac4c8069246f634e0b149d0b7ef1fc2b9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 060/176] fix: division of a polynomial by zero returns a valid
 result

---
 src/polynomial/polynomial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index ad279c8..6d61a16 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -245,6 +245,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/", a, DIV_BY_ZERO);
+					return polynomial(nan());
 				}
 
 				polynomial r = polynomial(*this);
@@ -312,7 +313,7 @@ namespace theoretica {
 
 				if(abs(a) < MACH_EPSILON) {
 					TH_MATH_ERROR("polynomial::operator/=", a, DIV_BY_ZERO);
-					return *this;
+					return (*this = polynomial(nan()));
 				}
 
 				for (unsigned int i = 0; i < coeff.size(); ++i)
-- 
2.43.0


From 17b3456588651d1af4eadcb26ede5ef97eb888ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 061/176] fix: equal non-null polynomials compare different

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 6d61a16..2690545 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -333,12 +333,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From 2978fced74b4447ca0279af28f3b412e462dfdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:24 +0000
Subject: [PATCH 062/176] fix: roots of a polynomial does not compile

---
 src/optimization/roots.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..2fab701 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -702,7 +702,11 @@ namespace theoretica {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+
+		if(!p.size()) {
+			TH_MATH_ERROR("roots", n, INVALID_ARGUMENT);
+			return {Field(nan())};
+		}
 
 		// Absolute value of the highest coefficient
 		Field a_hi = abs(p.coeff[n]);
@@ -713,7 +717,7 @@ namespace theoretica {
 			a_sum += abs(p.coeff[i]);
 
 		// The roots are bounded in absolute value by the maximum
-		const Field M = max(a_hi, a_sum);
+		const Field M = max(Field(1), a_sum / a_hi);
 
 		// Back track from the bounds to the first sign inversion ?
 		
-- 
2.43.0


From ba2267a89c0b834927848bd107b9f83f663011eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:59 +0000
Subject: [PATCH 063/176] fix: ambiguous product in polynomial::quadratic_roots

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 2690545..d7e0043 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -399,7 +399,7 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = -sgn(p) * (abs(p) / 2.0
+					z1 = -Type(sgn(p)) * (abs(p) / 2.0
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
-- 
2.43.0


From 4540dd838123aaf22e51846c172a301706cdea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:30 +0000
Subject: [PATCH 064/176] fix: polynomial division by a divisor with negligible
 leading coefficients

---
 src/polynomial/polynomial.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index d7e0043..5da4a4e 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -217,7 +217,9 @@ namespace theoretica {
 					// Add monomial to quotient and subtract the
 					// monomial times the dividend from the remainder
 					q += t;
-					r -= t * d;
+
+					for (unsigned int j = 0; j < d_order; ++j)
+						r[r_order - d_order + j] -= t.get(r_order - d_order) * d.get(j);
 
 					// The highest degree term is cancelled
 					// regardless of rounding
-- 
2.43.0


From 642eac100c2c4e706959335311a90c022073a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 065/176] fix: legendre_roots repeats some roots and misses
 others

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..d74af27 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -260,7 +260,7 @@ namespace theoretica {
 
 		for (unsigned int i = 1; i <= n; ++i) {
 			roots.push_back(
-				root_newton(P, deriv(P), (2.0 / (n + 1)) * i - 1.0)
+				root_newton(P, deriv(P), -cos(PI * (i - 0.25) / (n + 0.5)))
 			);
 		}
 
-- 
2.43.0


From a77fdf5c26a1d9df20f6f6771fb44c90bb3abbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 066/176] fix: associated Legendre functions of negative odd
 order

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index d74af27..7ea1de3 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1.0, m) * fact(l + m) / fact(l - m);
 		}
 
 		for (int i = 0; i < m; ++i)
-- 
2.43.0


From 5056e99ab535f3b18f5c1219f6c541acee8aae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 067/176] fix: assoc_legendre_polynomial_even returns a valid
 result for odd orders

---
 src/polynomial/orthogonal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 7ea1de3..377547f 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -114,8 +114,10 @@ namespace theoretica {
 	// Associated Legendre polynomial
 	inline polynomial<real> assoc_legendre_polynomial_even(unsigned int l, int m) {
 
-		if(m % 2 != 0)
+		if(m % 2 != 0) {
 			TH_MATH_ERROR("assoc_legendre_polynomial_even", m, IMPOSSIBLE_OPERATION);
+			return polynomial<real>(nan());
+		}
 
 		real K = 1;
 
-- 
2.43.0


From 27ed12647b99247fd0ed7da0cd13c0d0fde601ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:58 +0000
Subject: [PATCH 068/176] fix: overflow of the Hermite normalization and
 weights

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 377547f..162fce5 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -207,7 +207,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(2.0, n) * fact(n) * SQRTPI);
 	}
 
 
@@ -325,7 +325,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(2.0, n - 1) * fact(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From da3d00e8ea215850a96ae1c22549c541af72e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 069/176] fix: fft does not report sizes which are not powers
 of 2 and reports empty vectors

---
 src/signal/fft.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 5d6eefc..3275545 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -33,11 +33,16 @@ namespace theoretica {
 			const unsigned int N = x.size();
 			const real sign = (inverse ? 1.0 : -1.0);
 
+			// The transform of no data
+			if (N == 0)
+				return k;
+
 			// Compute the logarithm of the size
 			const unsigned int log2N = ilog2(N);
 
 			// Enforce power of 2 vector size
 			if (N != (unsigned int) (1 << log2N)) {
+				TH_MATH_ERROR("fft", N, INVALID_ARGUMENT);
 				return algebra::vec_error(k);
 			}
 
-- 
2.43.0


From a1e234633ead76fe2510f2c9cb79f3c418690d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 070/176] fix: ifft ignores its return type

---
 src/signal/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 3275545..7ea002f 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -91,7 +91,7 @@ namespace theoretica {
 		/// @return The data in the time domain
 		template<typename ReturnVector = cvec, typename InputVector = cvec>
 		inline ReturnVector ifft(const InputVector& k) {
-			return fft(k, true);
+			return fft<ReturnVector, InputVector>(k, true);
 		}
 	}
 }
-- 
2.43.0


From 468548767a463d98b8be388f2122840ca4ccf40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:31 +0000
Subject: [PATCH 071/176] fix: ilog2 converts infinity to an integer

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 321a472..683ef6b 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -565,7 +565,7 @@ namespace theoretica {
 
 		if(x == 0) {
 			TH_MATH_ERROR("ilog2", x, OUT_OF_RANGE);
-			return -inf();
+			return 0;
 		}
 
 		UnsignedIntType bit = 0;
-- 
2.43.0


From 5391f00b5304ef599a420468a6402724f7860192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 072/176] fix: compound product and quotient of dual numbers
 use the updated real part

---
 src/autodiff/dual.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..a237db8 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,8 +215,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
+				*this = operator*(other);
 				return *this;
 			}
 
@@ -231,8 +230,7 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
-				b = (b * other.a - a * other.b) / square(other.a);
+				*this = operator/(other);
 				return *this;
 			}
 
-- 
2.43.0


From 8e178a66fef0d909589b26c3fa43cd0bc21d5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 073/176] fix: division of dual numbers by zero is not reported

---
 src/autodiff/dual.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index a237db8..ba93d4f 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -171,12 +171,24 @@ namespace theoretica {
 
 			/// Dual division
 			inline dual operator/(const dual& other) const {
+
+				if(other.a == 0) {
+					TH_MATH_ERROR("dual::operator/", other.a, DIV_BY_ZERO);
+					return dual(nan(), nan());
+				}
+
 				return dual(a / other.a,
 					(b * other.a - a * other.b) / square(other.a));
 			}
 
 			/// Divide a dual number by a real number
 			inline dual operator/(real r) const {
+
+				if(r == 0) {
+					TH_MATH_ERROR("dual::operator/", r, DIV_BY_ZERO);
+					return dual(nan(), nan());
+				}
+
 				return dual(a / r, b / r);
 			}
 
-- 
2.43.0


From 1d2f934568d12dd8e7402c75cc0af4ba94f751d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 074/176] fix: second derivative of the inverse of a dual2
 number

---
 src/autodiff/dual2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..c429f4e 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,7 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a), 2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From a024368862dde8b750018617a576bbb6bc05f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 075/176] fix: compound product of dual2 numbers uses the
 updated parts

---
 src/autodiff/dual2.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index c429f4e..39fb1aa 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -207,9 +207,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
+				*this = operator*(other);
 				return *this;
 			}
 
-- 
2.43.0


From 83af819ac711b1231b031da458cbee35e8c65788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 076/176] fix: second derivative of powers of dual2 numbers

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..f451584 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -44,7 +44,7 @@ namespace theoretica {
 
 		real f = pow_n_2_x * square(x.Re());
 		real df = pow_n_2_x * x.Re() * n * x.Dual1();
-		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
+		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + pow_n_2_x * x.Re() * n * x.Dual2();
 
 		return dual2(f, df, d2f);
 	}
-- 
2.43.0


From 045cdfd416185d79eb42b30e9db7cdfc800cde5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 077/176] fix: second derivative of the cotangent of dual2
 numbers

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index f451584..91ca3b1 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -129,7 +129,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
-- 
2.43.0


From 3596d1d5166ab89921a27db6ee4a708d0541b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 078/176] fix: second derivative of the absolute value of dual2
 numbers

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 91ca3b1..1201935 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From 6b360428504d43808167f0e8474ce9a3d11bf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 079/176] fix: second derivative of the arctangent of dual2
 numbers

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 1201935..fa79902 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -244,7 +244,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From 04d0a94ea30e11d2003226df3a965f1b4f9c7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 080/176] fix: derivative of the hyperbolic tangent of dual
 numbers

---
 src/autodiff/dual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..f63506d 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,7 +218,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
-- 
2.43.0


From 67a37262c02e5235a639f20a3e04497a6f4ae5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 081/176] fix: derivative of the hyperbolic tangent of
 multidual numbers

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..75a4159 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -213,7 +213,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
 	}
 
 }
-- 
2.43.0


From 09a83efb56f96992052f143fbd43b360f5287637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 082/176] fix: compound product and quotient of multidual
 numbers use the updated real part

---
 src/autodiff/multidual.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..ff8dfc6 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -205,8 +205,7 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
-				v = (other.v * a) + (v * other.a);
+				*this = operator*(other);
 				return *this;
 			}
 
@@ -221,8 +220,7 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
-				v = (v * other.a - other.v * a) / (other.a * other.a);
+				*this = operator/(other);
 				return *this;
 			}
 
-- 
2.43.0


From 8146aa4a03a1557efa58215c3315e4afa4bad247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 083/176] fix: division of multidual numbers checks the
 dividend for zero and fails to build its result

---
 src/autodiff/multidual.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index ff8dfc6..9870a14 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 				if(a == 0) {
 					TH_MATH_ERROR("multidual::inverse", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(N, nan()));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(1.0 / a, v * (-1 / (a * a)));
@@ -156,9 +156,9 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(a / other.a,
@@ -167,6 +167,12 @@ namespace theoretica {
 
 			/// Divide a multidual number by a real number
 			inline multidual operator/(real r) const {
+
+				if(r == 0) {
+					TH_MATH_ERROR("multidual::operator/", r, DIV_BY_ZERO);
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
+				}
+
 				return multidual(a / r, v / r);
 			}
 
@@ -230,7 +236,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(v.size(), nan());
 					return *this;
 				}
 
-- 
2.43.0


From 8caddf5d29be7ce21ab9769494ff4bb2816fe20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 084/176] fix: invalid results of functions of run-time size
 multidual numbers convert NaN to a size

---
 src/autodiff/multidual_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 75a4159..dbde638 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -51,7 +51,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(multidual)", sqrt_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(sqrt_x, x.Dual() * 0.5 / sqrt_x);
@@ -80,7 +80,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(multidual)", cos_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(tan(x.Re()), x.Dual() / square(cos_x));
@@ -95,7 +95,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(multidual)", sin_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(cot(x.Re()), x.Dual() * (-1 / square(sin_x)));
@@ -116,7 +116,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(ln(x.Re()), x.Dual() / x.Re());
@@ -129,7 +129,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log2(x.Re()), x.Dual() * LOG2E / x.Re());
@@ -142,7 +142,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log10(x.Re()), x.Dual() * LOG10E / x.Re());
@@ -162,7 +162,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(asin(x.Re()), x.Dual() / sqrt(1 - square(x.Re())));
@@ -175,7 +175,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(acos(x.Re()), x.Dual() * (-1 / sqrt(1 - square(x.Re()))));
-- 
2.43.0


From e7cbe65f74b464034a2ec70ce08fbc7fa9e6c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 085/176] fix: arcsine and arccosine of dual numbers do not
 report -1

---
 src/autodiff/dual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index f63506d..2a52c81 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -157,7 +157,7 @@ namespace theoretica {
 	/// Compute the arcsine of a dual number
 	inline dual asin(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
@@ -169,7 +169,7 @@ namespace theoretica {
 	/// Compute the arccosine of a dual number
 	inline dual acos(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
-- 
2.43.0


From d1a027f311add05cf701c0a2063011d709e2d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 086/176] fix: arcsine and arccosine of dual2 numbers do not
 report -1

---
 src/autodiff/dual2_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index fa79902..ff3f7eb 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -203,7 +203,7 @@ namespace theoretica {
 	/// Compute the arcsine of a second order dual number
 	inline dual2 asin(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan());
 		}
@@ -222,7 +222,7 @@ namespace theoretica {
 	/// Compute the arcosine of a second order dual number
 	inline dual2 acos(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan());
 		}
-- 
2.43.0


From 4b213f86e291c06b27b65ab60303233d0402e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 087/176] fix: arcsine and arccosine of multidual numbers do
 not report -1

---
 src/autodiff/multidual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index dbde638..e88cf92 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -160,7 +160,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> asin(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
@@ -173,7 +173,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> acos(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
-- 
2.43.0


From 50a1c7bf0ae1d002b663d58dd95840073ae66d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 088/176] fix: invalid dual2 results have a null second
 derivative

---
 src/autodiff/dual2_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index ff3f7eb..b1d28e8 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -57,7 +57,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(dual2)", sqrt_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -104,7 +104,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(dual2)", cos_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -123,7 +123,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(dual2)", sin_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -152,7 +152,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(ln(x.Re()),
@@ -167,7 +167,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -183,7 +183,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -205,7 +205,7 @@ namespace theoretica {
 
 		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
@@ -224,7 +224,7 @@ namespace theoretica {
 
 		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
-- 
2.43.0


From f0ded79f4da21751dc640fec1a07b2927a456167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:36 +0000
Subject: [PATCH 089/176] fix: tanh and coth of large arguments are NaN

---
 src/core/real_analysis.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 683ef6b..bfd99d5 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1154,6 +1154,12 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic tangent of x
 	inline real tanh(real x) {
+
+		// The result is 1 to machine precision, while
+		// the exponentials would overflow
+		if(abs(x) > 20)
+			return sgn(x);
+
 		real exp_x = exp(x);
 		return (exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x);
 	}
@@ -1163,6 +1169,12 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic cotangent of x
 	inline real coth(real x) {
+
+		// The result is 1 to machine precision, while
+		// the exponentials would overflow
+		if(abs(x) > 20)
+			return sgn(x);
+
 		real exp_x = exp(x);
 		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
 	}
-- 
2.43.0


From a6b1222ce8b0bf6d69626dd316d5c54385d59ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:36 +0000
Subject: [PATCH 090/176] fix: tanh of large dual numbers is NaN

---
 src/autodiff/dual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 2a52c81..d75c1a7 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -217,7 +217,7 @@ namespace theoretica {
 
 		const real exp_x = exp(x.Re());
 		return dual(
-			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
+			tanh(x.Re()),
 			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
-- 
2.43.0


From 1874ac9b4bb0e5bfebc11fddf02c126ae028966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:36 +0000
Subject: [PATCH 091/176] fix: tanh of large multidual numbers is NaN

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index e88cf92..8fdac13 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -212,7 +212,7 @@ namespace theoretica {
 
 		real exp_x = exp(x.Re());
 		return multidual<N>(
-			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
+			tanh(x.Re()),
 			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
 	}
 
-- 
2.43.0


From e8ac9d42443a849c1533ae091eb2257b1ce80d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:36 +0000
Subject: [PATCH 092/176] fix: null power of dual numbers at zero is NaN

---
 src/autodiff/dual_functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index d75c1a7..e172b53 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,10 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		// The power is constant, including at zero
+		if(n == 0)
+			return dual(1.0, 0.0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
-- 
2.43.0


From 5e9738f7b09f00ca34217feea95209898d65eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:36 +0000
Subject: [PATCH 093/176] fix: null power of multidual numbers at zero is NaN

---
 src/autodiff/multidual_functions.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 8fdac13..5f85e3c 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,11 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+
+		// The power is constant, including at zero
+		if(n == 0)
+			return multidual<N>(1.0, x.Dual() * 0.0);
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
 	}
-- 
2.43.0


From c28040d8d8fa37c52c7ab21493856c228437c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:36 +0000
Subject: [PATCH 094/176] fix: null and first power of dual2 numbers at zero
 are NaN

---
 src/autodiff/dual2_functions.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index b1d28e8..f1e3bab 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,6 +40,13 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
+		// The second derivative is null, including at zero
+		if(n == 0)
+			return dual2(1.0, 0.0, 0.0);
+
+		if(n == 1)
+			return x;
+
 		const real pow_n_2_x = pow(x.Re(), n - 2);
 
 		real f = pow_n_2_x * square(x.Re());
-- 
2.43.0


From e23fbda80bd979e7eee828d9667bc6adada6f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 095/176] fix: LOG10E, LN2 and LN10 are given to 12 digits only

---
 src/core/constants.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 4aa399a..b60e8e4 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -243,13 +243,13 @@ namespace theoretica {
 	constexpr real LOG210 = 3.32192809488736218170856773213;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903;
+	constexpr real LOG10E = 0.43429448190325182765112891892;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.69314718056;
+	constexpr real LN2 = 0.69314718055994530941723212146;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299;
+	constexpr real LN10 = 2.30258509299404568401799145468;
 
 	/// The scalar conversion factor from degrees to radians
 	constexpr real DEG2RAD = 0.017453292519943295474371680598;
-- 
2.43.0


From 77dcea6aefd7d43aac7d52e9201b1cae00b58cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:01 +0000
Subject: [PATCH 096/176] fix: pow of multidual numbers does not compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 5f85e3c..cef3bea 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -44,7 +44,7 @@ namespace theoretica {
 			return multidual<N>(1.0, x.Dual() * 0.0);
 
 		real pow_n_1_x = pow(x.Re(), n - 1);
-		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
+		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
 
 
-- 
2.43.0


From f9af802d05424f2876d93ab32c3f11c7dfc30528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:23 +0000
Subject: [PATCH 097/176] fix: abs of multidual numbers does not compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index cef3bea..13f0183 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -157,7 +157,7 @@ namespace theoretica {
 	/// Compute the absolute value of a multidual number
 	template<unsigned int N>
 	multidual<N> abs(multidual<N> x) {
-		return multidual<N>(abs(x.Re()), x.Dual() * sgn(x.Re()));
+		return multidual<N>(abs(x.Re()), x.Dual() * real(sgn(x.Re())));
 	}
 
 
-- 
2.43.0


From 40d72e1c47508b21bcf7b09f302bb9273e9cb6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:43 +0000
Subject: [PATCH 098/176] fix: exp of NaN and of huge arguments converts them
 to an integer

---
 src/core/real_analysis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index bfd99d5..0b6a454 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -751,6 +751,11 @@ namespace theoretica {
 	/// is approximated using Taylor series on [0, 0.25]
 	inline real exp(real x) {
 
+		// Larger arguments overflow and
+		// do not fit an integer exponent
+		if(!(x <= 710))
+			return is_nan(x) ? x : inf();
+
 		// Domain reduction to [0, +inf]
 		if(x < 0)
 			return 1.0 / exp(-x);
-- 
2.43.0


From 4478aea565ff026e92a7001cd89198b6fb3c5b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 099/176] fix: multidual extraction covers run-time sized
 vectors

---
 src/autodiff/multidual.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 9870a14..6e7e825 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -280,7 +280,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -296,8 +296,8 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
+				for (unsigned int i = 0; i < v.size(); ++i)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 				
 				return J;
@@ -312,9 +312,9 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
+				for (unsigned int i = 0; i < v.size(); ++i) {
 					
-					for (unsigned int j = 0; j < N; ++j)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 					
 					x[i] = v.get(i).Re();
-- 
2.43.0


From cfc65f52544b748a97ff274fe28a61f8842e260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 100/176] fix: multidual constants of run-time size take part
 in arithmetic

---
 src/autodiff/multidual.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 6e7e825..c44e8a5 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -113,6 +113,13 @@ namespace theoretica {
 
 			/// Sum two multidual numbers
 			inline multidual operator+(const multidual& other) const {
+
+				// A number without a dual part is a constant
+				if(other.size() == 0)
+					return operator+(other.a);
+				if(size() == 0)
+					return other + a;
+
 				return multidual(a + other.a, v + other.v);
 			}
 
@@ -131,6 +138,12 @@ namespace theoretica {
 
 			/// Subtract two multidual numbers
 			inline multidual operator-(const multidual& other) const {
+
+				if(other.size() == 0)
+					return operator-(other.a);
+				if(size() == 0)
+					return a - other;
+
 				return multidual(a - other.a, v - other.v);
 			}
 
@@ -143,6 +156,12 @@ namespace theoretica {
 
 			/// Multiply two multidual numbers
 			inline multidual operator*(const multidual& other) const {
+
+				if(other.size() == 0)
+					return operator*(other.a);
+				if(size() == 0)
+					return other * a;
+
 				return multidual(a * other.a, other.v * a + v * other.a);
 			}
 
@@ -156,6 +175,11 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
+				if(other.size() == 0)
+					return operator/(other.a);
+				if(size() == 0)
+					return a / other;
+
 				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
 					return multidual(nan(), vec<real, N>(v.size(), nan()));
@@ -180,8 +204,7 @@ namespace theoretica {
 			/// Sum a real number to this one
 			inline multidual& operator+=(const multidual& other) {
 
-				a += other.a;
-				v += other.v;
+				*this = operator+(other);
 				return *this;
 			}
 
@@ -196,8 +219,7 @@ namespace theoretica {
 			/// Subtract a real number from this one
 			inline multidual& operator-=(const multidual& other) {
 
-				a -= other.a;
-				v -= other.v;
+				*this = operator-(other);
 				return *this;
 			}
 
-- 
2.43.0


From fb836abfad355075cad09098ccfef579c2bf06fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 101/176] fix: curl error path builds a vector of the right
 size

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..f243d1a 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -288,7 +288,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
-- 
2.43.0


From 93b5266bfa6fae6c930c3f793fe3cfbb2e8fbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 102/176] fix: gradient of a constant function has the size of
 its argument

---
 src/autodiff/autodiff.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index f243d1a..6e1c7af 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -150,7 +150,13 @@ namespace theoretica {
 			// Extract the return type of the function
 			using R = return_type_t<Function>;
 
-			return f(make_autodiff_arg<R>(x)).Dual();
+			auto grad = f(make_autodiff_arg<R>(x)).Dual();
+
+			// The result of a constant function has no dual part
+			if(grad.size() == 0)
+				grad.resize(x.size());
+
+			return grad;
 		}
 
 
-- 
2.43.0


From ec0c76168782e04b729648ee2433260851efbb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 103/176] fix: sturm_liouville compiles

---
 src/autodiff/autodiff.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 6e1c7af..e7dcdbe 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -11,6 +11,7 @@
 #include "multidual.h"
 #include "../algebra/vec.h"
 #include "../algebra/mat.h"
+#include "../algebra/transform.h"
 #include "../core/error.h"
 #include "../core/core_traits.h"
 #include "./autodiff_types.h"
@@ -442,9 +443,10 @@ namespace theoretica {
 			multidual<N>(*H)(vec<multidual<N>, N>),
 			vec<real, N> eta) {
 
-			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+			return gradient(f, eta) * (
+				algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size())
+				* gradient(H, eta)
+			);
 		}
 
 	}
-- 
2.43.0


From 55b0493b9a54f2ed505dc467cae54bb48fff68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:03 +0000
Subject: [PATCH 104/176] fix: directional_derivative compiles

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index e7dcdbe..fef9f30 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -348,7 +348,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * algebra::dot(v, gradient(f, x));
 		}
 
 
-- 
2.43.0


From 3f73a6386ec3987cb8be713c6a42f01ffe9653dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 105/176] fix: deriv_ridders refuses a zero degree

---
 src/calculus/deriv.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/deriv.h b/src/calculus/deriv.h
index c0d0983..563d002 100644
--- a/src/calculus/deriv.h
+++ b/src/calculus/deriv.h
@@ -137,6 +137,11 @@ namespace theoretica {
 	>
 	inline real deriv_ridders(RealFunction f, real x, real h = 0.01, unsigned int degree = 3) {
 
+		if(degree == 0) {
+			TH_MATH_ERROR("deriv_ridders", degree, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real A[degree][degree];
 
 		for (unsigned int i = 0; i < degree; ++i) {
-- 
2.43.0


From e207b6381b35715b20ad2287977d2af9830555f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 106/176] fix: integral_simpson with an odd number of steps

---
 src/calculus/integral.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..1b18603 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -131,6 +131,10 @@ namespace theoretica {
 			return nan();
 		}
 		
+		// Simpson's rule needs an even number of steps
+		if(steps % 2 != 0)
+			steps++;
+
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
 
-- 
2.43.0


From 78a2919d25bf5b04f304a39657f307cbdd4ad0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 107/176] fix: integral_romberg refuses zero iterations

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 1b18603..50d7356 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -168,6 +168,11 @@ namespace theoretica {
 		real a, real b,
 		unsigned int iter = 8) {
 
+		if(iter == 0) {
+			TH_MATH_ERROR("integral_romberg", iter, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real T[iter][iter];
 
 		T[0][0] = (f(a) + f(b)) * (b - a) / 2.0;
-- 
2.43.0


From b3da3f047fa0206f306a0e539c5539959e6fe9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:57 +0000
Subject: [PATCH 108/176] fix: integral_inf_riemann accepts convergence at the
 last step

---
 src/calculus/integral.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 50d7356..33f6bc0 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -523,7 +523,7 @@ namespace theoretica {
 		// Number of steps performed
 		unsigned int i = 0;
 
-		while(abs(delta) > tol && i <= max_iter) {
+		while(abs(delta) > tol && i < max_iter) {
 
 			delta = integral_romberg_tol(f, x_n, x_n + step_sz, tol);
 			sum += delta;
@@ -531,7 +531,7 @@ namespace theoretica {
 			i++;
 		}
 
-		if(i >= max_iter) {
+		if(abs(delta) > tol) {
 			TH_MATH_ERROR("integral_inf_riemann", i, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 0ccb167189db306f262369130d904db782c74ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 109/176] fix: last stage of Kutta's 3/8 rule

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..6816966 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From c96d352f3833feab35cc6f0dae5e47e5a6418568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 110/176] fix: coefficient of the Adams-Bashforth method of 3rd
 order

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 6816966..3c07f9d 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From 030c1137c47bdcb75379353ecc9e17bd5b740710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 111/176] fix: solve_fixstep refuses reversed intervals and
 non-positive steps

---
 src/calculus/ode.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 3c07f9d..18ca473 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -315,8 +315,12 @@ namespace theoretica {
 
 			if (tf < t0) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
-				return err;
+				return ode_solution_t<Vector>(1, x0 * nan(), nan());
+			}
+
+			if (!(stepsize > 0)) {
+				TH_MATH_ERROR("ode::solve_fixstep", stepsize, INVALID_ARGUMENT);
+				return ode_solution_t<Vector>(1, x0 * nan(), nan());
 			}
 
 			const unsigned int steps = floor((tf - t0) / stepsize);
-- 
2.43.0


From 36b60b6e4c3f21aaa211d1b96ae575e875565e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 112/176] fix: solve_fixstep reaches the final time of short
 intervals

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 18ca473..c1f2d32 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -327,7 +327,7 @@ namespace theoretica {
 			unsigned int total_steps = steps;
 			unsigned int i;
 
-			if (abs(t0 + steps * stepsize - tf) > MACH_EPSILON)
+			if (abs(t0 + steps * stepsize - tf) > MACH_EPSILON * max(abs(t0), abs(tf)))
 				total_steps++;
 
 			// Initialize solution structure
-- 
2.43.0


From 5706da7a2e17fec0f0775f419fb79912bbbdf9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 113/176] fix: find_root_intervals compares signs of small
 values

---
 src/optimization/roots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 2fab701..bc3ec01 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -36,7 +36,11 @@ namespace theoretica {
 			const real x1 = a + i * dx;
 			const real x2 = a + (i + 1) * dx;
 
-			if(f(x1) * f(x2) <= 0)
+			const real y1 = f(x1);
+			const real y2 = f(x2);
+
+			// Compare the signs, as the product may underflow
+			if((y1 <= 0 && y2 >= 0) || (y1 >= 0 && y2 <= 0))
 				res.push_back({x1, x2});
 		}
 
-- 
2.43.0


From 8b14b04279ef311825746ad5b558b330e4947ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 114/176] fix: root_bisect compares signs of small values

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index bc3ec01..52b74f0 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -69,7 +69,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		if(f(a) * f(b) >= 0) {
+		if(sgn(f(a)) * sgn(f(b)) >= 0) {
 			TH_MATH_ERROR("root_bisect", f(a) * f(b), INVALID_ARGUMENT);
 			return nan();
 		}
@@ -84,7 +84,7 @@ namespace theoretica {
 
 			x_avg = (x_max + x_min) / 2.0;
 
-			if(f(x_avg) * f(x_min) > 0)
+			if(sgn(f(x_avg)) * sgn(f(x_min)) > 0)
 				x_min = x_avg;
 			else
 				x_max = x_avg;
-- 
2.43.0


From 51b3e51e10f95a8245ba46fd7b7b7d6aab2704c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 115/176] fix: root_bisect returns the midpoint of the last
 bracket

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 52b74f0..213a57e 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -74,7 +74,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		real x_avg = 0.0;
+		real x_avg = (a + b) / 2.0;
 		real x_min = a;
 		real x_max = b;
 
@@ -97,7 +97,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		return x_avg;
+		return (x_max + x_min) / 2.0;
 	}
 
 
-- 
2.43.0


From d96eed5168b288039c2affe7d074767f0f2e4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 116/176] fix: root_itp compares signs of small values

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 213a57e..6b11d13 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -137,7 +137,7 @@ namespace theoretica {
 		real y_a = f(a);
 		real y_b = f(b);
 
-		if(y_a * y_b >= 0) {
+		if(sgn(y_a) * sgn(y_b) >= 0) {
 			TH_MATH_ERROR("root_itp", y_a * y_b, INVALID_ARGUMENT);
 			return nan();
 		}
-- 
2.43.0


From 89b67f0f653e34b124a7468dd094b9beb41e8c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 117/176] fix: root_newton of complex functions compiles

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 6b11d13..979b50b 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -306,10 +306,10 @@ namespace theoretica {
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
-		while(f_z * f_z.conjugate() > tol * tol && iter <= max_iter) {
+		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
-			z = z - (f_z / df(z));
+			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-- 
2.43.0


From 41e79e615cd367dfd7336737dc93dd0c5706e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:17 +0000
Subject: [PATCH 118/176] fix: root_steffensen updates the residual

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 979b50b..5581898 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -430,7 +430,7 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From d90f4c6931425a07a3acfba49354f3cecab1ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:04 +0000
Subject: [PATCH 119/176] fix: open root finders check the residual of the
 point they return

---
 src/optimization/roots.h | 67 ++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 5581898..10d62db 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -229,11 +229,16 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The step may be undefined at an exact root
+			if(f_x == 0)
+				return x;
+
 			x = x - (f_x / Df(x));
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(x)) <= tol)) {
 			TH_MATH_ERROR("root_newton", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -269,11 +274,15 @@ namespace theoretica {
 			// Compute the function and its derivative at the same time
 			s = f(dual(x, 1.0));
 
+			// The step may be undefined at an exact root
+			if(s.Re() == 0)
+				return x;
+
 			x = x - (s.Re() / s.Dual());
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(dual(x, 1.0)).Re()) <= tol)) {
 			TH_MATH_ERROR("root_newton", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -309,11 +318,16 @@ namespace theoretica {
 		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
+
+			// The step may be undefined at an exact root
+			if(f_z.sqr_norm() == 0)
+				return z;
+
 			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(f(z).sqr_norm() <= tol * tol)) {
 			TH_MATH_ERROR("root_newton", z.Re(), NO_ALGO_CONVERGENCE);
 			return complex<Type>(nan(), nan());
 		}
@@ -348,13 +362,18 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The step may be undefined at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * D2f(x));
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(x)) <= tol)) {
 			TH_MATH_ERROR("root_halley", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -391,6 +410,10 @@ namespace theoretica {
 			// second derivatives at the same time.
 			s = f(dual2(x, 1, 0));
 
+			// The step may be undefined at an exact root
+			if(s.Re() == 0)
+				return x;
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real d2f_x = s.Dual2();
@@ -399,7 +422,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(dual2(x, 1.0, 0.0)).Re()) <= tol)) {
 			TH_MATH_ERROR("root_halley", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -431,13 +454,18 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The divided difference is lost to rounding near a root
+			if(abs(f_x) <= tol)
+				return x;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(x)) <= tol)) {
 			TH_MATH_ERROR("root_steffensen", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -477,6 +505,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The step may be undefined at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 
@@ -485,7 +518,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(x)) <= tol)) {
 			TH_MATH_ERROR("root_chebyshev", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -525,6 +558,10 @@ namespace theoretica {
 
 			s = f(dual2(x, 1.0, 0.0));
 
+			// The step may be undefined at an exact root
+			if(s.Re() == 0)
+				return x;
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real u = f_x / df_x;
@@ -533,7 +570,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(dual2(x, 1.0, 0.0)).Re()) <= tol)) {
 			TH_MATH_ERROR("root_chebyshev", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -571,6 +608,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The step may be undefined at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
@@ -580,7 +622,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(x)) <= tol)) {
 			TH_MATH_ERROR("root_ostrowski", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -619,6 +661,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The step may be undefined at an exact root
+			if(f_x == 0)
+				return x;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = Df(x - 2.0 * u / 3.0);
@@ -627,7 +674,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || !(abs(f(x)) <= tol)) {
 			TH_MATH_ERROR("root_jarrat", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 3c7c3217b3860f6445113db81e9a419d39847a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:04 +0000
Subject: [PATCH 120/176] fix: roots at shared extremes are found once and no
 extreme is taken for a root

---
 src/optimization/roots.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 10d62db..c83f543 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -718,15 +718,18 @@ namespace theoretica {
 
 			// Check whether the extremes of the candidate intervals
 			// happen to coincide with the roots
-			if(abs(f(intervals[i][0])) <= MACH_EPSILON) {
+			const bool zero_l = (f(intervals[i][0]) == 0);
+			const bool zero_r = (f(intervals[i][1]) == 0);
+
+			// A shared extreme may have been found already
+			if(zero_l && (res.empty() || res.back() != intervals[i][0]))
 				res.push_back(intervals[i][0]);
-				continue;
-			}
 
-			if(abs(f(intervals[i][1])) <= MACH_EPSILON) {
+			if(zero_r && (res.empty() || res.back() != intervals[i][1]))
 				res.push_back(intervals[i][1]);
+
+			if(zero_l || zero_r)
 				continue;
-			}
 
 			// Approximate the roots using bisection inside each interval
 			res.push_back(
-- 
2.43.0


From 3c7d019cc3a40629d794961e7928703bbe271ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:04 +0000
Subject: [PATCH 121/176] fix: multiroot_newton checks the residual and
 supports run-time sizes

---
 src/optimization/multi_roots.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_roots.h b/src/optimization/multi_roots.h
index 20e55ee..2198c94 100644
--- a/src/optimization/multi_roots.h
+++ b/src/optimization/multi_roots.h
@@ -42,6 +42,7 @@ namespace theoretica {
 
 		// Jacobian matrix
 		mat<real, N, N> J;
+		J.resize(x.size(), x.size());
 
 		while(f_x.sqr_norm() > square(tolerance) && iter <= max_iter) {
 
@@ -56,9 +57,14 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		// Check the residual of the resulting point
+		f_x = multidual<N>::extract_real(
+			f(multidual<N>::make_argument(x))
+		);
+
+		if(iter > max_iter || !(f_x.sqr_norm() <= square(tolerance))) {
 			TH_MATH_ERROR("multi_root_newton", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
-- 
2.43.0


From 4b329127775eb698ebca7f104a1cd691e68add3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 122/176] fix: minimize_bisection returns NaN when it finds no
 minimum

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From c84109d4f0b595212ccb3aaca68396ddd91f92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 123/176] fix: gradient descent compiles

---
 src/optimization/multi_extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..b9031cc 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -47,7 +47,7 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
-- 
2.43.0


From 3d55a8666c101775eb408ff7c8e52a5140fa4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 124/176] fix: multi_maximize_grad ascends the gradient

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b9031cc..b147d2a 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+
+			grad = -autodiff::gradient(f, x);
+			x += gamma * grad;
+			iter++;
+
+		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+
+		if(iter > max_iter) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From e510cc67354a5d4a43e65226531a2b13c47a57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 125/176] fix: gradient methods use the tolerance they are
 given

---
 src/optimization/multi_extrema.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b147d2a..d80e882 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -51,7 +51,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -97,7 +97,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -148,7 +148,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
@@ -199,7 +199,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-- 
2.43.0


From 5233cbdecd9b95d40b03ad9a0decb69980dfb59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 126/176] fix: gradient methods check the gradient of the point
 they return

---
 src/optimization/multi_extrema.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index d80e882..59142a3 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -53,7 +53,10 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		// Check the gradient at the resulting point
+		grad = autodiff::gradient(f, x);
+
+		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
@@ -99,7 +102,10 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		// Check the gradient at the resulting point
+		grad = autodiff::gradient(f, x);
+
+		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
@@ -150,7 +156,10 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		// Check the gradient at the resulting point
+		grad = autodiff::gradient(f, x);
+
+		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
@@ -201,7 +210,10 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		// Check the gradient at the resulting point
+		grad = autodiff::gradient(f, x);
+
+		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
-- 
2.43.0


From de0e3da2bfdd00b135e77872bfbc86bacfb7ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:28 +0000
Subject: [PATCH 127/176] fix: gradient methods report failure for run-time
 sizes

---
 src/optimization/multi_extrema.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 59142a3..c488d50 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -38,7 +38,7 @@ namespace theoretica {
 
 		if(gamma >= 0) {
 			TH_MATH_ERROR("multi_minimize_grad", gamma, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		vec<real, N> x = guess;
@@ -58,7 +58,7 @@ namespace theoretica {
 
 		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -87,7 +87,7 @@ namespace theoretica {
 
 		if(gamma >= 0) {
 			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		vec<real, N> x = guess;
@@ -107,7 +107,7 @@ namespace theoretica {
 
 		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -215,7 +215,7 @@ namespace theoretica {
 
 		if(iter > max_iter || !(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
-- 
2.43.0


From 4d3f17e8c308a0dbc5eaad4e5ec934225ecabe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 128/176] fix: cubic_splines stores the second derivative at
 the last node

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..8c30e74 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -271,7 +271,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -345,7 +345,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From 6226c906b7a4a614e31b7e888086fbffd5261dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 129/176] fix: cubic_splines is smooth at nodes with different
 distances

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 8c30e74..4ca552c 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -285,7 +285,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -359,7 +359,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From 2dfcef358d5e48874c26cc25fc4431a5e75d036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 130/176] fix: bezier does not modify its constant argument

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 4ca552c..48a8d1b 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -187,7 +187,7 @@ namespace theoretica {
 	/// \see quadratic_bezier
 	/// \see cubic_bezier
 	template<unsigned int N>
-	inline vec<real, N> bezier(const std::vector<vec<real, N>>& points, real t) {
+	inline vec<real, N> bezier(std::vector<vec<real, N>> points, real t) {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 49655c6ce425f628501e104f36b265b255b7806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 131/176] fix: invlerp of vectors returns the parameter so that
 remap compiles

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 48a8d1b..c139472 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -36,13 +36,13 @@ namespace theoretica {
 
 	/// Inverse linear interpolation
 	template<unsigned int N>
-	inline vec<real, N> invlerp(
+	inline real invlerp(
 		const vec<real, N>& P1, const vec<real, N>& P2, real value) {
 
 		real t = invlerp(P1.get(0), P2.get(0), value);
 
 		// Check that all computed t_i are the same
-		for (int i = 1; i < N; ++i) {
+		for (unsigned int i = 1; i < N; ++i) {
 
 			real t_new = invlerp(P1.get(i), P2.get(i), value);
 
-- 
2.43.0


From f29f8b50b70852e17b62ce6007ad49d6a43d58de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 132/176] fix: interpolate_grid of order zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..d4b87ea 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = order ? (b - a) / real(order) * real(i) + a : a;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From 0ed9c49100a98041f0e8511e665ae78b84f875e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:13 +0000
Subject: [PATCH 133/176] fix: the running minimum of a histogram starts from
 infinity

---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From 1664685cc10c687a120fcf0500a9c78d88282c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:13 +0000
Subject: [PATCH 134/176] fix: histograms ignore NaN values

---
 src/statistics/histogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..0f12b0f 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,8 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				// Also ignore NaN values
+				if(!(x >= range_min && x <= range_max))
 					return;
 
 				// Update average and TSS using Welford's method
@@ -210,7 +211,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max))
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From ff8a687411cb5211f2a4055162bc36f916cf558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:13 +0000
Subject: [PATCH 135/176] fix: bin index of histograms of any scale

---
 src/statistics/histogram.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 0f12b0f..e4b660f 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -135,13 +135,16 @@ namespace theoretica {
 			/// so care should be taken to use only valid inputs.
 			inline unsigned int index(real x) const {
 
-				if(abs(x - range_max) < MACH_EPSILON)
+				if(x >= range_max)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const size_t i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				// The quotient may round to 1 even if x < range_max
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
-- 
2.43.0


From d038b04300ad0cbc3a8b20b6e138dea976393e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:41 +0000
Subject: [PATCH 136/176] fix: weighted linear fit of datasets with different
 errors compiles

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..cbb4067 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -457,9 +457,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From 8b7d6351130dec1efc346a08bf0cd24a7b24a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 137/176] fix: autocorrelation divides by the total sum of
 squares at every lag

---
 src/statistics/statistics.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 2c2a88c..c5558ac 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -304,19 +304,22 @@ namespace theoretica {
 		template<typename Dataset>
 		inline real autocorrelation(const Dataset& X, unsigned int n = 1) {
 
-			if(X.size() < n) {
+			if(X.size() < n || !X.size()) {
 				TH_MATH_ERROR("autocorrelation", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
 
 			const real mu = mean(X);
 			real num = 0;
-			real den = square(X[0] - mu);
+			real den = 0;
 
-			for (unsigned int i = n; i < X.size(); ++i) {
+			for (unsigned int i = 0; i < X.size(); ++i) {
 
 				const real delta = X[i] - mu;
-				num += delta * (X[i - n] - mu);
+
+				if(i >= n)
+					num += delta * (X[i - n] - mu);
+
 				den += delta * delta;
 			}
 
-- 
2.43.0


From f4f661244019d2d065175c327e355d15b92bef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 138/176] fix: p-values of the chi-squared distribution for all
 degrees of freedom

---
 src/statistics/statistics.h | 82 +++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index c5558ac..81c881d 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -496,60 +496,52 @@ namespace theoretica {
 				return nan();
 			}
 
-			// For ndf >= 260 use the Gaussian approximation
-			// as the coefficients are not stable
-			if(ndf >= 260) {
-				
-				const real new_x = (chi_sqr - ndf) / sqrt(2.0 * ndf);
-
-				// For really low Chi-squared the Gaussian is
-				// below tolerance value for integration
-				if(new_x < 0) {
-
-					if(new_x < -3)
-						return 1 - integral_inf_riemann([=](real x) {
-							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, -new_x, 1E-16, 25);
-
-					return 0.5 + integral_romberg_tol([=](real x) {
-						return exp(-x * x / 2) / SQRTPI / SQRT2;
-					}, new_x, 0, 1E-16);
-				} else {
-
-					if(new_x > 3)
-						return integral_inf_riemann([=](real x) {
-							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, new_x, 1E-16, 25);
-
-					return 0.5 - integral_romberg_tol([=](real x) {
-						return exp(-x * x / 2) / SQRTPI / SQRT2;
-					}, 0, new_x, 1E-16);
+			if(chi_sqr <= 0)
+				return 1;
+
+			// The p-value is the regularized upper incomplete
+			// Gamma function Q(ndf / 2, chi_sqr / 2)
+			const real a = ndf / 2.0;
+			const real x = chi_sqr / 2.0;
+
+			// Compute the coefficient using a stable equivalent formula
+			const real coeff = exp(a * ln(x) - x - special::lngamma(a));
+
+			// Power series of the lower incomplete Gamma function
+			if(x < a + 1) {
+
+				real term = 1.0 / a;
+				real sum = term;
+
+				for (unsigned int i = 1; term > sum * MACH_EPSILON; ++i) {
+					term *= x / (a + i);
+					sum += term;
 				}
+
+				return 1 - coeff * sum;
 			}
 
-			// Compute the coefficient using a stable equivalent formula
-			const real coeff = exp(-special::lngamma(ndf / 2.0) - chi_sqr / 2.0);
+			// Continued fraction of the upper incomplete
+			// Gamma function (modified Lentz's method)
+			real b = x + 1 - a;
+			real d = 1.0 / b;
+			real c = inf();
+			real res = d;
 
-			// Use different methods when Gauss-Laguerre is not numerically stable
-			if((ndf > 70 && chi_sqr < (ndf / 2.0))) {
+			for (unsigned int i = 1; i <= 100000; ++i) {
 
-				// Use equivalent formula around potential singularity
-				real res = integral_romberg_tol([=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2) * exp(-x);
-				}, 0, 1, 1E-12);
+				const real an = -(i * (i - a));
+				b += 2;
+				d = 1.0 / (an * d + b);
+				c = b + an / c;
 
-				res += integral_inf_riemann([=](real x) {
-					return exp((ndf - 2) / 2.0 * ln(x + chi_sqr / 2) - x);
-				}, 1, ndf / 2, 1E-12, 25);
+				res *= d * c;
 
-				return coeff * res;
+				if(abs(d * c - 1) < MACH_EPSILON)
+					break;
 			}
 
-			// Approximate the integral using Gauss-Laguerre quadrature
-			return coeff * integral_gauss(
-				[=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2);
-			}, tables::laguerre_roots_16, tables::laguerre_weights_16, 16);
+			return coeff * res;
 		}
 	  
 
-- 
2.43.0


From 32b66282b2347e0431a47ff8014cf8812a58673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 139/176] fix: least squares lines through the origin

---
 src/statistics/regression.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index cbb4067..dd5bae3 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -218,17 +218,17 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_x = sum(X);
-			const real sum_y = sum(Y);
+			const real sum_xx = sum_squares(X);
+			const real sum_xy = product_sum(X, Y);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
+			if(abs(sum_xx) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_xx, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
-			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
+			B = sum_xy / sum_xx;
+			sigma_B = sqrt(square(sigma_Y) / sum_xx);
 		}
 
 		/// Compute the Weight Least Squares regression
@@ -244,17 +244,17 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_xw = product_sum(X, W);
-			const real sum_yw = product_sum(Y, W);
+			const real sum_xxw = product_sum(X, X, W);
+			const real sum_xyw = product_sum(X, Y, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
+			if(abs(sum_xxw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = sum_xyw / sum_xxw;
+			sigma_B = sqrt(1.0 / sum_xxw);
 		}
 
 
-- 
2.43.0


From f742f2dda079810cb4f272f47cffa9fbceef0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 140/176] fix: chi-squared of linear fits with constant errors

---
 src/statistics/regression.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index dd5bae3..b52d5a4 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -427,8 +427,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = square(err / sigma_Y) * ndf;
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -507,8 +507,9 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = square(err) * ndf
+					/ (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From ff714b1f4e80f995d2daddc8a8225f98bd5de0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:52 +0000
Subject: [PATCH 141/176] fix: linear models start with all fields invalid

---
 src/statistics/regression.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index b52d5a4..de1a4f3 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -286,37 +286,37 @@ namespace theoretica {
 		struct linear_model {
 
 			/// Intercept
-			real A;
+			real A = nan();
 
 			/// Estimated error on A
-			real sigma_A;
+			real sigma_A = nan();
 
 			/// Slope
-			real B;
+			real B = nan();
 
 			/// Estimated error on B
-			real sigma_B;
+			real sigma_B = nan();
 
 			/// Covariance matrix of the coefficients A and B
-			mat2 covar_mat;
+			mat2 covar_mat = mat2(nan());
 
 			/// Total error on linearization
-			real err;
+			real err = nan();
 
 			/// Chi-squared on linearization
-			real chi_squared;
+			real chi_squared = nan();
 
 			/// Number of degrees of freedom
 			/// of the linear regression
-			unsigned int ndf;
+			unsigned int ndf = 0;
 
 			/// The p-value associated to the
 			/// computed Chi-squared
-			real p_value;
+			real p_value = nan();
 
 
 			/// Default constructor
-			linear_model() : A(nan()), B(nan()) {}
+			linear_model() {}
 
 
 			/// Construct a linear model from data
-- 
2.43.0


From 7b9278ac3f9bc79d51e36db701f86476eaa9533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 142/176] fix: linear fit with errors on both axes when the
 errors on X are small

---
 src/statistics/regression.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index de1a4f3..8318c15 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -195,9 +195,23 @@ namespace theoretica {
 			const real delta_xy = (product_sum(X, Y) / X.size()) - mean_x * mean_y;
 			const real Delta = square(sigma_X) * delta_y - square(sigma_Y) * delta_x;
 
-			slope = (Delta + sqrt(
-					square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy)
-				)) / (2 * square(sigma_X) * delta_xy);
+			const real root = sqrt(
+				square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy));
+
+			// Use the form which does not suffer from cancellation
+			const real num = (Delta < 0)
+				? 2 * square(sigma_Y) * delta_xy : Delta + root;
+			const real den = (Delta < 0)
+				? root - Delta : 2 * square(sigma_X) * delta_xy;
+
+			if(den == 0) {
+				TH_MATH_ERROR("wls_linear", den, DIV_BY_ZERO);
+				intercept = nan();
+				slope = nan();
+				return;
+			}
+
+			slope = num / den;
 
 			intercept = mean_y - slope * mean_x;
 
-- 
2.43.0


From 064989b9edcb3c8eb7c1779b3d2871a1f0ea9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:43 +0000
Subject: [PATCH 143/176] fix: weighted linear fits report null errors

---
 src/statistics/regression.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 8318c15..67d9196 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -469,6 +469,15 @@ namespace theoretica {
 					return;
 				}
 
+				for (unsigned int i = 0; i < sigma.size(); ++i) {
+
+					if(abs(sigma[i]) <= MACH_EPSILON) {
+						TH_MATH_ERROR("linear_model::fit", sigma[i], DIV_BY_ZERO);
+						A = nan(); B = nan();
+						return;
+					}
+				}
+
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
 				apply([](real x) {
-- 
2.43.0


From 815f09f8c9e2c98ba0be725f5ebb1abe6d7f8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 144/176] fix: mass functions are zero outside of their support

---
 src/statistics/distributions.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 1121a78..0a806aa 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -80,6 +80,9 @@ namespace theoretica {
 		/// Bernoulli distribution
 		inline real bernoulli(unsigned int k, real p) {
 
+			if(k > 1)
+				return 0;
+
 			return pow(p, k) * pow(1 - p, 1 - k);
 		}
 
@@ -92,6 +95,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(k < 0)
+				return 0;
+
 			return bernoulli(static_cast<unsigned int>(k), theta[0]);
 
 		}
@@ -112,6 +118,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(k < 0)
+				return 0;
+
 			return poisson(static_cast<unsigned int>(k), theta[0]);
 		}
 
@@ -119,6 +128,9 @@ namespace theoretica {
 		/// Binomial distribution function
 		inline real binomial(unsigned int nu, unsigned int n, real p) {
 
+			if(nu > n)
+				return 0;
+
 			return binomial_coeff(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
@@ -132,6 +144,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(nu < 0)
+				return 0;
+
 			return binomial(static_cast<unsigned int>(nu),
 				static_cast<unsigned int>(theta[0]), theta[1]);
 		}
@@ -149,6 +164,13 @@ namespace theoretica {
 				return nan();
 			}
 
+			unsigned int sum_x = 0;
+			for (unsigned int i = 0; i < k; ++i)
+				sum_x += x[i];
+
+			if(sum_x != n)
+				return 0;
+
 			real res = fact(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-- 
2.43.0


From 064004e26a0ce2c4eee5c0dcd9d21765c34b3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 145/176] fix: densities are zero outside of their support

---
 src/statistics/distributions.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 0a806aa..c9002e0 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -239,6 +239,9 @@ namespace theoretica {
 		/// alpha (shape) and beta (rate)
 		inline real gamma(real x, real alpha, real beta) {
 
+			if(x < 0)
+				return 0;
+
 			return powf(beta, alpha) * powf(x, alpha - 1)
 				* exp(-beta * x) / special::gamma(alpha);
 		}
@@ -260,6 +263,9 @@ namespace theoretica {
 		/// alpha (shape) and beta (shape)
 		inline real beta(real x, real alpha, real beta) {
 
+			if(x < 0 || x > 1)
+				return 0;
+
 			return powf(x, alpha - 1) * powf(1 - x, beta - 1)
 				/ special::beta(alpha, beta);
 		}
@@ -302,6 +308,9 @@ namespace theoretica {
 		/// Log-normal distribution
 		inline real log_normal(real x, real mu, real sigma) {
 
+			if(x <= 0)
+				return 0;
+
 			return 1.0 / (2.50662827463 * sigma * x) *
 				exp(-square(ln(x) - mu) / (2 * square(sigma)));
 		}
@@ -409,6 +418,9 @@ namespace theoretica {
 		/// Maxwell-Boltzmann distribution
 		inline real maxwell(real x, real a) {
 
+			if(x < 0)
+				return 0;
+
 			return (SQRT2 / SQRTPI) * square(x) * exp(-square(x / a) / 2.0) / cube(a);
 		}
 
@@ -479,6 +491,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(x < 0)
+				return 0;
+
 			return pow(lambda, k) * pow(x, k - 1)
 					* exp(-lambda * x) / fact(k - 1);
 		}
-- 
2.43.0


From 3e791f6d5dcccc8db853bd7aeddc2245d5f723b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 146/176] fix: mass functions whose factorials exceed 64 bits

---
 src/statistics/distributions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index c9002e0..cc31027 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -106,7 +106,7 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / (real) fact(k);
+			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
 
@@ -131,7 +131,7 @@ namespace theoretica {
 			if(nu > n)
 				return 0;
 
-			return binomial_coeff(n, nu) *
+			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
 
@@ -171,10 +171,10 @@ namespace theoretica {
 			if(sum_x != n)
 				return 0;
 
-			real res = fact(n);
+			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-				res *= pow(p[i], x[i]) / fact(x[i]);
+				res *= pow(p[i], x[i]) / fact<real>(x[i]);
 
 			return res;
 		}
@@ -495,7 +495,7 @@ namespace theoretica {
 				return 0;
 
 			return pow(lambda, k) * pow(x, k - 1)
-					* exp(-lambda * x) / fact(k - 1);
+					* exp(-lambda * x) / fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From a98430bfa019f619a2ff55d71e3783a3e00b0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:38 +0000
Subject: [PATCH 147/176] fix: Gamma function of integers and half-integers
 beyond 64 bits

---
 src/core/special.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 352576e..3bd36eb 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -27,7 +27,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return fact(k - 1);
+			return fact<real>(k - 1);
 		}
 
 
@@ -46,8 +46,8 @@ namespace theoretica {
 			}
 
 			return (k % 2 == 0)
-		        ? fact<uint64_t>(k / 2 - 1)
-		        : double_fact<uint64_t>(k - 2) * SQRTPI / (1 << ((k - 1) / 2));
+		        ? fact<real>(k / 2 - 1)
+		        : double_fact<real>(k - 2) * SQRTPI / pow(2.0, (k - 1) / 2);
 		}
 
 
-- 
2.43.0


From 8cae4bf6e7ff25790e69aa14474ca3caa4fa7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:38 +0000
Subject: [PATCH 148/176] fix: real powers of zero

---
 src/core/real_analysis.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 0b6a454..05c4dda 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -813,6 +813,17 @@ namespace theoretica {
 	/// Approximated as \f$e^{a ln(|x|) sgn(x)}\f$
 	inline real powf(real x, real a) {
 
+		// Powers of zero
+		if(x == 0) {
+
+			if(a < 0) {
+				TH_MATH_ERROR("powf", x, DIV_BY_ZERO);
+				return inf();
+			}
+
+			return (a == 0) ? 1 : 0;
+		}
+
 		if(a < 0)
 			return 1.0 / exp(-a * ln(abs(x)) * sgn(x));
 
-- 
2.43.0


From cb1602058df09579ddb5f9607f2c4911ec1c2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:39 +0000
Subject: [PATCH 149/176] fix: report division of a vector by zero

---
 src/algebra/vec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index b2d82d1..f1268c9 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -203,6 +203,12 @@ namespace theoretica {
 		inline vec<Type, N> operator/(Type scalar) const {
 			vec<Type, N> result;
 
+			if(scalar == Type(0)) {
+				TH_MATH_ERROR("vec::operator/", 0, DIV_BY_ZERO);
+				algebra::vec_error(result);
+				return result;
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
 				result.data[i] = data[i] / scalar;
 
@@ -614,6 +620,12 @@ namespace theoretica {
 			vec<Type> result;
 			result.resize(size());
 
+			if(scalar == Type(0)) {
+				TH_MATH_ERROR("vec::operator/", 0, DIV_BY_ZERO);
+				algebra::vec_error(result);
+				return result;
+			}
+
 			for (unsigned int i = 0; i < size(); ++i)
 				result.data[i] = data[i] / scalar;
 
-- 
2.43.0


From e0a9a71a06d7c190f6452b27665100624dd327f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 150/176] fix: math_exception can be caught as std::exception

---
 src/core/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..501fb20 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -86,7 +86,7 @@ namespace theoretica {
 
 #if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
 
-	class math_exception : std::exception {
+	class math_exception : public std::exception {
 
 	private:
 		MATH_ERRCODE err;
-- 
2.43.0


From 81e6666363979554cdfdb80d704a92e65d55d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 151/176] fix: describe out of range exceptions

---
 src/core/error.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/error.h b/src/core/error.h
index 501fb20..732a1e2 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -112,6 +112,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: return "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					return "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: return "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					return "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: return "The algorithm did not converge"; break;
@@ -166,6 +167,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: err_str << "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					err_str << "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: err_str << "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					err_str << "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: err_str << "The algorithm did not converge"; break;
-- 
2.43.0


From f361cbe5536d12db33034c4b0cf8a6d6f8542324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 152/176] fix: quotient_sum of empty vectors reads past their
 end

---
 src/core/dataset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..89865b7 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -97,7 +97,7 @@ namespace theoretica {
 	template<typename Vector>
 	inline auto quotient_sum(const Vector& X, const Vector& Y) {
 
-		if(X.size() != Y.size()) {
+		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
 			return nan();
 		}
-- 
2.43.0


From 0687bc533e692446470d820839f81f3de1175313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 153/176] fix: report the poles of lngamma

---
 src/core/special.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/special.h b/src/core/special.h
index 3bd36eb..144a436 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -58,6 +58,12 @@ namespace theoretica {
 		/// @result The logarithm of the Gamma function of x
 		inline real lngamma(real x) {
 
+			// Check for poles
+			if(x <= 0 && fract(x) == 0) {
+				TH_MATH_ERROR("lngamma", x, OUT_OF_DOMAIN);
+				return inf();
+			}
+
 			// Reflection formula for negative values
 			if(x < 0) {
 
-- 
2.43.0


From 6f733fea0d151be8ef9646d0ca9a4fb02e7cbf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 154/176] fix: gamma of positive numbers below the machine
 epsilon

---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index 144a436..f40d5dc 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -109,7 +109,7 @@ namespace theoretica {
 			const real x_fract = fract(x);
 
 			// Check if x is a pole or an integer number
-			if(x_fract < MACH_EPSILON) {
+			if(x_fract == 0) {
 
 				if(x <= 0) {
 					TH_MATH_ERROR("gamma", x, OUT_OF_DOMAIN);
-- 
2.43.0


From 052713425475c9a30c4e13c66696ff7d3553683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:29 +0000
Subject: [PATCH 155/176] fix: mapping between vectors of different size
 constructs a vector of NaN elements

---
 src/core/dataset.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 89865b7..037e214 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -267,7 +267,10 @@ namespace theoretica {
 
 		if(src.size() != dest.size()) {
 			TH_MATH_ERROR("th::map", dest.size(), INVALID_ARGUMENT);
-			dest = Vector2(nan());
+
+			for (unsigned int i = 0; i < dest.size(); i++)
+				dest[i] = vector_element_t<Vector2>(nan());
+
 			return dest;
 		}
 
-- 
2.43.0


From cd6600f7f9996583db683a0847f871a7415cedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:29 +0000
Subject: [PATCH 156/176] fix: sum of vectors of complex elements does not
 compile and reads past the end of empty ones

---
 src/core/dataset.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 037e214..050449e 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -214,7 +214,7 @@ namespace theoretica {
 	/// @param X The vector of values to sum
 	template <
 		typename Vector,
-		std::enable_if_t<has_real_elements<Vector>::value> = true
+		std::enable_if_t<has_real_elements<Vector>::value, bool> = true
 	>
 	inline auto sum(const Vector& X) {
 		return sum_pairwise(X);
@@ -224,14 +224,16 @@ namespace theoretica {
 	/// Compute the sum of a set of values.
 	///
 	/// @param X The vector of values to sum
-	template<typename Vector>
-	inline auto sum(const Vector& X) {
+	template <
+		typename Vector,
+		std::enable_if_t<!has_real_elements<Vector>::value, bool> = true
+	>
+	inline vector_element_t<Vector> sum(const Vector& X) {
 
-		// Use pairwise sum to reduce floating point errors.
-		if TH_CONSTIF (has_real_elements<Vector>())
-			return sum_pairwise(X);
+		if(!X.size())
+			return vector_element_t<Vector>();
 
-		auto res = X[0];
+		vector_element_t<Vector> res = X[0];
 		for(unsigned int i = 1; i < X.size(); i++)
 			res += X[i];
 
-- 
2.43.0


From 8c80d6f658d77db54276ca91c5f74bde62d7e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 157/176] fix: logarithms of large numbers without x86
 instructions do not terminate

---
 src/core/real_analysis.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 05c4dda..04c82f0 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -456,10 +456,24 @@ namespace theoretica {
 		return fyl2x(x, 1.0);
 #else
 
+		if(is_inf(x))
+			return x;
+
+		// The inverse of smaller numbers would overflow
+		if (x < 1E-300)
+			return log2(x * 18446744073709551616.0) - 64;
+
 		// Domain reduction to [1, +inf)
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
+		// Domain reduction to [1, 2^32)
+		unsigned int e = 0;
+		while(x >= 4294967296.0) {
+			x /= 4294967296.0;
+			e += 32;
+		}
+
 		// Compute the biggest power of 2 so that x <= 2^i
 		unsigned int i = 0;
 		while(x > (uint64_t(1) << i))
@@ -467,6 +481,7 @@ namespace theoretica {
 
 		// Domain reduction to [1, 2]
 		x /= (uint64_t(1) << i);
+		i += e;
 
 		// Use the Taylor expansion of the logarithm
 		// ln(1 + x) = \sum_k^n (-1)^(k+1) x^k / k
-- 
2.43.0


From c88527b5216b2ef2928086bfdedab9c7b6c814c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 158/176] fix: arccosine of negative zero

---
 src/core/real_analysis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 04c82f0..e621806 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1125,6 +1125,9 @@ namespace theoretica {
 			return nan();
 		}
 
+		if(x == 0)
+			return PI2;
+
 		if(x < 0)
 			return atan(sqrt(1 - x * x) / x) + PI;
 		else
-- 
2.43.0


From a15e3511e54e6260abc5f315dd446d1d7825180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 159/176] fix: inverse hyperbolic sine and cosine of large
 arguments

---
 src/core/real_analysis.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e621806..a1296e4 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1216,6 +1216,15 @@ namespace theoretica {
 
 	/// Compute the inverse hyperbolic sine
 	inline real asinh(real x) {
+
+		// asinh(x) is odd
+		if(x < 0)
+			return -asinh(-x);
+
+		// Avoid overflow of the square
+		if(x > 1E+08)
+			return ln(x) + LN2;
+
 		return ln(x + sqrt(square(x) + 1));
 	}
 
@@ -1228,6 +1237,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Avoid overflow of the square
+		if(x > 1E+08)
+			return ln(x) + LN2;
+
 		return ln(x + sqrt(square(x) - 1));
 	}
 
-- 
2.43.0


From 7f464994716e3992107e7835dcb463d5f746ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 160/176] fix: report the pole of the hyperbolic cotangent

---
 src/core/real_analysis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index a1296e4..3bb0ed8 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1209,6 +1209,11 @@ namespace theoretica {
 		if(abs(x) > 20)
 			return sgn(x);
 
+		if(x == 0) {
+			TH_MATH_ERROR("coth", x, DIV_BY_ZERO);
+			return nan();
+		}
+
 		real exp_x = exp(x);
 		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
 	}
-- 
2.43.0


From d932b01659d88577cf6bcb3cbc8ce0f3ddac189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:46 +0000
Subject: [PATCH 161/176] fix: fractional part of numbers which do not fit an
 int

---
 src/core/real_analysis.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 3bb0ed8..9404dcd 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -300,7 +300,15 @@ namespace theoretica {
 	/// e.g. fract(2.5) = 0.5
 	/// e.g. fract(-0.2) = 0.2
 	inline real fract(real x) {
-		return abs(x - floor(x));
+
+		// Larger numbers are integers
+		if(!(abs(x) < 4503599627370496.0))
+			return x - x;
+
+		// Truncate towards zero
+		const int64_t i = int64_t(x);
+
+		return abs(x - ((x < i) ? i - 1 : i));
 	}
 
 
-- 
2.43.0


From 8980e0e940fa95b62c54094a4f6a60b19d32e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:53 +0000
Subject: [PATCH 162/176] fix: trigonometric functions of large angles

---
 src/core/real_analysis.h | 46 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 9404dcd..54046f0 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -923,6 +923,31 @@ namespace theoretica {
 	}
 
 
+	/// Reduce an angle to [-TAU, TAU] by subtracting
+	/// multiples of TAU, without loss of precision
+	/// @param x An angle in **radians**
+	/// @return The remainder of x, with the same sign
+	inline real reduce_angle(real x) {
+
+		if(is_inf(x))
+			return nan();
+
+		if(x < 0)
+			return -reduce_angle(-x);
+
+		real m = TAU;
+
+		while(m <= x / 2.0)
+			m *= 2.0;
+
+		for (; m >= TAU; m /= 2.0)
+			if(x >= m)
+				x -= m;
+
+		return x;
+	}
+
+
 	/// Compute the sine of a real number
 	/// @param x An angle in **radians**
 	/// @return The sine of x
@@ -933,6 +958,10 @@ namespace theoretica {
 
 #ifdef THEORETICA_X86
 
+		// The instruction only reduces smaller angles
+		if(abs(x) >= 9223372036854775808.0)
+			x = reduce_angle(x);
+
 	#ifdef MSVC_ASM
 		__asm {
 			fld x
@@ -948,7 +977,7 @@ namespace theoretica {
 
 		// Clamp x between -2PI and 2PI
 		if(abs(x) >= TAU)
-			x -= floor(x / TAU) * TAU;
+			x = reduce_angle(x);
 
 		// Domain reduction to [-PI, PI]
 		if(x > PI)
@@ -981,6 +1010,10 @@ namespace theoretica {
 
 #ifdef THEORETICA_X86
 
+		// The instruction only reduces smaller angles
+		if(abs(x) >= 9223372036854775808.0)
+			x = reduce_angle(x);
+
 		#ifdef MSVC_ASM
 		__asm {
 			fld x
@@ -1008,6 +1041,10 @@ namespace theoretica {
 
 #if defined(THEORETICA_X86) && !defined(MSVC_ASM)
 
+		// The instruction only reduces smaller angles
+		if(abs(x) >= 9223372036854775808.0)
+			x = reduce_angle(x);
+
 		real s, c;
 
 		asm ("fsincos" : "=t"(c), "=u"(s) : "0"(x));
@@ -1025,6 +1062,7 @@ namespace theoretica {
 			return -tan(-x);
 
 		// Domain reduction to [0, PI]
+		x = reduce_angle(x);
 		x -= floor(x / PI) * PI;
 
 		// Domain reduction to [0, PI / 4]
@@ -1057,7 +1095,11 @@ namespace theoretica {
 		real s, c;
 
 #if defined(THEORETICA_X86) && !defined(MSVC_ASM)
-		
+
+		// The instruction only reduces smaller angles
+		if(abs(x) >= 9223372036854775808.0)
+			x = reduce_angle(x);
+
 		asm ("fsincos" : "=t"(c), "=u"(s) : "0"(x));
 #else
 		s = sin(x);
-- 
2.43.0


From fbecc156d9709d1dab586aafd119ef75d0e4d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:00 +0000
Subject: [PATCH 163/176] fix: roots of subnormal numbers

---
 src/core/real_analysis.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 54046f0..737f38c 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -165,6 +165,10 @@ namespace theoretica {
 			if(x == 0)
 				return 0;
 
+			// The inverse of smaller numbers would overflow
+			if(x < 1E-300)
+				return sqrt(x * 18446744073709551616.0) / 4294967296.0;
+
 			// Approximate sqrt(x) between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
@@ -214,6 +218,10 @@ namespace theoretica {
 			if(x < 0)
 				return -cbrt(-x);
 
+			// The inverse of smaller numbers would overflow
+			if(x < 1E-300)
+				return cbrt(x * 9223372036854775808.0) / 2097152.0;
+
 			// Approximate cbrt between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
@@ -891,6 +899,11 @@ namespace theoretica {
 			if(x < 0)
 				return -root(-x, n);
 
+			// The inverse of smaller numbers would overflow
+			if(x < 1E-300)
+				return root(x * 18446744073709551616.0, n)
+					/ root(18446744073709551616.0, n);
+
 			// Approximate root between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
-- 
2.43.0


From 39c9aea3eb4257cc79516860202b9b2c699b5a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:06 +0000
Subject: [PATCH 164/176] fix: tangent around odd multiples of PI / 4 without
 x86

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 737f38c..748afff 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1078,6 +1078,10 @@ namespace theoretica {
 		x = reduce_angle(x);
 		x -= floor(x / PI) * PI;
 
+		// Domain reduction to [0, PI / 2]
+		if(x > PI2)
+			return -tan(PI - x);
+
 		// Domain reduction to [0, PI / 4]
 		if(x > (PI / 4)) {
 			const real t = tan(x - PI / 4.0);
-- 
2.43.0


From c54dba8ff81d97f294df0fbac9e19a78416ed0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:24 +0000
Subject: [PATCH 165/176] fix: precision of the log Gamma function for small
 arguments

---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index f40d5dc..9e67e5a 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -92,7 +92,7 @@ namespace theoretica {
 			real A5 = c[0];
 
 			for (int i = 1; i < 7; ++i)
-				A5 += c[i] / (x + i - 1);
+				A5 += c[i] / (x + (i - 1));
 
 			return (x - 0.5) * (ln(x + 4.5) - 1)
 					- 5 + ln(SQRTPI * SQRT2 * A5);
-- 
2.43.0


From eceffb66d10b31cba5df4e940d80be05f55874c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:24 +0000
Subject: [PATCH 166/176] fix: Gamma function of arguments which do not fit an
 integer

---
 src/core/special.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 9e67e5a..fa6c5ee 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -68,7 +68,7 @@ namespace theoretica {
 			if(x < 0) {
 
 				// Check for negative values of Gamma(x)
-				if(floor(-x) % 2 == 0) {
+				if(fract(-x / 2.0) < 0.5) {
 					TH_MATH_ERROR("lngamma", x, OUT_OF_DOMAIN);
 					return nan();
 				}
@@ -114,13 +114,15 @@ namespace theoretica {
 				if(x <= 0) {
 					TH_MATH_ERROR("gamma", x, OUT_OF_DOMAIN);
 					return inf();
-				} else
+				} else if(x > std::numeric_limits<unsigned int>::max())
+					return inf();
+				else
 					return gamma((unsigned int) x);
 			}
 
 			// Check for negative values of Gamma(x)
 			// and use the translation identity
-			if(x < 0 && floor(-x) % 2 == 0)
+			if(x < 0 && fract(-x / 2.0) < 0.5)
 				return exp(lngamma(x + 1)) / x;
 
 			// Compute the Gamma function as the exponential
-- 
2.43.0


From 340e837a18fc4b892106cb3f73199bba786497de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 167/176] fix: overflow of half_gamma before its result

---
 src/core/special.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index fa6c5ee..5c36021 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -37,7 +37,7 @@ namespace theoretica {
 		///
 		/// @param k The positive integer argument
 		/// @result The Gamma function computed using
-		/// the factorial or double factorial identity.
+		/// the factorial or the recurrence from Gamma(1 / 2).
 		inline real half_gamma(unsigned int k) {
 
 			if(k == 0) {
@@ -45,9 +45,17 @@ namespace theoretica {
 				return nan();
 			}
 
-			return (k % 2 == 0)
-		        ? fact<real>(k / 2 - 1)
-		        : double_fact<real>(k - 2) * SQRTPI / pow(2.0, (k - 1) / 2);
+			if(k % 2 == 0)
+				return fact<real>(k / 2 - 1);
+
+			// Multiply term by term, as the double
+			// factorial would overflow before the result
+			real res = SQRTPI;
+
+			for (unsigned int i = 1; i < k - 1; i += 2)
+				res *= i / 2.0;
+
+			return res;
 		}
 
 
-- 
2.43.0


From 0e0b7fe14de557613f99f490a7df630bb3f2415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:46 +0000
Subject: [PATCH 168/176] fix: log Gamma function of tiny positive arguments

---
 src/core/special.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/special.h b/src/core/special.h
index 5c36021..863c0ba 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -84,6 +84,11 @@ namespace theoretica {
 				return ln(PI / sin(PI * x)) - lngamma(1 - x);
 			}
 
+			// The terms of the approximation would overflow,
+			// while Gamma(x) is close to 1 / x
+			if(x < 1E-300)
+				return -ln(x);
+
 			// Lanczos' coefficients
 			const real c[7] = {
 				1.000000000178,
-- 
2.43.0


From 851dd8483e7389ea4d07eb13235e09ae0829f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:04 +0000
Subject: [PATCH 169/176] fix: factorial of numbers which do not fit an int

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 748afff..f9c6178 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -715,7 +715,7 @@ namespace theoretica {
 	TH_CONSTEXPR inline IntType fact(unsigned int n) {
 
 		IntType res = 1;
-		for (int i = n; i > 1; --i)
+		for (unsigned int i = n; i > 1; --i)
 			res *= i;
 
 		return res;
-- 
2.43.0


From bb18cb773c7aa06613cfac8674776d3569de15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:04 +0000
Subject: [PATCH 170/176] fix: stop reading lines at the end of the input

---
 src/utility.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility.h b/src/utility.h
index c561ed4..13ed17c 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -96,7 +96,9 @@ namespace theoretica {
 
 		while(true) {
 
-			std::getline(in, line);
+			// Stop reading when the input ends.
+			if(!std::getline(in, line))
+				break;
 
 			// Stop reading when the terminator is reached.
 			if(line == terminator)
-- 
2.43.0


From 12cd4ebbd0832429d478cb6e8be3d6d2e8cec0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:46 +0000
Subject: [PATCH 171/176] fix: separate the rows of matrices printed without
 parentheses

---
 src/algebra/mat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 5978e1d..06c5f23 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -680,7 +680,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
@@ -1322,7 +1324,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
-- 
2.43.0


From 2c38bfaf793b468337e940810f8be5a8c0489395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:02 +0000
Subject: [PATCH 172/176] fix: stop gradient descent at the point whose
 gradient is below the tolerance

---
 src/optimization/multi_extrema.h | 46 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index c488d50..6d0f2f1 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -48,15 +48,17 @@ namespace theoretica {
 		do {
 
 			grad = autodiff::gradient(f, x);
+
+			// Stop at the point where the gradient is small enough
+			if(!(grad.norm() > tolerance))
+				break;
+
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > tolerance && iter <= max_iter);
-
-		// Check the gradient at the resulting point
-		grad = autodiff::gradient(f, x);
+		} while(iter <= max_iter);
 
-		if(iter > max_iter || !(grad.norm() <= tolerance)) {
+		if(!(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
@@ -97,15 +99,17 @@ namespace theoretica {
 		do {
 
 			grad = -autodiff::gradient(f, x);
+
+			// Stop at the point where the gradient is small enough
+			if(!(grad.norm() > tolerance))
+				break;
+
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > tolerance && iter <= max_iter);
+		} while(iter <= max_iter);
 
-		// Check the gradient at the resulting point
-		grad = autodiff::gradient(f, x);
-
-		if(iter > max_iter || !(grad.norm() <= tolerance)) {
+		if(!(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
@@ -140,6 +144,10 @@ namespace theoretica {
 
 			grad = autodiff::gradient(f, x);
 
+			// Stop at the point where the gradient is small enough
+			if(!(grad.norm() > tolerance))
+				break;
+
 			// Minimize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
 			real gamma = minimize_goldensection(
@@ -154,12 +162,9 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > tolerance && iter <= max_iter);
-
-		// Check the gradient at the resulting point
-		grad = autodiff::gradient(f, x);
+		} while(iter <= max_iter);
 
-		if(iter > max_iter || !(grad.norm() <= tolerance)) {
+		if(!(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
@@ -194,6 +199,10 @@ namespace theoretica {
 
 			grad = -autodiff::gradient(f, x);
 
+			// Stop at the point where the gradient is small enough
+			if(!(grad.norm() > tolerance))
+				break;
+
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
 			real gamma = maximize_goldensection(
@@ -208,12 +217,9 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > tolerance && iter <= max_iter);
-
-		// Check the gradient at the resulting point
-		grad = autodiff::gradient(f, x);
+		} while(iter <= max_iter);
 
-		if(iter > max_iter || !(grad.norm() <= tolerance)) {
+		if(!(grad.norm() <= tolerance)) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(guess.size(), nan());
 		}
-- 
2.43.0


From f0e5b75175494a28af977c13ca1e586ff7588ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:16 +0000
Subject: [PATCH 173/176] fix: infinite samples of the Box-Muller method

---
 src/pseudorandom/sampling.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..1c6dbe9 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -245,7 +245,13 @@ namespace theoretica {
 
 		// Generate a random point inside the unit circle
 		
-		const real x = rand_uniform(0, 1, g);
+		real x;
+
+		// The logarithm is not defined in zero
+		do {
+			x = rand_uniform(0, 1, g);
+		} while(x <= 0);
+
 		const real y = rand_uniform(0, 1, g);
 
 		const real x_transf = sqrt(-2 * ln(x));
-- 
2.43.0


From 04791bfc06bf8da7f16308a990fddb3e9d48f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:00 +0000
Subject: [PATCH 174/176] fix: congruential generator stuck at zero for
 multiples of the modulus

---
 src/pseudorandom/prng.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index fc306b7..7d7f387 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -122,12 +122,15 @@ namespace theoretica {
 			/// @return A standard linear congruential PRNG object
 			inline static PRNG linear_congruential(uint64_t seed = 1) {
 
-				if(seed == 0)
+				const uint64_t m = ((uint64_t) 1 << 31) - 1;
+
+				// Multiples of the modulus would only generate zeros
+				if(seed % m == 0)
 					seed = 1;
 
 				return PRNG(
 					randgen_congruential, seed,
-					{48271, 0, ((uint64_t) 1 << 31) - 1}
+					{48271, 0, m}
 				);
 			}
 
-- 
2.43.0


From 734d04ca86fa506ad5713fa7b70cc6a64d5399fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:50 +0000
Subject: [PATCH 175/176] fix: trimming an invalid polynomial makes it zero

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 5da4a4e..a259785 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,7 +106,7 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				while (coeff.size() && !(abs(coeff.back()) > MACH_EPSILON))
+				while (coeff.size() && abs(coeff.back()) <= MACH_EPSILON)
 					coeff.pop_back();
 			}
 
-- 
2.43.0


From 51060b4fa769c07329249785c76f803db0587a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:59 +0000
Subject: [PATCH 176/176] fix: factorials of orthogonal polynomial
 normalisations overflowed beyond 20!

---
 src/polynomial/orthogonal.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 162fce5..5686d65 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1.0, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1.0, m) * fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		for (int i = 0; i < m; ++i)
@@ -123,7 +123,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= fact(l + m) / fact(l - m);
+			K *= fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		polynomial<real> L = legendre_polynomial(l);
@@ -207,7 +207,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt(pow(2.0, n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(2.0, n) * fact<real>(n) * SQRTPI);
 	}
 
 
@@ -325,7 +325,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				(pow(2.0, n - 1) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(2.0, n - 1) * fact<real>(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0

