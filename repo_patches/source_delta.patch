From 4f2a71590b129ce28a1fe4b6ba4a329254eddb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 01/12] fix: concatenate of square matrices joins B, not A, on
 the right

---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From 008ff7ad49e64dde95c583d51b448819c17d0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 02/12] fix: ones() honours both dimensions

---
 matrix/matrix_ones.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..48bbaee 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,14 +25,14 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j = i>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From abc2843a3da5a11c2b434a13a64e83b7f804be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 03/12] fix: mean and var of signed integers no longer divide
 as unsigned

---
 matrix/matrix_mean.hpp | 2 +-
 matrix/matrix_var.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..1a4f463 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -39,7 +39,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
diff --git a/matrix/matrix_var.hpp b/matrix/matrix_var.hpp
index 975be59..8875916 100644
--- a/matrix/matrix_var.hpp
+++ b/matrix/matrix_var.hpp
@@ -40,7 +40,7 @@ T var(const Matrix<T, i, j>& A)
       result += (A[it][jt] - meanA)*(A[it][jt] - meanA);
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0


From 056be98e84a011f7e9174b9af17955577e2867dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 04/12] fix: division of a matrix by zero throws instead of
 terminating

---
 matrix/matrix_div.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..8f67d57 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +34,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From 807310d2d5862134b96be231c20c08f70963f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 05/12] fix: inv of a singular 1x1 matrix reports the error
 like the other sizes

---
 matrix/matrix_inv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..d5f41ea 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,12 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From cfc7bc4d72ee10860e91d1e0866d46e5df8ef2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 06/12] fix: isIdentity works for every element type

---
 matrix/matrix_utils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..3196aa6 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,8 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  const auto identity = eye<T, n>();
+  return (A == identity);
 }
 
 
-- 
2.43.0


From 8e49195628defd1f9f0adde1bac7646a7df22feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:29 +0000
Subject: [PATCH 07/12] fix: compare does not accept NaN as equal to everything

---
 matrix/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 3196aa6..c69fd85 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -52,7 +52,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      if(A[i][j] != B[i][j] && !(std::abs(A[i][j] - B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From f6705e0403c35c75cd9d1b85f8368c4f405a176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:56 +0000
Subject: [PATCH 08/12] fix: conv2 and conv2_full convolve, as documented,
 instead of correlating

---
 matrix/matrix_conv2.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..9af8316 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -36,8 +36,13 @@ namespace mlib
  * @return Returns the central part of the convolution (of size ixj like A)
  */
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& K)
 {
+  // convolution, unlike correlation, applies the kernel rotated by 180 degrees
+  const Matrix<T, 3, 3> kernel
+  { K[2][2], K[2][1], K[2][0],
+    K[1][2], K[1][1], K[1][0],
+    K[0][2], K[0][1], K[0][0] };
   Matrix<T, i, j> result{};
   auto isOutOfRange = [](int a, int b)
   {
@@ -86,8 +91,13 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 // TODO move in inside conv2() (add parameter 'valid' as option)
 // TODO refactor it so it will look more friendly
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& K)
 {
+  // convolution, unlike correlation, applies the kernel rotated by 180 degrees
+  const Matrix<T, 3, 3> kernel
+  { K[2][2], K[2][1], K[2][0],
+    K[1][2], K[1][1], K[1][0],
+    K[0][2], K[0][1], K[0][0] };
   Matrix<T, i+2, j+2> result{};
   // equals 1 because kernel is 3x3, if kernel is 5x5 offset would be 2 
   constexpr std::size_t offset{1};
-- 
2.43.0


From 66ef006d59f9e2386ae2e9c32af8eb688169607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:56 +0000
Subject: [PATCH 09/12] fix: conv2_valid accepts non-square matrices

---
 matrix/matrix_conv2.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 9af8316..ddb8bb6 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -149,8 +149,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From c80c39396d00630ccfa47395ed5d5ac250390905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:56 +0000
Subject: [PATCH 10/12] fix: median does not allocate dynamic memory

---
 matrix/matrix_median.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..f786ffb 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
   const std::size_t size = i*j;
-  v.reserve(size);
+  std::array<T, size> v;
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From 696ae502ba0859decf3bb5c9501db00014286a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:56 +0000
Subject: [PATCH 11/12] fix: pow accepts an unsigned power

---
 matrix/matrix_pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..c43466c 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,7 +47,7 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
+      p = -p;
     }
 
     auto powA { ones<T, n, n>() };
-- 
2.43.0


From bd1d0c40db8caef872869394e9338c536a98d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:04 +0000
Subject: [PATCH 12/12] fix: det of unsigned matrices with an odd number of row
 exchanges is not 0

---
 matrix/matrix_det.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index b1510a8..ce317ac 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -92,7 +92,7 @@ T det(Matrix<T, n, n> A)
     {
       prod *= A[i][i];
     }
-    return prod / factor;
+    return prod * factor;
   };
 
   for (std::size_t r = 0; r < n; ++r)
-- 
2.43.0

