From f5e96d82938e6f3f0fd5121602b67802cbd1677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 01/63] fix: floor() of negative integral values

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From 56ee8cf8d9f6c2cb5446f24fedb4efd79a3bae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 02/63] fix: linear interpolation weights were swapped

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..a0e658a 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
-- 
2.43.0


From 532b24b6aad6aacc74a5f95da0d042124554fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 03/63] fix: nearest-neighbor interpolation at negative
 positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index a0e658a..377ab11 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From e1bb5977f7c6837c63ce22c175844b8791deac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/63] fix: quantile() interpolation weights were swapped

---
 LitlContainer/LitlContainer/DataDistribution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..c585640 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -151,7 +151,7 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    return nth(f) * (1. - d) + nth(f + 1) * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 70fec8f721ace4a4510d11bab726e1f429319cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 05/63] fix: histogram() wrote past its output for values equal
 to the last bin bound

---
 LitlContainer/LitlContainer/DataDistribution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index c585640..afb0595 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -176,8 +176,9 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    while (it != m_values.end() && *it == bins.back()) {
+      ++out.back();
+      ++it;
     }
     return out;
   }
-- 
2.43.0


From 1051ce122880ebece11ff472908f260fe9b95a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 06/63] fix: overflow and integer division in DataDistribution
 sum, mean and variance

---
 LitlContainer/LitlContainer/DataDistribution.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index afb0595..93b081c 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -49,7 +49,7 @@ public:
       m_sum2(m_sum) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += v * v;
+      m_sum2 += Floating(v) * Floating(v);
     }
   }
 
@@ -85,7 +85,7 @@ public:
   /**
    * @brief Get the sum of all values.
    */
-  const T& sum() {
+  Floating sum() {
     return m_sum;
   }
 
@@ -107,7 +107,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return sum() / size();
+    return sum() / Floating(size());
   }
 
   /**
@@ -121,7 +121,8 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    const auto m = mean();
+    return (m_sum2 - m * m_sum) / Floating(size() - unbiased);
   }
 
   /**
@@ -209,12 +210,12 @@ private:
   /**
    * @brief The cached sum.
    */
-  T m_sum;
+  Floating m_sum;
 
   /**
    * @brief The cached sum of squares.
    */
-  T m_sum2;
+  Floating m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From 8fb6b551b45e4f97a1dd6536c15e68b3acd6486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 07/63] fix: mad() truncated the deviations of integral values

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 93b081c..88b6938 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -129,12 +129,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From 1944c148fa9a1b8c1fe8a7edb40002c28e8fe154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 08/63] fix: value-copying constructors of variable-dimension
 rasters always threw

---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
-- 
2.43.0


From 42be91de099600c03c8079b66bbe57ffd385c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 09/63] fix: linspace() for containers with less than two
 elements, for decreasing integers and with arguments inside the container

---
 LitlContainer/LitlContainer/DataContainer.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..1fd059b 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -160,12 +160,20 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
-    auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+    if (this->size() == 0) {
+      return static_cast<TDerived&>(*this);
     }
-    *it = max;
+    const T front = min; // Copies because min and max could be elements of the container
+    const T back = max;
+    const Index last = this->size() - 1;
+    if (last > 0) {
+      const auto step = (back - front) / last;
+      auto it = this->begin();
+      for (Index i = 0; i < last; ++i, ++it) {
+        *it = front + step * i;
+      }
+    }
+    this->back() = back;
     return static_cast<TDerived&>(*this);
   }
 
-- 
2.43.0


From 0f1a579a1fa0eaa229abbb4980cfaeb06a7f5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 10/63] fix: range() with a step inside the container

---
 LitlContainer/LitlContainer/DataContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 1fd059b..1f73836 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const T inc = step; // Copy because step could be an element of the container
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += inc;
     }
     return t;
   }
-- 
2.43.0


From 95031367cb904ba423897d89407c530e42d7f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 11/63] fix: scalar in-place operators with an operand inside
 the container

---
 LitlContainer/LitlContainer/Arithmetic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..652c05e 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -27,12 +27,13 @@ namespace Litl {
 
 #define LITL_SCALAR_OPERATOR_INPLACE(op) \
   TDerived& operator op##=(const T& rhs) { \
+    const T value = rhs; /* Copy because rhs could be an element of the container */ \
     std::transform( \
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
         [&](auto e) { \
-          return e op rhs; \
+          return e op value; \
         }); \
     return static_cast<TDerived&>(*this); \
   }
-- 
2.43.0


From 6147898ab2a2dc652ecff88a48f1e966620f107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 12/63] fix: subtracting a container from a scalar

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 652c05e..7c0b3c3 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -87,7 +87,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -146,6 +145,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return *this;
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /**
    * @brief Compute the opposite.
    */
@@ -170,7 +180,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -232,6 +241,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return *this;
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /**
    * @brief Compute the opposite.
    */
-- 
2.43.0


From 825c44aec3e3b0cb7e268a2503ab6b072bd67839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 13/63] fix: unary plus of containers did not compile

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 7c0b3c3..9a8b4ef 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -142,7 +142,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -238,7 +238,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From 3f1d56b1939cc12e97bf37e25f08ac14a8739044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 14/63] fix: element-wise min() and max() were hidden by
 DataContainer

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 1f73836..3dd948c 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -224,6 +224,9 @@ public:
 
   /// @group_operations
 
+  using MathFunctionsMixin<T, TDerived>::min;
+  using MathFunctionsMixin<T, TDerived>::max;
+
   /**
    * @brief Get a reference to the (first) min element.
    * @see `distribution()`
-- 
2.43.0


From 10d69769054ab366af69a2a830e9970f52705c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 15/63] fix: at() read out of bounds for a position of lower
 dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..31b9010 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -112,6 +112,7 @@ inline T& Raster<T, N, THolder>::operator[](const Position<N>& pos) {
 
 template <typename T, Index N, typename THolder>
 inline const T& Raster<T, N, THolder>::at(const Position<N>& pos) const {
+  SizeError::mayThrow(pos.size(), dimension());
   auto boundedPos = pos;
   for (Index i = 0; i < dimension(); ++i) {
     auto& b = boundedPos[i];
-- 
2.43.0


From c0fb161785b6f7c81dffa9608b48c5ee0e8004c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 16/63] fix: domain() of variable-dimension rasters

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 31b9010..3f5f1bf 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,8 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  auto front = m_shape; // Position<-1>::zero() is 1D
+  return Box<N>::fromShape(front.fill(0), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 95f02601727544a2bce78f355db24099a6a79796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 17/63] fix: sign of Vector::inf()

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From 839ad0b503cc857c81d6034d96ee0ad175b1b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 18/63] fix: AlignedBuffer move constructor leaked the memory

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..938e26d 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,8 +137,8 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
-    other.release();
+  AlignedBuffer(AlignedBuffer&& other) :
+      m_size(other.m_size), m_as(other.m_as), m_container(other.release()), m_data(other.m_data) {
     other.reset();
   }
 
-- 
2.43.0


From 0b150dd4dcffd4cceefb26d28b83558e914e47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 19/63] fix: AlignedBuffer assignments leaked the memory
 previously owned

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 938e26d..305a605 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -147,6 +147,11 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      if (owns() && other.owns() && m_size == other.m_size && m_as == other.m_as) {
+        std::copy_n(other.m_data, m_size, m_data); // No need to reallocate
+        return *this;
+      }
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +171,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From 3a7471c1d190942861f60028675987e9acfff4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 20/63] fix: copies of region iterators referred to the
 original iterator

---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..3558366 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -110,7 +110,7 @@ private:
   /**
    * @brief The screened region.
    */
-  const Box<N>& m_region;
+  Box<N> m_region;
 
   /**
    * @brief The current position.
-- 
2.43.0


From 886a04a80abc26b9fed7b0df0f30be395279e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 21/63] fix: size and iteration of empty boxes

---
 LitlRaster/LitlRaster/Box.h         | 8 +++++++-
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..ee18896 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -95,7 +95,13 @@ public:
    * @brief Compute the box size, i.e. number of positions.
    */
   Index size() const {
-    return shapeSize(shape());
+    const auto lengths = shape();
+    for (auto l : lengths) {
+      if (l <= 0) {
+        return 0;
+      }
+    }
+    return shapeSize(lengths);
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 3558366..9ef81dc 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -22,7 +22,7 @@ public:
    * @brief The beginning position.
    */
   static Position<N> beginPosition(const Box<N>& box) {
-    return box.front();
+    return box.size() == 0 ? endPosition(box) : box.front();
   }
 
   /**
-- 
2.43.0


From a9c00254f5ac209596f9492bb8439079cd38db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 22/63] fix: clamping a position inside a box did not compile

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index ee18896..fb10288 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -303,9 +303,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out = position;
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From 9551d32d28b66552a49a61decd88714e8ed06e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 23/63] fix: Ball::size() returned the size of the bounding box

---
 LitlRaster/LitlRaster/Ball.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..296274c 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -99,7 +99,12 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    Index out = 0;
+    const auto last = end(*this);
+    for (auto it = begin(*this); it != last; ++it) {
+      ++out;
+    }
+    return out;
   }
 
   /**
-- 
2.43.0


From 973cbe64c564f68329d84813e04919fa3a9c18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 24/63] fix: mutable subrasters were not iterable

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..6c00c8c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(subraster.m_raster), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From f45b2df7c9e981dd4450f001fdf23da157cdc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 25/63] fix: section() of variable-dimension rasters

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 34 ++++++++++-----------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 3f5f1bf..ee70099 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -176,43 +176,33 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = m_shape;
+  reduced[last] = back - front + 1;
+  return PtrRaster<const T, N> {reduced, this->data() + front * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = m_shape;
+  reduced[last] = back - front + 1;
+  return PtrRaster<T, N> {reduced, this->data() + front * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
+  Position < N == -1 ? -1 : N - 1 > reduced(last);
+  std::copy_n(m_shape.begin(), last, reduced.begin());
+  return PtrRaster < const T, N == -1 ? -1 : N - 1 > {reduced, this->data() + index * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position < N == -1 ? -1 : N - 1 > reduced(last);
+  std::copy_n(m_shape.begin(), last, reduced.begin());
+  return PtrRaster < T, N == -1 ? -1 : N - 1 > {reduced, this->data() + index * shapeStride(m_shape, last)};
   // FIXME duplication
 }
 
-- 
2.43.0


From 7de27accfa5608fb6b07e784a7b15f04b29b1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 26/63] fix: post-increment operators of samplings

---
 LitlRaster/LitlRaster/Sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..ecdb812 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
@@ -316,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
-- 
2.43.0


From f47b54ec39bf68f8fd286574744a67770ddf67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 27/63] fix: DataSamples offsets were converted to the value
 type

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index ecdb812..470b432 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -325,7 +325,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -333,7 +333,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From bd27d2f0e0d881188776b9bd8163a9bfd2561918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 28/63] fix: end of DataSamples was past the last sample

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 470b432..790caee 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -349,7 +349,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -363,7 +363,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From 70faf993b1486ccd579e4fe0ae6b427c5eb64483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 29/63] fix: PositionSampling::along(Index) did not compile

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 790caee..3f60560 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -156,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From 49c4ee5fba7b356fdf501774a75c8812d57c5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 30/63] fix: PositionSampling::shape() wrote out of bounds in
 variable dimension

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 3f60560..bc32bbb 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -137,7 +137,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
-- 
2.43.0


From 85c85827917c7f704fe027ecb13898fec8db8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 31/63] fix: Segment::fromSize()

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..1401878 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + Index(size) - 1);
   }
 
   Index front() const {
-- 
2.43.0


From c200eb8855428d00a6d75b474694dc63eec53a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 32/63] fix: out-of-bounds accesses of LineKernel::correlate()
 for short inputs and steps greater than 1

---
 LitlTransforms/LitlTransforms/LineKernel.h | 33 ++++++++--------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..13024e3 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -84,30 +84,19 @@ public:
     // FIXME only valid for "kernel croping" extrapolation
 
     // Set up iterators
-    const auto step = in.step();
-    DataSamples<const TIn>
-        unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
-    auto inIt = unitIn.begin();
-    auto inMinIt = inIt;
-    inMinIt -= in.front();
-    inIt -= m_origin;
+    const Index step = in.step();
+    const Index inSize = in.size();
+    const Index kSize = this->size();
+    DataSamples<const TIn> unitIn {in.data(), in.size(), {}, in.stride()}; // step = 1 for inner_product
     auto outIt = out.begin();
-    auto i = in.front();
 
-    // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-    }
-
-    // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-    }
-
-    // Forward-croped
-    for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+    for (Index i = in.front(); i <= in.back(); i += step, ++outIt) {
+      // Crop the kernel backward and forward
+      const auto kFront = std::max(m_origin - i, Index(0));
+      const auto kEnd = std::max(std::min(m_origin - i + inSize, kSize), kFront);
+      auto inIt = unitIn.begin();
+      inIt += i - m_origin + kFront;
+      *outIt = std::inner_product(this->data() + kFront, this->data() + kEnd, inIt, m_bias);
     }
   }
 
-- 
2.43.0


From 8f6fc80980931134d834b040b8c7dc61afeb316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 33/63] fix: correlations printed debug messages to the
 standard output

---
 LitlTransforms/LitlTransforms/Convolution.h   | 44 -------------------
 .../LitlTransforms/SeparableKernel.h          |  1 -
 2 files changed, 45 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..9617800 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -82,24 +82,19 @@ public:
     auto outIt = out.begin();
     Index i = in.front();
 
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
-
     // Backward-croped
     for (; i < m_backward; i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
     }
 
     // Central
     for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
     }
   }
 
@@ -126,7 +121,6 @@ public:
     const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
-    printf("%li-%li:%li - %li-%li:%li\n", xFrom, xTo, xStep, yFrom, yTo, yStep);
 
     // Convolve along x-axis
     const Index xConvolvedWidth = (xTo - xFrom + xStep) / xStep;
@@ -136,67 +130,29 @@ public:
         &in[{0, yFrom}],
         in.template length<0>(),
         {xFrom, xTo, xStep});
-    printf("inSamples: %li-%li:%li:%li\n", inSamples.front(), inSamples.back(), inSamples.step(), inSamples.stride());
     DataSamples<typename TRasterOut::Value> xConvolvedSamples(
         xConvolved.data(),
         xConvolvedWidth,
         {0, Limits<Index>::inf()});
-    printf(
-        "xConvolvedSamples: %li-%li:%li:%li\n",
-        xConvolvedSamples.front(),
-        xConvolvedSamples.back(),
-        xConvolvedSamples.step(),
-        xConvolvedSamples.stride());
     for (Index y = yFrom; y <= yTo; ++y) {
-      printf(
-          "in: %li, xConvolved: %li\n",
-          std::distance(in.data(), inSamples.data()),
-          std::distance(xConvolved.data(), xConvolvedSamples.data()));
       sparseCorrelate1dTo(inSamples, xConvolvedSamples);
       inSamples += in.template length<0>();
       xConvolvedSamples += xConvolvedWidth;
     }
 
-    printf("xConvolved:\n%lix%li\n", xConvolvedWidth, xConvolvedHeight);
-    for (Index y = 0; y < xConvolvedHeight; ++y) {
-      for (Index x = 0; x < xConvolvedWidth; ++x) {
-        printf("%i ", xConvolved[{x, y}]);
-      }
-      printf("\n");
-    }
-
     // Convolve along y-axis
     DataSamples<typename TRasterOut::Value> ySamples(
         xConvolved.data(),
         xConvolvedHeight,
         {sampling.template along<1>().front - yFrom, sampling.template along<1>().back - yFrom, yStep},
         xConvolvedWidth);
-    printf("ySamples: %li-%li:%li:%li\n", ySamples.front(), ySamples.back(), ySamples.step(), ySamples.stride());
     DataSamples<typename TRasterOut::Value>
         outSamples(out.data(), out.template length<1>(), {0, Limits<Index>::inf()}, out.template length<0>());
-    printf(
-        "outSamples: %li-%li:%li:%li\n",
-        outSamples.front(),
-        outSamples.back(),
-        outSamples.step(),
-        outSamples.stride());
     for (Index x = xFrom; x <= xTo; x += xStep) {
-      printf(
-          "xConvolved: %li, out: %li\n",
-          std::distance(xConvolved.data(), ySamples.data()),
-          std::distance(out.data(), outSamples.data()));
       sparseCorrelate1dTo(ySamples, outSamples);
       ySamples += 1;
       outSamples += 1;
     }
-
-    printf("out:\n%lix%li\n", out.template length<0>(), out.template length<1>());
-    for (Index y = 0; y < out.template length<1>(); ++y) {
-      for (Index x = 0; x < out.template length<0>(); ++x) {
-        printf("%i ", out[{x, y}]);
-      }
-      printf("\n");
-    }
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..4f1ffad 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -201,7 +201,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From fd0d6a9d1519880e09fc172ac5a71e70080f74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 34/63] fix: out-of-bounds accesses of Kernel1d correlation for
 short inputs and steps greater than 1

---
 LitlTransforms/LitlTransforms/Convolution.h | 32 +++++++--------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 9617800..b12e89b 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -72,29 +72,19 @@ public:
       const { // FIXME only valid for CropOutOfBounds
 
     // Set iterators
-    const auto step = in.step();
-    DataSamples<const TIn>
-        unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
-    auto inIt = unitIn.begin();
-    auto inMinIt = inIt;
-    inMinIt -= in.front();
-    inIt -= m_backward;
+    const Index step = in.step();
+    const Index inSize = in.size();
+    const Index kSize = this->size();
+    DataSamples<const TIn> unitIn {in.data(), in.size(), {}, in.stride()}; // step = 1 for inner_product
     auto outIt = out.begin();
-    Index i = in.front();
 
-    // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-    }
-
-    // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-    }
-
-    // Forward-croped
-    for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+    for (Index i = in.front(); i <= in.back(); i += step, ++outIt) {
+      // Crop the kernel backward and forward
+      const auto kFront = std::max(m_backward - i, Index(0));
+      const auto kEnd = std::max(std::min(m_backward - i + inSize, kSize), kFront);
+      auto inIt = unitIn.begin();
+      inIt += i - m_backward + kFront;
+      *outIt = std::inner_product(this->data() + kFront, this->data() + kEnd, inIt, m_bias);
     }
   }
 
-- 
2.43.0


From 16f70e1c073692f125962c3aedf059d3a45e562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 35/63] fix: Kernel read wrong input rows

---
 LitlTransforms/LitlTransforms/Kernel.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..51263ee 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -99,27 +99,22 @@ private:
     // Compute constants
     auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
-
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    const auto kPlane = project(m_window);
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto outIt = &out[p];
+      for (Index i = 0; i < boxWidth; ++i, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        auto kIt = m_values.data();
+        for (const auto& q : kPlane) {
+          sum = std::inner_product(kIt, kIt + kWidth, &in[p + q] + i, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
-- 
2.43.0


From e0ed19adfa1d6dcffacdf748b7539eb7c2b542c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 36/63] fix: Kernel wrote out of bounds when larger than the
 input or when the window does not contain the origin

---
 LitlTransforms/LitlTransforms/Kernel.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 51263ee..bd3f0d3 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -77,8 +77,19 @@ public:
    */
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
-    const auto inner = in.domain() - m_window;
-    const auto outers = inner.surround(m_window);
+    auto front = m_window.front();
+    auto back = m_window.back();
+    for (Index i = 0; i < m_window.dimension(); ++i) { // The window might not contain the origin
+      front[i] = std::min(front[i], Index(0));
+      back[i] = std::max(back[i], Index(0));
+    }
+    const Box<N> margin(front, back);
+    const auto inner = in.domain() - margin;
+    if (inner.size() == 0) { // The kernel does not fit in the input
+      correlateWithExtrapolation(in, in.domain(), out);
+      return;
+    }
+    const auto outers = inner.surround(margin);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
       correlateWithExtrapolation(in, o, out);
-- 
2.43.0


From 53e2ea494635d6ae0ae0bbe2908fced008a7b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 37/63] fix: Kernel truncated input values near the borders

---
 LitlTransforms/LitlTransforms/Kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index bd3f0d3..97de8ac 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -143,7 +143,7 @@ private:
     }
 
     // Allocate extrapolation buffer
-    std::vector<T> buffer(m_values.size());
+    std::vector<typename TExtrapolatorIn::Value> buffer(m_values.size());
 
     // Prepare iterators
     const auto bBegin = buffer.begin();
-- 
2.43.0


From f7764576ff84e34ff8988f7ed13ffbbf05482b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 38/63] fix: median of an even number of values

---
 LitlTransforms/LitlTransforms/MedianFilter.h       | 3 +--
 LitlTransforms/LitlTransforms/StructuringElement.h | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..4536599 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -87,8 +87,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*std::max_element(b, n) + *n) * .5;
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 19966f3..961cdc2 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -94,8 +94,7 @@ private:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*std::max_element(b, n) + *n) * .5;
   }
 
   T neighborsMin() {
-- 
2.43.0


From 817d39a99e922418256d6cbf4238a8a15b0a50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 39/63] fix: default region of MedianFilter::applyTo() was
 unbounded

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 4536599..8299850 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -57,10 +57,18 @@ public:
    * @brief Apply the filter into a given output raster.
    * @param in The input raster or an extrapolator
    * @param out The output raster
-   * @param region The region to filter in the input raster
+   * @param region The region to filter in the input raster (by default, the whole output domain)
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out) {
+    applyTo(in, out, out.domain());
+  }
+
+  /**
+   * @copydoc applyTo()
+   */
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
-- 
2.43.0


From 09bcfe37ce96d7cf70442d07ec016e33f664f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 40/63] fix: StructuringElement did not compile

---
 .../LitlTransforms/StructuringElement.h       | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 961cdc2..e8e26e8 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -54,7 +54,12 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void medianTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void medianTo(const TIn& in, TOut& out) {
+    medianTo(in, out, out.domain());
+  }
+
+  template <typename TIn, typename TOut>
+  void medianTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMedian();
@@ -62,7 +67,12 @@ public:
   }
 
   template <typename TIn, typename TOut>
-  void erodeTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void erodeTo(const TIn& in, TOut& out) {
+    erodeTo(in, out, out.domain());
+  }
+
+  template <typename TIn, typename TOut>
+  void erodeTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMin();
@@ -70,7 +80,12 @@ public:
   }
 
   template <typename TIn, typename TOut>
-  void dilateTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void dilateTo(const TIn& in, TOut& out) {
+    dilateTo(in, out, out.domain());
+  }
+
+  template <typename TIn, typename TOut>
+  void dilateTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMax();
@@ -78,8 +93,9 @@ public:
   }
 
 private:
+  template <typename TIn>
   void loadNeighbors(const TIn& in, const Position<N>& p) {
-    auto it = neighbors.begin();
+    auto it = m_neighbors.begin();
     for (const auto& q : m_window + p) {
       *it++ = in[q];
     }
-- 
2.43.0


From 147907169d1de3b0e65b1dd3d34f878bab576d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 41/63] fix: line kernel makers did not compile

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 13024e3..1fce536 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -116,7 +116,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -125,7 +125,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return LineKernel<T>(std::vector<T>(values.begin(), values.end()), origin);
 }
 
 /**
@@ -136,7 +136,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, Index(values.size() / 2));
 }
 
 } // namespace Litl
-- 
2.43.0


From 93780e986b45a1de758537c1f09f6263b0ae9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 42/63] fix: SeparableKernel::compose() reversed the kernel

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 4f1ffad..e039f6a 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -146,9 +146,13 @@ public:
       shape[k.first] = k.second.size();
       origin[k.first] = k.second.origin();
     }
-    auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    auto raster = Raster<Value, Dimension>(shape).fill(T(1));
+    for (const auto& p : raster.domain()) {
+      for (const auto& k : m_kernels) {
+        raster[p] *= k.second[p[k.first]];
+      }
+    }
+    return kernelize(raster, origin);
   }
 
   /**
-- 
2.43.0


From 242b81d38304c8e42e2cee09d2f31e5180cc7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 43/63] fix: SeparableKernel::window() and operator[]() did not
 compile

---
 .../LitlTransforms/SeparableKernel.h           | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index e039f6a..e988a41 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -101,24 +101,20 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      auto i = k.first;
-      const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
-      }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
-      }
+      const auto w = k.second.window();
+      front[k.first] = w.front();
+      back[k.first] = w.back();
     }
-    return box;
+    return {front, back};
   }
 
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return m_kernels.at(axis);
   }
 
-- 
2.43.0


From d0604ffa31c1dcc2a053c2398f275a5b1a618327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 44/63] fix: DftPlan move assignment leaked the plan

---
 LitlTransforms/LitlTransforms/DftPlan.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/DftPlan.h b/LitlTransforms/LitlTransforms/DftPlan.h
index 9ade097..7cb60f4 100644
--- a/LitlTransforms/LitlTransforms/DftPlan.h
+++ b/LitlTransforms/LitlTransforms/DftPlan.h
@@ -108,8 +108,26 @@ public:
       m_shape {shape}, m_in {Transform::inShape(m_shape), inData}, m_out {Transform::outShape(m_shape), outData},
       m_plan {FftwAllocator::createPlan<Transform>(m_in, m_out)} {}
 
-  LITL_DEFAULT_COPYABLE(DftPlan)
-  LITL_DEFAULT_MOVABLE(DftPlan)
+  LITL_NON_COPYABLE(DftPlan)
+
+  /**
+   * @brief Move constructor.
+   */
+  DftPlan(DftPlan&&) = default;
+
+  /**
+   * @brief Move assignment operator.
+   */
+  DftPlan& operator=(DftPlan&& other) {
+    if (this != &other) {
+      FftwAllocator::destroyPlan(m_plan);
+      m_shape = std::move(other.m_shape);
+      m_in = std::move(other.m_in);
+      m_out = std::move(other.m_out);
+      m_plan = std::move(other.m_plan);
+    }
+    return *this;
+  }
 
   /**
    * @brief Destructor.
-- 
2.43.0


From 81c2dcc01121ad417db1a73f54ac4cd5c5408a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 45/63] fix: copies of ProgramOptions declared options in the
 original object

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..ef30d1d 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
   }
 
   /**
@@ -182,7 +182,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 0c7c70e75f14137fb16688bde3770f2e068ef4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 46/63] fix: Chronometer::stdev() could be NaN

---
 LitlRun/LitlRun/Chronometer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..ad5ef62 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [=](double s, double inc) {
+      return s + (inc - m) * (inc - m);
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From a6e0c3652a809c71d90daeb3f67e10fbdfa366f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 47/63] fix: rasterize() did not compile for lvalue containers

---
 LitlRaster/LitlRaster/Raster.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index ec61f9a..0021786 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -448,10 +448,10 @@ bool operator!=(const Raster<T, N, THolder>& lhs, const Raster<U, M, UHolder>& r
  * auto vecRaster3D = rasterize(std::move(vec), width, height, depth); // The vector is moved
  * \endcode
  */
-template <typename TContainer, typename... Longs>
-Raster<typename TContainer::value_type, sizeof...(Longs), StdHolder<TContainer>>
+template <typename TContainer, typename... Longs, std::enable_if_t<sizeof...(Longs) != 0>* = nullptr>
+Raster<typename std::decay_t<TContainer>::value_type, sizeof...(Longs), StdHolder<std::decay_t<TContainer>>>
 rasterize(TContainer&& data, Longs... shape) {
-  return Raster<typename TContainer::value_type, sizeof...(Longs), StdHolder<TContainer>> {
+  return Raster<typename std::decay_t<TContainer>::value_type, sizeof...(Longs), StdHolder<std::decay_t<TContainer>>> {
       {shape...},
       std::forward<TContainer>(data)};
 }
-- 
2.43.0


From b15b0998279ca6d1ae91ef9a29bfba4e89e6cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 48/63] fix: concurrent creations and destructions of DFT plans
 raced in FFTW planner

---
 LitlTransforms/LitlTransforms/DftMemory.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftMemory.h b/LitlTransforms/LitlTransforms/DftMemory.h
index 2117e1f..c55f03e 100644
--- a/LitlTransforms/LitlTransforms/DftMemory.h
+++ b/LitlTransforms/LitlTransforms/DftMemory.h
@@ -8,6 +8,7 @@
 #include <complex>
 #include <fftw3.h>
 #include <memory>
+#include <mutex>
 
 namespace Litl {
 
@@ -73,7 +74,7 @@ public:
    */
   template <typename TTransform, typename TIn, typename TOut>
   static Internal::FftwPlanPtr createPlan(TIn& in, TOut& out) {
-    instantiate();
+    const std::lock_guard<std::mutex> lock(instantiate().m_mutex); // FFTW planner is not thread-safe
     return TTransform::allocateFftwPlan(in, out);
   }
 
@@ -82,9 +83,16 @@ public:
    */
   static void destroyPlan(Internal::FftwPlanPtr& plan) {
     if (plan) {
+      const std::lock_guard<std::mutex> lock(instantiate().m_mutex);
       fftw_destroy_plan(*plan);
     }
   }
+
+private:
+  /**
+   * @brief The planner mutex.
+   */
+  std::mutex m_mutex;
 };
 
 } // namespace Litl
-- 
2.43.0


From 69af88edd8de23e2eae6d36e5bde32459dcf8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 49/63] fix: FITS files were read and written as bytes for
 every pixel type

---
 LitlIo/LitlIo/Fits.h | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..79da1b3 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -9,9 +9,43 @@
 
 #include <fitsio.h>
 #include <string>
+#include <type_traits> // decay_t, is_signed
 
 namespace Litl {
 
+/**
+ * @brief FITS image type (`bitpix()`) and CFITSIO data type (`datatype()`) of a pixel type.
+ */
+template <typename T>
+struct FitsPixel;
+
+#define LITL_DEFINE_FITS_PIXEL(type, image, data) \
+  template <> \
+  struct FitsPixel<type> { \
+    static constexpr int bitpix() { \
+      return image; \
+    } \
+    static constexpr int datatype() { \
+      return data; \
+    } \
+  };
+
+LITL_DEFINE_FITS_PIXEL(char, std::is_signed<char>::value ? SBYTE_IMG : BYTE_IMG, std::is_signed<char>::value ? TSBYTE : TBYTE)
+LITL_DEFINE_FITS_PIXEL(signed char, SBYTE_IMG, TSBYTE)
+LITL_DEFINE_FITS_PIXEL(unsigned char, BYTE_IMG, TBYTE)
+LITL_DEFINE_FITS_PIXEL(short, SHORT_IMG, TSHORT)
+LITL_DEFINE_FITS_PIXEL(unsigned short, USHORT_IMG, TUSHORT)
+LITL_DEFINE_FITS_PIXEL(int, LONG_IMG, TINT)
+LITL_DEFINE_FITS_PIXEL(unsigned int, ULONG_IMG, TUINT)
+LITL_DEFINE_FITS_PIXEL(long, sizeof(long) == 4 ? LONG_IMG : LONGLONG_IMG, TLONG)
+LITL_DEFINE_FITS_PIXEL(unsigned long, sizeof(long) == 4 ? ULONG_IMG : ULONGLONG_IMG, TULONG)
+LITL_DEFINE_FITS_PIXEL(long long, LONGLONG_IMG, TLONGLONG)
+LITL_DEFINE_FITS_PIXEL(unsigned long long, ULONGLONG_IMG, TULONGLONG)
+LITL_DEFINE_FITS_PIXEL(float, FLOAT_IMG, TFLOAT)
+LITL_DEFINE_FITS_PIXEL(double, DOUBLE_IMG, TDOUBLE)
+
+#undef LITL_DEFINE_FITS_PIXEL
+
 class Fits {
 
 public:
@@ -27,7 +61,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        FitsPixel<std::decay_t<typename TRaster::Value>>::datatype(),
         1,
         out.size(),
         nullptr,
@@ -46,13 +80,13 @@ public:
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        FitsPixel<std::decay_t<typename TRaster::Value>>::bitpix(),
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        FitsPixel<std::decay_t<typename TRaster::Value>>::datatype(),
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From 2338b99f802c92878d3e1baa06d81ce8c5de8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 50/63] fix: FITS errors were ignored and corrupted subsequent
 operations

---
 LitlIo/LitlIo/Fits.h | 69 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index 79da1b3..9cd00b7 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -6,7 +6,9 @@
 #define _LITLIO_FITS_H
 
 #include "LitlRaster/Raster.h"
+#include "LitlTypes/Exceptions.h"
 
+#include <algorithm> // fill
 #include <fitsio.h>
 #include <string>
 #include <type_traits> // decay_t, is_signed
@@ -51,13 +53,32 @@ class Fits {
 public:
   Fits(const std::string& filename) : m_filename(filename), m_fptr(nullptr), m_status(0) {}
 
+  /**
+   * @brief Read the image.
+   * 
+   * Trailing axes of length 1 are appended if the image dimension is lower than that of the raster.
+   * An exception is thrown if the image cannot be read or is of higher dimension.
+   */
   template <typename TRaster>
   TRaster read() {
     int naxis = 0;
+    m_status = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
+    Closer closer {*this};
+    throwOnError("Cannot open file");
     fits_get_img_dim(m_fptr, &naxis, &m_status);
-    Position<TRaster::Dimension> shape(naxis);
+    throwOnError("Cannot read image dimension");
+    constexpr Index dimension = TRaster::Dimension;
+    if (naxis < 1 || (dimension >= 0 && naxis > dimension)) {
+      throw Exception(
+          "FITS error",
+          m_filename + ": Cannot read image of dimension " + std::to_string(naxis) + " as raster of dimension " +
+              std::to_string(dimension));
+    }
+    Position<TRaster::Dimension> shape(dimension >= 0 ? dimension : naxis);
+    std::fill(shape.begin(), shape.end(), 1);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    throwOnError("Cannot read image shape");
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -68,15 +89,21 @@ public:
         out.data(),
         nullptr,
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    throwOnError("Cannot read image");
     return out;
   }
 
+  /**
+   * @brief Write an image to a new file.
+   * 
+   * An exception is thrown if the file already exists or cannot be written.
+   */
   template <typename TRaster>
   void write(TRaster raster) { // FIXME const
+    m_status = 0;
     fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
+    Closer closer {*this};
+    throwOnError("Cannot create file");
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
@@ -84,6 +111,7 @@ public:
         raster.dimension(),
         shape.data(),
         &m_status);
+    throwOnError("Cannot create image");
     fits_write_img(
         m_fptr,
         FitsPixel<std::decay_t<typename TRaster::Value>>::datatype(),
@@ -91,12 +119,39 @@ public:
         raster.size(),
         raster.data(),
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    throwOnError("Cannot write image");
+    closer.close();
+    throwOnError("Cannot close file");
   }
 
 private:
+  /**
+   * @brief Close the file at end of scope.
+   */
+  struct Closer {
+    ~Closer() {
+      close();
+    }
+    void close() {
+      if (fits.m_fptr) {
+        fits_close_file(fits.m_fptr, &fits.m_status);
+        fits.m_fptr = nullptr;
+      }
+    }
+    Fits& fits;
+  };
+
+  /**
+   * @brief Throw if some CFITSIO function failed.
+   */
+  void throwOnError(const std::string& message) const {
+    if (m_status != 0) {
+      char text[FLEN_STATUS];
+      fits_get_errstatus(m_status, text);
+      throw Exception("FITS error", m_filename + ": " + message + " (" + text + ")");
+    }
+  }
+
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From 3685b032473d86219d40b7cc6442b55bec152d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 51/63] fix: post-increment operators of region iterators
 returned the next element

---
 LitlRaster/LitlRaster/BallIterator.h      | 6 ++++--
 LitlRaster/LitlRaster/BoxIterator.h       | 6 ++++--
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..724c4d7 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -42,8 +42,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto res = *this;
+    next();
+    return res;
   }
 
   bool operator==(const Iterator& rhs) const {
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 9ef81dc..6bba8fd 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -58,8 +58,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto res = *this;
+    next();
+    return res;
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 6c00c8c..a4bd13d 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -48,8 +48,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto res = *this;
+    next();
+    return res;
   }
 
   /**
-- 
2.43.0


From da335a79a616310302a1f8b5c3653ba94ff01a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 52/63] fix: SeparableKernel::laplacian() did not compile

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index e988a41..6a23b87 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -41,7 +41,9 @@ public:
   /**
    * @brief Map-based constructor.
    */
-  template <typename... Ts>
+  template <
+      typename... Ts,
+      std::enable_if_t<std::is_constructible<std::map<Index, LineKernel<T>>, Ts&&...>::value>* = nullptr>
   explicit SeparableKernel(Ts&&... args) : m_kernels(std::forward<Ts>(args)...) {}
 
   /**
-- 
2.43.0


From d28789dbdef46712cf3acbb317d99bcf0ebf7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:35 +0000
Subject: [PATCH 53/63] fix: overflow of the median of an even number of
 integers

---
 LitlTransforms/LitlTransforms/MedianFilter.h       | 2 +-
 LitlTransforms/LitlTransforms/StructuringElement.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 8299850..e68a747 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -95,7 +95,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    return (*std::max_element(b, n) + *n) * .5;
+    return *std::max_element(b, n) * .5 + *n * .5; // The sum could overflow
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index e8e26e8..8f672fe 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -110,7 +110,7 @@ private:
     if (size % 2 == 1) {
       return *n;
     }
-    return (*std::max_element(b, n) + *n) * .5;
+    return *std::max_element(b, n) * .5 + *n * .5; // The sum could overflow
   }
 
   T neighborsMin() {
-- 
2.43.0


From 1edbf78bd896b1a8118188e2217452fed0885163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 54/63] fix: elapsed times of pipeline steps depended on
 changes of the system clock

high_resolution_clock is system_clock with libstdc++, which can be set back while a step is being evaluated.
---
 LitlRun/LitlRun/StepperPipeline.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/StepperPipeline.h b/LitlRun/LitlRun/StepperPipeline.h
index d9b2582..8226836 100644
--- a/LitlRun/LitlRun/StepperPipeline.h
+++ b/LitlRun/LitlRun/StepperPipeline.h
@@ -180,9 +180,9 @@ private:
   template <typename S>
   typename S::Return evaluateGet() {
     if (not evaluated<S>()) { // FIXME not thread-safe
-      const auto start = std::chrono::high_resolution_clock::now();
+      const auto start = std::chrono::steady_clock::now();
       Accessor<S>::evaluate(derived());
-      const auto stop = std::chrono::high_resolution_clock::now();
+      const auto stop = std::chrono::steady_clock::now();
       m_milliseconds[key<S>()] = std::chrono::duration<double, std::milli>(stop - start).count();
     }
     return Accessor<S>::get(derived());
-- 
2.43.0


From 4ea3deff9436bf0a5cefc026555bfe22f3c12baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 55/63] fix: flags swallowed the following positional argument

A boolean value with implicit_value() takes the next token as its value if it is not an option.
---
 LitlRun/LitlRun/ProgramOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index ef30d1d..2038987 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -109,7 +109,7 @@ public:
    * @brief Declare a flag option.
    */
   void flag(const char* name, const char* description) {
-    named(name, boost::program_options::value<bool>()->default_value(false)->implicit_value(true), description);
+    named(name, boost::program_options::bool_switch(), description);
   }
 
   /**
-- 
2.43.0


From 8efa8b6667f9e3b47d6a4031d7c0c2d62e56e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:13 +0000
Subject: [PATCH 56/63] fix: message of out of bounds errors glued the name and
 the value

The documented form is 'name: <value> not in [<min>, <max>]'.
---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 0a12817..1cc1a6a 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -102,7 +102,7 @@ public:
   OutOfBoundsError(const std::string& name, T value, std::pair<T, T> bounds) :
       Exception(
           "Out of bounds error",
-          name + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
+          name + ": " + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
               std::to_string(bounds.second) + "]") {}
 
   /**
-- 
2.43.0


From f9e399b40fe74840da73369751f93f7669088a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:34 +0000
Subject: [PATCH 57/63] fix: access matrix elements instead of returning their
 index

---
 LitlRaster/LitlRaster/Matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 661c878..4d50ede 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -99,14 +99,14 @@ public:
    * @brief Access element at given row and column.
    */
   inline const T& operator()(Index row, Index column) const {
-    return column + Columns * row;
+    return (*this)[column + Columns * row];
   }
 
   /**
    * @copybrief operator()()
    */
   inline T& operator()(Index row, Index column) {
-    return const_cast<T&>(const_cast<const Matrix&>(*this)->at(row, column));
+    return (*this)[column + Columns * row];
   }
 
   /**
@@ -114,7 +114,7 @@ public:
    */
   template <Index R, Index C>
   const T& at() const {
-    return C + Columns * R;
+    return (*this)[C + Columns * R];
   }
 
   /// @group_operations
-- 
2.43.0


From eb424a1db059237cb9ff931ab6a7ccb90fe7f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:34 +0000
Subject: [PATCH 58/63] fix: return the matrix shape by value, not a reference
 to a temporary

---
 LitlRaster/LitlRaster/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 4d50ede..03e4bfd 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -89,7 +89,7 @@ public:
   /**
    * @brief Get the matrix shape.
    */
-  const Position<2>& shape() const {
+  Position<2> shape() const {
     return {N, M};
   }
 
-- 
2.43.0


From 834e831d4e9aa69061fc59120eddda9fbe099d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:35 +0000
Subject: [PATCH 59/63] fix: do not map the elements of the source in a copied
 matrix

---
 LitlRaster/LitlRaster/Matrix.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 03e4bfd..4ada89b 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -57,7 +57,7 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit Matrix() : Container(N * M), m_eigen(this->data()) {}
+  explicit Matrix() : Container(N * M) {}
 
   /**
    * @brief Create the identity matrix.
@@ -120,20 +120,29 @@ public:
   /// @group_operations
 
   T determinant() const {
-    return m_eigen.determinant();
+    return eigen(this->data()).determinant();
   }
 
   /// @group_modifier
 
   Matrix& inverse() {
-    m_eigen.inverse();
+    eigen(this->data()).inverse();
     return *this;
   }
 
   /// @}
 
 private:
-  Eigen::Map<Eigen::Matrix<T, N, M, Eigen::RowMajor>> m_eigen;
+  /**
+   * @brief Map data as an Eigen matrix.
+   * @details
+   * The map is made on demand for copies not to refer to the data of their source.
+   */
+  template <typename U>
+  static auto eigen(U* data) {
+    using EigenMatrix = Eigen::Matrix<T, N, M, Eigen::RowMajor>;
+    return Eigen::Map<std::conditional_t<std::is_const<U>::value, const EigenMatrix, EigenMatrix>>(data);
+  }
 };
 
 } // namespace Litl
-- 
2.43.0


From 5f6de41ccb29951f3b248edd61329ccdfffe2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 60/63] fix: replace a matrix by its inverse

---
 LitlRaster/LitlRaster/Matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 4ada89b..53fce8f 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -10,6 +10,7 @@
 #include "LitlTypes/Exceptions.h"
 
 #include <eigen3/Eigen/Core>
+#include <eigen3/Eigen/LU>
 
 namespace Litl {
 
@@ -126,7 +127,8 @@ public:
   /// @group_modifier
 
   Matrix& inverse() {
-    eigen(this->data()).inverse();
+    auto map = eigen(this->data());
+    map = map.inverse().eval();
     return *this;
   }
 
-- 
2.43.0


From 56894e94fc9668ffc683f4a4da3175c9c110bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:59 +0000
Subject: [PATCH 61/63] fix: DataDistribution::variance() was lost to
 cancellation

---
 LitlContainer/LitlContainer/DataDistribution.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 88b6938..4650704 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -8,6 +8,7 @@
 #include "LitlTypes/TypeUtils.h"
 
 #include <algorithm>
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -45,11 +46,9 @@ public:
    * @brief Vector-move constructor.
    */
   explicit DataDistribution(std::vector<T>&& values) :
-      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += Floating(v) * Floating(v);
     }
   }
 
@@ -122,7 +121,10 @@ public:
    */
   Floating variance(bool unbiased = true) {
     const auto m = mean();
-    return (m_sum2 - m * m_sum) / Floating(size() - unbiased);
+    const auto s2 = std::accumulate(m_values.begin(), m_values.end(), Floating(0), [=](Floating s, const T& v) {
+      return s + (Floating(v) - m) * (Floating(v) - m);
+    });
+    return s2 / Floating(size() - unbiased);
   }
 
   /**
@@ -211,11 +213,6 @@ private:
    * @brief The cached sum.
    */
   Floating m_sum;
-
-  /**
-   * @brief The cached sum of squares.
-   */
-  Floating m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From b14bea61efa66bcf6751f8441a9ecc324b7e8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:49 +0000
Subject: [PATCH 62/63] fix: AlignedBuffer ignored allocation failures

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 31 ++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 305a605..73cab1b 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -10,6 +10,9 @@
 
 #include <algorithm> // copy_n
 #include <cstdint> // uintptr_t
+#include <cstdlib> // malloc
+#include <limits>
+#include <new> // bad_alloc
 #include <sstream>
 
 namespace Litl {
@@ -118,7 +121,7 @@ public:
     if (m_data) {
       AlignmentError::mayThrow(m_data, m_as);
     } else {
-      m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+      m_container = allocate(m_size, m_as);
       m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
     }
   }
@@ -152,16 +155,15 @@ public:
         return *this;
       }
       reset();
-      m_size = other.m_size;
-      m_as = other.m_as;
       if (other.owns()) {
-        m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
-        m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
-        std::copy_n(other.m_data, m_size, m_data);
+        m_container = allocate(other.m_size, other.m_as);
+        m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (other.m_as - 1)) & ~(other.m_as - 1));
+        std::copy_n(other.m_data, other.m_size, m_data);
       } else {
-        m_container = other.m_container;
         m_data = other.m_data;
       }
+      m_size = other.m_size;
+      m_as = other.m_as;
     }
     return *this;
   }
@@ -262,6 +264,21 @@ public:
   }
 
 private:
+  /**
+   * @brief Allocate enough memory for aligning the given number of elements.
+   */
+  static void* allocate(std::size_t size, std::size_t as) {
+    if (size > (std::numeric_limits<std::size_t>::max() - as) / sizeof(T)) {
+      throw std::bad_alloc();
+    }
+    const auto bytes = sizeof(T) * size + as - 1;
+    void* out = std::malloc(bytes);
+    if (not out && bytes > 0) {
+      throw std::bad_alloc();
+    }
+    return out;
+  }
+
   static std::size_t alignAs(const void* data, std::size_t align) {
     constexpr std::size_t simd = 64; // 64 for AVX512; TODO detect?
     switch (align) {
-- 
2.43.0


From 8ec37994b96e6833c2d3201204ec49b3f8b3fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:03 +0000
Subject: [PATCH 63/63] fix: histogram() with a single bound wrote to an empty
 output

---
 LitlContainer/LitlContainer/DataDistribution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 4650704..78b6b0a 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -179,7 +179,7 @@ public:
       }
       ++countIt;
     }
-    while (it != m_values.end() && *it == bins.back()) {
+    while (not out.empty() && it != m_values.end() && *it == bins.back()) {
       ++out.back();
       ++it;
     }
-- 
2.43.0

