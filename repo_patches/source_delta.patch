From ed7f4c931216cee3f12d72dd4fbeca5e45f6f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:58 +0000
Subject: [PATCH 01/23] fix: update the element mapper in
 MorleyPreBasis::update()

---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..2b00f37 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(gv);
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From 119038f8c52becfeb44c0e346fd863028eaa1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:58 +0000
Subject: [PATCH 02/23] fix: store the new grid view in
 TaylorHoodPreBasis::update()

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..4a0d1f1 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From ce4729ead07766826d4374300e1eda010e78b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 03/23] fix: keep the local basis of a transformed finite
 element attached to its own element on assignment

---
 .../functionspacebases/transformedfiniteelementmixin.hh     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..3e00143 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,12 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    // The local basis always refers to the finite element it is a part of
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const&)
+    {
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From ed428399d6e8678a0a9a73a04a31f6bd8d591d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 04/23] fix: deep copy in DefaultLocalView copy assignment

---
 .../functionspacebases/defaultlocalview.hh      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..439333f 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -9,6 +9,7 @@
 
 
 #include <tuple>
+#include <type_traits>
 #include <optional>
 
 #include <dune/common/concept.hh>
@@ -87,6 +88,22 @@ public:
       bind(other.element());
   }
 
+  /** \brief Deep copy of the local view */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+  requires (std::is_move_assignable_v<Tree>)
+  {
+    if (this != &other)
+    {
+      globalBasis_ = other.globalBasis_;
+      tree_ = globalBasis_->preBasis().makeNode();
+      initializeTree(tree_);
+      unbind();
+      if (other.bound())
+        bind(other.element());
+    }
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From 591c9af09e75b6cce5ed7b38114016e1c6c6084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 05/23] fix: coarse element of copied GeometryInAncestor and
 missing return in bind()

---
 dune/functions/common/geometryinancestor.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From 5902673ab60ec1e1d04e66cb86553cc29743a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 06/23] fix: copies of a local CoarseFunctionOnFineGridView
 refer to their own element

---
 .../gridfunctions/coarsefunctiononfinegridview.hh      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 8a64ebb..29b4791 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -96,7 +96,15 @@ private:
       : element_(element)
       , localFunction_(localFunction)
       , coarseEntitySet_(coarseEntitySet)
-      , geometryInAncestor_(geometryInAncestor, *element_)
+      , geometryInAncestor_(element_ ? GeometryInAncestor(geometryInAncestor, *element_) : GeometryInAncestor())
+    {}
+
+    //! Copy construction, the copy refers to its own copy of the element
+    CoarseLocalFunctionOnFineGridView(const CoarseLocalFunctionOnFineGridView& other)
+      : element_(other.element_)
+      , localFunction_(other.localFunction_)
+      , coarseEntitySet_(other.coarseEntitySet_)
+      , geometryInAncestor_(element_ ? GeometryInAncestor(other.geometryInAncestor_, *element_) : GeometryInAncestor())
     {}
 
     //! Bind to an element from the GridView
-- 
2.43.0


From fac6330e978e0165d0e16d29cb3cdb169b7e50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 07/23] fix: copying an empty PolymorphicSmallObject and
 exception safety of its copy assignment

---
 dune/functions/common/polymorphicsmallobject.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..e64d0ba 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -155,6 +155,9 @@ private:
         p_->~Base();
       else
         delete p_;
+      // Leave pointer in a clean state in case that
+      // storing a new object fails with an exception.
+      p_ = nullptr;
     }
   }
 
@@ -181,8 +184,10 @@ private:
   {
     if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
-    else
+    else if (other)
       p_ = other.p_->clone();
+    else
+      p_ = nullptr;
   }
 
   alignas(bufferAlignment) std::byte buffer_[actualBufferSize];
-- 
2.43.0


From 272aff81cc1488c3ee7ecc99d46598dc4049c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:26 +0000
Subject: [PATCH 08/23] fix: local functions of coarse/fine grid view adaptors
 own their entity set

---
 dune/functions/gridfunctions/coarsefunctiononfinegridview.hh | 2 +-
 dune/functions/gridfunctions/finefunctiononcoarsegridview.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 29b4791..f3a9c06 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -151,7 +151,7 @@ private:
   private:
     std::optional<Element> element_;
     RawLocalFunction localFunction_;
-    const CoarseEntitySet& coarseEntitySet_;
+    CoarseEntitySet coarseEntitySet_;
     GeometryInAncestor geometryInAncestor_;
   };
 
diff --git a/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh b/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
index c7836d4..570c6ea 100644
--- a/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
+++ b/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
@@ -239,7 +239,7 @@ private:
 
     std::optional<Element> element_;
     mutable RawLocalFunction localFunction_;
-    const FineEntitySet& fineEntitySet_;
+    FineEntitySet fineEntitySet_;
     bool forwardToFineFunction_ = false;
   };
 
-- 
2.43.0


From d745a6899b47684a66a272039baa675ff15f14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 09/23] fix: container descriptors of static and dynamic power
 bases

Flat merging of static arrays passed an integer sequence where an index
was expected and did not compile; merging a tuple a dynamic number of
times has no container type and is Unknown.
---
 .../containerdescriptors.hh                   | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..4b8022d 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -347,10 +345,16 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
 template<class N, class... GrandChild>
 auto flatLexicographicN (N n, Tuple<GrandChild...> child)
 {
-  constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i%m>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // With a dynamic number of copies the number of differently typed children is unknown at compile time
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+  {
+    constexpr std::size_t m = sizeof...(GrandChild);
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i%m>(child)...);
+    }, std::make_index_sequence<n*m>{});
+  }
 }
 
 //! Concatenate descriptor n-times by flat interleaved merging wrt first digit
@@ -404,11 +408,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -416,10 +418,16 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
 template<class N, class... GrandChild>
 auto flatInterleavedN (N n, Tuple<GrandChild...> child)
 {
-  constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i/n>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // With a dynamic number of copies the number of differently typed children is unknown at compile time
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+  {
+    constexpr std::size_t m = sizeof...(GrandChild);
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i/n>(child)...);
+    }, std::make_index_sequence<n*m>{});
+  }
 }
 
 } // end namespace Impl
-- 
2.43.0


From b3a7d59bcc6e8e28ac0a7c13b12757437fad7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 10/23] fix: do not deduce the block type from the single child
 of an array descriptor

BlockVector{w} with CTAD copies a child vector instead of wrapping it.
---
 dune/functions/backends/istlvectorfactory.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/backends/istlvectorfactory.hh b/dune/functions/backends/istlvectorfactory.hh
index 5df1bb2..021ce7d 100644
--- a/dune/functions/backends/istlvectorfactory.hh
+++ b/dune/functions/backends/istlvectorfactory.hh
@@ -39,8 +39,9 @@ struct ISTLVectorFactory
   template<class V, std::size_t n>
   auto operator() (const Array<V,n>& tree) const
   {
+    using W = decltype((*this)(tree[0]));
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{(*this)(tree[ii])...};
+      return Dune::BlockVector<W>{(*this)(tree[ii])...};
     }, std::make_index_sequence<n>());
   }
 
@@ -58,8 +59,9 @@ struct ISTLVectorFactory
   auto operator() (const UniformArray<V,n>& tree) const
   {
     auto node = (*this)(tree[0]);
+    using W = decltype(node);
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{((void)(ii),node)...};
+      return Dune::BlockVector<W>{((void)(ii),node)...};
     }, std::make_index_sequence<n>());
   }
 
-- 
2.43.0


From 109d223dbbe624692320254fcb080b683674808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 11/23] fix: unify chains of periodic indices and describe the
 mapped container

Index pairs that share an index were unified pairwise only and the
container descriptor was that of the unmapped basis.
---
 .../functionspacebases/periodicbasis.hh       | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..9836271 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -7,9 +7,10 @@
 #ifndef DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 #define DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 
+#include <algorithm>
+#include <numeric>
 #include <utility>
 #include <type_traits>
-#include <limits>
 #include <set>
 #include <vector>
 
@@ -85,20 +86,25 @@ public:
   PeriodicIndexingTransformation(const RawPreBasis& rawPreBasis, const IndexPairSet& indexPairSet)
   {
     static_assert(RawPreBasis::maxMultiIndexSize==1, "PeriodicIndexingTransformation is only implemented for flat multi-indices");
-    std::size_t invalid = {std::numeric_limits<std::size_t>::max()};
-    mappedIdx_.resize(rawPreBasis.size(), invalid);
-    numIndices_ = 0;
-    std::size_t i = 0;
+    // Determine the classes of identified indices: parent[i] <= i is another
+    // index of the same class, or i itself if i is the smallest one.
+    auto parent = std::vector<std::size_t>(rawPreBasis.size());
+    std::iota(parent.begin(), parent.end(), std::size_t(0));
+    auto smallest = [&](std::size_t i) {
+      while (parent[i] != i)
+        i = parent[i];
+      return i;
+    };
     for(const auto& [a, b] : indexPairSet)
     {
-      for(; i<=a; ++i)
-        if (mappedIdx_[i] == invalid)
-          mappedIdx_[i] = numIndices_++;
-      mappedIdx_[b] = mappedIdx_[a];
+      auto [min, max] = std::minmax({smallest(a), smallest(b)});
+      parent[max] = min;
     }
-    for(; i<rawPreBasis.size(); ++i)
-      if (mappedIdx_[i] == invalid)
-        mappedIdx_[i] = numIndices_++;
+    // Number the classes consecutively
+    mappedIdx_.resize(rawPreBasis.size());
+    numIndices_ = 0;
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = (parent[i] == i) ? numIndices_++ : mappedIdx_[parent[i]];
   }
 
   template<class MultiIndex, class PreBasis>
@@ -125,7 +131,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return Dune::Functions::ContainerDescriptors::FlatVector(numIndices_);
   }
 
 private:
-- 
2.43.0


From 6a667557c50e63dbbcb0ced04164a1638922d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 12/23] fix: hybrid Taylor-Hood indices end with the component,
 not with the shape function

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 4a0d1f1..54891cf 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -263,7 +263,7 @@ protected:
       for (std::size_t i = 0; i<subTreeSize; ++i)
       {
         multiIndexPushFront(multiIndices[i], 0);
-        multiIndices[i].push_back(i);
+        multiIndices[i].push_back(child);
       }
       multiIndices += subTreeSize;
     }
-- 
2.43.0


From c67a0d450a573a6dd3e48090fcf60e4a110e23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 13/23] fix: ReservedDeque initializer list constructor and
 wrap-around in push_back

---
 dune/functions/common/reserveddeque.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..fe194a2 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -81,6 +81,7 @@ namespace Functions {
     ReservedDeque(std::initializer_list<T> const &l)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
+      first_ = 0;
       size_ = l.size();
       std::copy_n(l.begin(), size_, data_);
     }
@@ -107,7 +108,7 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_++) % n] = t;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From 4ef80dc15b9a34c03f121f1584354efae1c03cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 14/23] fix: OverflowArray::push_front shifts back to front and
 grows

---
 dune/functions/common/overflowarray.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..40347a7 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -125,8 +125,9 @@ public:
    */
   void push_front(const value_type& t) {
     assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
+    size_++;
+    for (size_type i=size()-1; i>0; i--)
+      (*this)[i] = (*this)[i-1];
     (*this)[0] = t;
   }
 
-- 
2.43.0


From 5e9f1eae08e84d2468dc0731d0b570c38df23966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 15/23] fix: makePolynomial(initializer_list) deduces a
 constructible coefficient container

---
 dune/functions/analyticfunctions/polynomial.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/analyticfunctions/polynomial.hh b/dune/functions/analyticfunctions/polynomial.hh
index 8d03608..594ba14 100644
--- a/dune/functions/analyticfunctions/polynomial.hh
+++ b/dune/functions/analyticfunctions/polynomial.hh
@@ -280,7 +280,7 @@ auto makePolynomial(Coefficients coefficients)
 template<class K, class C>
 auto makePolynomial(std::initializer_list<C> coefficients)
 {
-  return Polynomial<K>(std::move(coefficients));
+  return Polynomial<K, std::vector<C>>(std::vector<C>(coefficients));
 }
 
 
-- 
2.43.0


From f968223b4ae997aa009704d84feca0478f5d5d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 16/23] fix: SubDomainGridView iterator returned a reference to
 a temporary

Host iterators may dereference to a temporary entity.
---
 dune/functions/common/subdomain.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dune/functions/common/subdomain.hh b/dune/functions/common/subdomain.hh
index 0104252..e051e77 100644
--- a/dune/functions/common/subdomain.hh
+++ b/dune/functions/common/subdomain.hh
@@ -380,7 +380,6 @@ namespace Dune::Functions::Experimental {
     template<PartitionIteratorType pit>
     class ElementIterator
     {
-      using Element = typename HGV::template Codim<0>::Entity;
     public:
 
       using HostElementIterator = typename HGV::template Codim<0>::template Partition<pit>::Iterator;
@@ -402,7 +401,7 @@ namespace Dune::Functions::Experimental {
         return *this;
       }
 
-      const Element& operator*() const
+      decltype(auto) operator*() const
       {
         return *hostIt_;
       }
-- 
2.43.0


From b0ad33d03c332074411442beb2352262a43acdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 17/23] fix: BrezziDouglasMariniPreBasis: reserve as many
 interior indices as the local finite element has

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..3786dd5 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -173,7 +173,7 @@ class BrezziDouglasMariniPreBasis :
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isCube() ? (k-1)*k : (k-1)*(k+1);
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From ef68d3ef51df74d43c0cb26497e83f38f9dc2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:44 +0000
Subject: [PATCH 18/23] fix: GlobalValuedLocalBasis::partial() takes a
 multi-index of the dimension of the domain

---
 .../functionspacebases/globalvaluedlocalfiniteelement.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
index b9c62c3..683338d 100644
--- a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
+++ b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
@@ -298,7 +298,7 @@ namespace Dune::Functions::Impl
      * \param in Position where to evaluate the derivatives
      * \param[out] out The desired partial derivatives
      */
-    void partial(const std::array<unsigned int,2>& order,
+    void partial(const std::array<unsigned int,Traits::dimDomain>& order,
                  const typename Traits::DomainType& x,
                  std::vector<typename Traits::RangeType>& out) const
     {
-- 
2.43.0


From 71d8646cb8bd97a7d8d529fef0e2fbbe5351087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 19/23] fix: FunctionalDescriptor::isPartialDerivative() calls
 a nonexistent overload

---
 dune/functions/functionspacebases/functionaldescriptor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/functionaldescriptor.hh b/dune/functions/functionspacebases/functionaldescriptor.hh
index 5e67609..d150427 100644
--- a/dune/functions/functionspacebases/functionaldescriptor.hh
+++ b/dune/functions/functionspacebases/functionaldescriptor.hh
@@ -63,7 +63,7 @@ public:
   {
     for(auto i: Dune::range(dim))
     {
-      if (partialDerivativeOrder(i)>0)
+      if (partialDerivativeOrder_[i]>0)
         return true;
     }
     return false;
-- 
2.43.0


From 1915350dd47cea8cf1060962fcdcf99c193283ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:08 +0000
Subject: [PATCH 20/23] fix: CubicHermite in 1d: describe derivative
 functionals as partial, not normal, derivatives

---
 dune/functions/functionspacebases/cubichermitebasis.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 79e5da6..1930ba7 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -405,9 +405,9 @@ namespace Dune::Functions
         if constexpr (dim==1)
         {
           descriptors_[0] = FunctionalDescriptor();
-          descriptors_[1] = FunctionalDescriptor({1});
+          descriptors_[1] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
           descriptors_[2] = FunctionalDescriptor();
-          descriptors_[3] = FunctionalDescriptor({1});
+          descriptors_[3] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
         }
         if constexpr (dim==2)
         {
-- 
2.43.0


From 6ee874e736754700587b4eb969ec01b6646590c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:19 +0000
Subject: [PATCH 21/23] fix: CubicHermite in 1d interpolates functions with
 vector valued gradients

---
 dune/functions/functionspacebases/cubichermitebasis.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 1930ba7..64ec869 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -476,8 +476,12 @@ namespace Dune::Functions
           auto x = refElement.position(i, dim);
           auto&& derivativeValue = df(x);
           out[i * (dim +1)] = f(x);
-          for (int d = 0; d < dim; ++d)
-            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+          // In 1d squeezing the gradient of a scalar function may leave a scalar
+          if constexpr (requires { squeezeTensor(derivativeValue)[0]; })
+            for (int d = 0; d < dim; ++d)
+              out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+          else
+            out[i * (dim+1) + 1] = squeezeTensor(derivativeValue) * (*averageVertexMeshSize_)[i];
         }
 
         if constexpr (not reduced)
-- 
2.43.0


From 69a8adaefdae2f5e647e6ee5d9eb9c918d69aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 22/23] fix: bSpline() factory stores the knot vector instead
 of a reference to a possibly temporary one

---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9fba082..9be69fc 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -1290,7 +1290,7 @@ inline auto bSpline(const std::vector<double>& knotVector,
                     unsigned int order,
                     bool makeOpen = true)
 {
-  return [&knotVector, order, makeOpen](const auto& gridView) {
+  return [knotVector, order, makeOpen](const auto& gridView) {
     return BSplinePreBasis<std::decay_t<decltype(gridView)>>(gridView, knotVector, order, makeOpen);
   };
 }
-- 
2.43.0


From 86d537b743018733e540b8629fd98b7f9fd36349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 23/23] fix: B-spline local coefficients number the interior
 functions of an element consecutively

---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9be69fc..73136cd 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -295,7 +295,7 @@ public:
 
       for (int j=dim-1; j>=0; j--)
         if (mIdx[j]>0 and mIdx[j]<sizes[j]-1)
-          index[i] = (sizes[j]-1)*index[i] + (mIdx[j]-1);
+          index[i] = (sizes[j]-2)*index[i] + (mIdx[j]-1);
     }
 
     // Set up entity and dof numbers for each (supported) dimension separately
-- 
2.43.0

