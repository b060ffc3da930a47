From a7d832a3a723693332266734467c257bad4666de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 01/11] fix: Heap move constructor moves the tree of the source
 heap

---
 src/mathic/Heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From 8fcf822f75c593214de6df5b1bdd4e2d8492a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 02/11] fix: ComTree move constructor empties the source and
 keeps the entries

---
 src/mathic/ComTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
-- 
2.43.0


From 76a6d131c467f7d5fb3e401a13f80d5a51eb425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 03/11] fix: Geobucket::clear leaves no bucket with a stale
 position in the front

---
 src/mathic/Geobucket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..654d57d 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -437,8 +437,10 @@ namespace mathic {
 	MATHIC_ASSERT(isValid());
     _entryCount = 0;
     _front.clear();
-    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket)
+    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket) {
       bucket->clear();
+      bucket->setFrontToken(0); // the front no longer refers to bucket
+    }
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 28d2f9b9d9d6fdde774b72d89c7cf6a4745bde69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 04/11] fix: pushing an empty range onto a Geobucket changes
 nothing

---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 654d57d..72f9431 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return;
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	_entryCount += entryCount;
-- 
2.43.0


From 6a1ff10fd5ec600f9ee470f43c1f52ee17c198de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 05/11] fix: KDTree::removeElement updates size and divisor
 cache and compiles for binary trees

---
 src/mathic/BinaryKDTree.h | 15 +++++++++++----
 src/mathic/KDTree.h       |  5 ++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..f802c02 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -288,12 +288,19 @@ namespace mathic {
   bool BinaryKDTree<C>::removeElement(const Monomial& monomial) {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
-      return 0;
+      return false;
     Node* node = _root;
 
-    while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+    while (node->isInterior()) {
+      Interior& interior = node->asInterior();
+      if (interior.getExponent() <
+          _conf.getExponent(monomial, interior.getVar()))
+        node = &interior.getStrictlyGreater();
+      else
+        node = &interior.getEqualOrLess();
+    }
+    const bool value =
+      node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..0f344eb 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -172,7 +172,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      const bool removed = _tree.removeElement(monomial);
+      if (removed)
+        reportChanges(0, 1);
+      return removed;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From de78d9383803ca4f09194f96f542841cc768fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 06/11] fix: inserting a range into a KDTree compiles and
 counts the entries

---
 src/mathic/KDTree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 0f344eb..813dc2a 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -157,13 +157,14 @@ namespace mathic {
       const size_t inserted = std::distance(begin, end); 
       if (!empty()) {
         for (; begin != end; ++begin)
-          _tree.insert(*begin);
+          insert(*begin);
       } else {
-        _tree.insert(begin, end);
+        _divMaskCalculator.rebuild(begin, end, getConfiguration());
+        _tree.reset(begin, end, _divMaskCalculator);
+        _size = inserted;
         // insert into empty container is equivalent to rebuild
         resetNumberOfChangesTillRebuild();
       }
-      reportChanges(inserted, 0);
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 90902f1741b13aaa065e386b6bcb1b1bd295c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 07/11] fix: KDTree::clear compiles and leaves an empty tree

---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 813dc2a..f94ebf9 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -240,8 +240,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From 88382eb51bc9a8caab6ac6ba531fbfe8f49365e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 08/11] fix: HashTable::remove compiles

---
 src/mathic/HashTable.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..193112d 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -238,17 +238,13 @@ namespace mathic {
   void HashTable<C>::remove(Handle *& p) 
   {
     mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next) 
       {
-	if (q->next == p) 
+	if (*q == p) 
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From 4df96954b3a5abbbc758cbcee11ff1859d03a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 09/11] fix: ColumnPrinter does not read past the largest unit

---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..053d4ac 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -242,7 +242,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is at 999.5 because that value will get
       // rounded to 1000.0.
-	  for (i = 0; i < unitCount && amount >= 999.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 999.95; ++i)
         amount /= 1000.0;
 	  out << oneDecimal(amount) << units[i];
     }
@@ -260,7 +260,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is 1023.95 because that value will get
       // rounded to 1024.0.
-	  for (i = 0; i < unitCount && amount >= 1023.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 1023.95; ++i)
         amount /= 1024.0;
 	  out << oneDecimal(amount) << units[i];
     }
-- 
2.43.0


From 3fb40e695206ccef50565de74d84a949f111fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 10/11] fix: ColumnPrinter::percentInteger does not overflow
 for large numerators

---
 src/mathic/ColumnPrinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index 053d4ac..dac9594 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,10 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    // as doubles, since numerator * 100 might not fit
+    return oneDecimal(static_cast<double>(numerator) * 100 / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From f087063504fa52323ef5ea2abbbaed5f6bbe7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 11/11] fix: PairQueue destructs pair data with the row it was
 computed for

---
 src/mathic/PairQueue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..aa3cafd 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -467,12 +467,14 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
+	// mPairData holds data for this row until it is recomputed below.
+	Index const oldRow = rowIndex();
 	if (big()) {
 	  do {
 		++bigBegin;
 		if (bigBegin == bigEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
@@ -481,7 +483,7 @@ namespace mathic {
 		++smallBegin;
 		if (smallBegin == smallEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-- 
2.43.0

