From 0e69ad7fbdc28ee0f69594d4e7b4c75b91c12a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 001/158] fix: FlatTreeWriter releases its array with delete[]

---
 include/trident/tree/flatroot.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/tree/flatroot.h b/include/trident/tree/flatroot.h
index 5ce6274..483645a 100644
--- a/include/trident/tree/flatroot.h
+++ b/include/trident/tree/flatroot.h
@@ -11,13 +11,13 @@ class FlatRoot : public Root {
                 const bool unlabeled;
                 const bool undirected;
 		bool closeDone = false;
-                std::unique_ptr<char> zeros;
+                std::unique_ptr<char[]> zeros;
 
             public:
                 FlatTreeWriter(string f, bool unlabeled, bool undirected) :
                     unlabeled(unlabeled), undirected(undirected) {
                         ofs.open(f, ios_base::binary);
-                        zeros = std::unique_ptr<char>(new char[83]);
+                        zeros = std::unique_ptr<char[]>(new char[83]);
                         memset(zeros.get(), 0, 83);
                     }
 
-- 
2.43.0


From 0219211f0dc983f1d978768c81b3c7ae321d6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 002/158] fix: getCard does not answer from a table that
 outlives the querier and its updates

---
 src/trident/kb/querier.cpp | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index eef5b40..1127446 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -467,22 +467,6 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
     throw 10;
 }
 
-template <typename R, typename... Args>
-std::function<R (Args...)> memo(R (*fn)(Args...)) {
-    static std::map<std::tuple<Args...>, R> table;
-    return [fn](Args... args) mutable -> R {
-        auto argt = std::make_tuple(args...);
-        auto memoized = table.find(argt);
-        if(memoized == table.end()) {
-            auto result = fn(args...);
-            table[argt] = result;
-            return result;
-        } else {
-            return memoized->second;
-        }
-    };
-}
-
 int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
@@ -536,7 +520,7 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
 }
 
 int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
-    return memo(getCard_internal)(this, s, p, o);
+    return getCard_internal(this, s, p, o);
 }
 
 
-- 
2.43.0


From ee494f75afc250e4fd27b6696c3e3fd8a2e8021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 003/158] fix: seeking backwards on the last row of a reordered
 iterator keeps that row

---
 include/trident/iterators/reorderitr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/iterators/reorderitr.h b/include/trident/iterators/reorderitr.h
index 53de0ba..1b8f9ce 100644
--- a/include/trident/iterators/reorderitr.h
+++ b/include/trident/iterators/reorderitr.h
@@ -146,7 +146,7 @@ public:
     }
 
     LIBEXP void moveto(const int64_t c1, const int64_t c2) {
-        if (itr == NULL || ! itr->hasNext()) {
+        if (itr == NULL) {
 	    // Should itr == NULL even be allowed here?
 	    // Anyway, moveto should not move to a next key.
 	    return;
-- 
2.43.0


From fadcbc2cf31e768c66314dc9161073cd7e5b9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 004/158] fix: cardinality of a key whose second permutation
 was skipped

---
 src/trident/kb/querier.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 1127446..33fd914 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -456,6 +456,10 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
         }
 
         int64_t nElements = 0;
+        if (perm >= 3 && !currentValue.exists(perm)) {
+            //The table of this permutation might have been skipped
+            perm -= 3;
+        }
         if (currentValue.exists(perm)) {
             nElements += currentValue.getNElements(perm);
         }
@@ -492,8 +496,10 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             q->lastKeyQueried = key;
         }
         int64_t nElements = 0;
-        if (q->lastKeyFound && q->currentValue.exists(idx)) {
-            nElements += q->currentValue.getNElements(idx);
+        //The table of this permutation might have been skipped
+        const int idx2 = idx >= 3 && !q->currentValue.exists(idx) ? idx - 3 : idx;
+        if (q->lastKeyFound && q->currentValue.exists(idx2)) {
+            nElements += q->currentValue.getNElements(idx2);
         }
         for (size_t i = 0; i < q->diffIndices.size(); ++i) {
             nElements += q->diffIndices[i]->getCard(idx, key);
-- 
2.43.0


From dfcb6c7b39fbda243c41289e6ef124e65b7a386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 005/158] fix: lookups beyond the last key of a flat tree find
 nothing

---
 src/trident/tree/flatroot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/flatroot.cpp b/src/trident/tree/flatroot.cpp
index 2d38d22..33fc5f7 100644
--- a/src/trident/tree/flatroot.cpp
+++ b/src/trident/tree/flatroot.cpp
@@ -28,8 +28,11 @@ void FlatRoot::__set(int permid, char *block, TermCoordinates *value) {
 }
 
 bool FlatRoot::get(nTerm key, TermCoordinates *value) {
-    char *start = raw + key * sizeblock;
     value->clear();
+    if (key < 0 || (size_t) key >= len / sizeblock) {
+        return false;
+    }
+    char *start = raw + key * sizeblock;
     __set(IDX_SOP, start + 5, value);
     if (!unlabeled || !undirected) {
         __set(IDX_OSP, start + 18, value);
-- 
2.43.0


From 4d851bc7a76d320b3d8a0eb01ca4d9fd438c7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 006/158] fix: seeking in the rows of one first term stays
 within them

---
 include/trident/binarytables/newcolumntable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index c03a536..c64ab6d 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -423,6 +423,8 @@ class NewColumnTable: public AbsNewTable {
                         currentpos1 = startpos1;
                         nUniqueFirstTerms = 1;
                         nTerms = currentCount;
+                        //The group is read again from its first row
+                        scannedCounts = currentCount = 0;
                     } else {
                         //Make it fail
                         currentpos1 = startpos2;
-- 
2.43.0


From 3cf629b4c87b71ed588fae697652d4f16b8b244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 007/158] fix: cardinality of an aggregated iterator that was
 not advanced yet

---
 src/trident/iterators/aggritr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 8b76cf4..2b7c8b6 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -183,7 +183,7 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
 }
 
 uint64_t AggrItr::getCardinality() {
-    if (n) {
+    if (hasNext()) {
         if (noSecColumn) {
             return mainItr->getCardinality();
         } else {
@@ -200,7 +200,7 @@ uint64_t AggrItr::getCardinality() {
 }
 
 uint64_t AggrItr::estCardinality() {
-    if (n) {
+    if (hasNext()) {
         if (noSecColumn) {
             return mainItr->estCardinality();
         } else {
-- 
2.43.0


From 46d1f25ca290d68a705924da5e95aa14625fb95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 008/158] fix: stopping the StringBuffer compression thread
 cannot miss its wakeup

---
 include/trident/tree/stringbuffer.h |  8 --------
 src/trident/tree/stringbuffer.cpp   | 12 ++----------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/trident/tree/stringbuffer.h b/include/trident/tree/stringbuffer.h
index 2f956eb..6a2fe11 100644
--- a/include/trident/tree/stringbuffer.h
+++ b/include/trident/tree/stringbuffer.h
@@ -79,14 +79,6 @@ private:
     std::mutex _compressMutex;
     std::thread compressionThread;
 
-    //Used to check for termination
-    std::condition_variable compressTerm;
-    std::mutex _compressTerm;
-    bool threadRunning;
-    bool isThreadFinished() {
-        return !threadRunning;
-    }
-
     std::mutex sizeLock;
 
     int posBaseEntry;
diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bf7b716..a1d6e18 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -85,7 +85,6 @@ StringBuffer::StringBuffer(string dir, bool readOnly, int factorySize,
         addCache(0);
 
         //Start a compression thread
-        threadRunning = true;
         compressionThread = std::thread(
                                 std::bind(&StringBuffer::compressBlocks, this));
     }
@@ -173,7 +172,6 @@ void StringBuffer::addCache(int idx) {
 }
 
 void StringBuffer::compressBlocks() {
-    threadRunning = true;
     const int maxSize = LZ4_compressBound(SB_BLOCK_SIZE);
     char *compressedBuffer = new char[maxSize];
     while (true) {
@@ -220,8 +218,6 @@ void StringBuffer::compressBlocks() {
         fileLock.unlock();
     }
     delete[] compressedBuffer;
-    threadRunning = false;
-    compressTerm.notify_one();
 }
 
 void StringBuffer::setCurrentAsBaseEntry(int size) {
@@ -591,14 +587,10 @@ StringBuffer::~StringBuffer() {
         while (bufferToCompress != NULL) {
             compressWait.wait(lock);
         }
-        lock.unlock();
-
-        compressionThread.detach();
         bufferToCompress = FINISH_THREAD;
+        lock.unlock();
         compressWait.notify_one();
-
-        std::unique_lock<std::mutex> lock2(_compressTerm);
-        compressTerm.wait(lock2, std::bind(&StringBuffer::isThreadFinished, this));
+        compressionThread.join();
 
         sb.flush();
         sb.close();
-- 
2.43.0


From 8928bffd2c1ff1763f55393f3d0691c48f3c5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 009/158] fix: last block of a StringBuffer that ends on a
 block boundary

---
 src/trident/tree/stringbuffer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index a1d6e18..d0fe38e 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -377,7 +377,7 @@ void StringBuffer::uncompressBlock(int b) {
     char *uncompressedBuffer = factory.get();
     int sizeUncompressed = SB_BLOCK_SIZE;
     if (b == sizeCompressedBlocks.size() - 1) {
-        sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
+        sizeUncompressed = uncompressedSize - (int64_t) b * SB_BLOCK_SIZE;
     }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
                             uncompressedBuffer,
@@ -460,7 +460,7 @@ void StringBuffer::get(int64_t pos, char* outputBuffer, int &size) {
         outputBuffer += sizePrefix;
     }
 
-    if (start == SB_BLOCK_SIZE) {
+    if (start == SB_BLOCK_SIZE && sizeToCopy > 0) {
         start = 0;
         idxBlock++;
         block = getBlock(idxBlock);
@@ -578,8 +578,7 @@ int StringBuffer::cmp(int64_t pos, char *string, int sizeString) {
 
 StringBuffer::~StringBuffer() {
     if (!readOnly) {
-        int usedSize = uncompressedSize % SB_BLOCK_SIZE;
-        if (usedSize > 0) {
+        if (writingCurrentBufferSize > 0) {
             compressLastBlock();
         }
 
-- 
2.43.0


From b777ff088398d2519b701792ad3081ea7d3df321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 010/158] fix: a VALUES scan returns every row, also when it is
 executed again

---
 rdf3x/include/rts/operator/ValuesScan.hpp |  2 +-
 rdf3x/src/rts/ValuesScan.cpp              | 14 +++++---------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/rdf3x/include/rts/operator/ValuesScan.hpp b/rdf3x/include/rts/operator/ValuesScan.hpp
index f7c3de5..c33077d 100644
--- a/rdf3x/include/rts/operator/ValuesScan.hpp
+++ b/rdf3x/include/rts/operator/ValuesScan.hpp
@@ -15,7 +15,7 @@ class ValuesScan: public Operator
 {
     private:
         std::vector<Register*> regs;
-        const std::vector<uint64_t> &values;
+        const std::vector<uint64_t> values;
         unsigned processed, toBeProcessed;
 
 
diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..de5a4d2 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -18,22 +18,18 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
-    if (processed < toBeProcessed) {
-        for (auto v : regs) {
-            v->value = values[processed++];
-        }
-        return 1;
-    } else {
-        return 0;
-    }
+    processed = 0;
+    return next();
 }
 
 /// Produce the next tuple
 uint64_t ValuesScan::next() {
     if (processed < toBeProcessed) {
+        size_t pos = (size_t) processed * regs.size();
         for (auto v : regs) {
-            v->value = values[processed++];
+            v->value = values[pos++];
         }
+        processed++;
         return 1;
     } else {
         return 0;
-- 
2.43.0


From aa4f766befe8cbb22a098d754655ded18151271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 011/158] fix: sorting by the count of a row, and by a variable
 that is not kept

---
 rdf3x/src/rts/Sort.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index efe77ae..4d89dbc 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -31,7 +31,7 @@ class Sort::Sorter {
     public:
         /// Constructor
         Sorter(DBLayer& dict, const vector<Order>& order) : dict(dict), order(order),
-        buffer1(new char[MAX_TERM_SIZE]), buffer2(new char[MAX_TERM_SIZE]) {}
+        buffer1(new char[MAX_TERM_SIZE], std::default_delete<char[]>()), buffer2(new char[MAX_TERM_SIZE], std::default_delete<char[]>()) {}
 
         /// Compare
         bool operator()(const Tuple* a, const Tuple* b);
@@ -117,11 +117,11 @@ Sort::Sort(DBLayer& db, Operator* input, const vector<Register*>& values, const
     for (vector<pair<Register*, bool> >::const_iterator iter = registerOrder.begin(), limit = registerOrder.end(); iter != limit; ++iter) {
         if (!(*iter).first) {
             Order o;
-            o.slot = ~0u;
+            o.slot = UINT64_MAX;
             o.descending = (*iter).second;
             order.push_back(o);
         } else {
-            uint64_t slot = ~0u;
+            uint64_t slot = UINT64_MAX;
             for (uint64_t index = 0; index < values.size(); index++)
                 if ((*iter).first == values[index]) {
                     slot = index;
-- 
2.43.0


From 4fb818efcf5207e310b1fc19b98dc3f5bc5eda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 012/158] fix: BIND keeps the multiplicity of its input

---
 rdf3x/src/rts/Assignment.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rdf3x/src/rts/Assignment.cpp b/rdf3x/src/rts/Assignment.cpp
index 797a4cc..43905e1 100644
--- a/rdf3x/src/rts/Assignment.cpp
+++ b/rdf3x/src/rts/Assignment.cpp
@@ -28,26 +28,27 @@ void Assignment::print(PlanPrinter& out)
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::first() {
-    if (input->first() == 0)
-        return false;
+    uint64_t count = input->first();
+    if (count == 0)
+        return 0;
     for (size_t j = 0; j < inputArgs.size(); ++j) {
         if (inputArgs[j].reg != NULL)
             outputVars[j]->value = inputArgs[j].reg->value;
         else
             outputVars[j]->value = inputArgs[j].defaultValue;
     }
-    return true;
+    return count;
 }
 //---------------------------------------------------------------------------
 uint64_t Assignment::next() {
-    if (input->next()) {
+    uint64_t count = input->next();
+    if (count) {
         for (size_t j = 0; j < inputArgs.size(); ++j) {
             if (inputArgs[j].reg != NULL)
                 outputVars[j]->value = inputArgs[j].reg->value;
             else
                 outputVars[j]->value = inputArgs[j].defaultValue;
         }
-        return true;
     }
-    return false;
+    return count;
 }
-- 
2.43.0


From a3e14f624717b2dc0f8b5d5b3e5ae568fab730d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 013/158] fix: a merge union does not repeat the last common
 value

---
 rdf3x/src/rts/MergeUnion.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..921340c 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,14 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            // The right tuple was returned together with the left one
+            if (state==stepBoth) {
+               if ((rightCount=right->next())==0) {
+                  state=done;
+                  return false;
+               }
+               rightValue=rightReg->value;
+            }
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From b84a9a578c4e7ada26ac80b56dc7154fee8cdb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 014/158] fix: executing a product, a grouping or a limit again
 starts from scratch

---
 rdf3x/src/rts/CartProd.cpp  | 2 ++
 rdf3x/src/rts/DuplLimit.cpp | 2 ++
 rdf3x/src/rts/GroupBy.cpp   | 1 +
 3 files changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..298056f 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -31,6 +31,8 @@ CartProd::~CartProd()
 uint64_t CartProd::first()
     // Produce the first tuple
 {
+    buffer.clear();
+    leftExhausted = false;
     //Need to store all the first entries in a vector
     if ((leftCount = left->first()) == 0) {
         if (leftOptional) {
diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..20c42a1 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -20,6 +20,8 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
+    observedOutputCardinality = 0;
+    currentCount = 0;
     if (observedOutputCardinality < limit) {
         if ((entryCount = input->first()) != 0) {
 	    // If there is an offset, skip those.
diff --git a/rdf3x/src/rts/GroupBy.cpp b/rdf3x/src/rts/GroupBy.cpp
index f1f226b..df4b75c 100644
--- a/rdf3x/src/rts/GroupBy.cpp
+++ b/rdf3x/src/rts/GroupBy.cpp
@@ -79,6 +79,7 @@ bool GroupBy::sameThanPrevious(uint64_t index) {
 /// Produce the first tuple
 uint64_t GroupBy::first() {
     observedOutputCardinality=0;
+    values.clear();
     uint64_t cnt = child->first();
 
     while (cnt > 0) {
-- 
2.43.0


From d8135cedbb277de298756425930474f151fb1cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 015/158] fix: one marker for unbound values, not mistaken for
 an id

---
 rdf3x/src/rts/HashJoin.cpp      |  4 +--
 rdf3x/src/rts/MergeJoin.cpp     | 64 ++++++++++++++++-----------------
 rdf3x/src/rts/Selection.cpp     |  4 +--
 rdf3x/src/rts/TableFunction.cpp |  2 +-
 rdf3x/src/rts/Union.cpp         |  2 +-
 5 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..d305f60 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -255,7 +255,7 @@ uint64_t HashJoin::next()
             joinSuccedeed = true;
             //Set the hash values to NULL
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             return rightCount;
         }
 
@@ -273,7 +273,7 @@ uint64_t HashJoin::next()
                 currentIdx = 0;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
-                    rightTail[index]->value = ~0u;
+                    rightTail[index]->value = UINT64_MAX;
                 return next();
             }
         }
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..add3587 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -46,9 +46,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             }
-            leftValue->value = ~0u;
+            leftValue->value = UINT64_MAX;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -59,9 +59,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = UINT64_MAX;
             }
-            rightValue->value = ~0u;
+            rightValue->value = UINT64_MAX;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -181,9 +181,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -196,9 +196,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -212,7 +212,7 @@ uint64_t MergeJoin::next()
                             uint64_t l=leftValue->value,r=rightValue->value;
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == UINT64_MAX) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -220,9 +220,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -234,7 +234,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == UINT64_MAX) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -242,9 +242,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -317,15 +317,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != UINT64_MAX) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -361,15 +361,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != UINT64_MAX) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -392,10 +392,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != UINT64_MAX) {
+                                        leftValue->value = UINT64_MAX;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepRight;
@@ -426,10 +426,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != UINT64_MAX) {
+                                        rightValue->value = UINT64_MAX;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepLeft;
@@ -470,10 +470,10 @@ uint64_t MergeJoin::next()
                             } else {
                                 if ((leftCount=left->next())==0) {
                                     if (leftOptional) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                        if (leftValue->value != UINT64_MAX) {
+                                            leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyLeft;
@@ -495,10 +495,10 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != UINT64_MAX) {
+                                            rightValue->value = UINT64_MAX;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyRight;
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..6ba1cdd 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -640,7 +640,7 @@ string Selection::Neg::print(PlanPrinter& out)
 void Selection::Null::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u);
+    result.setId(UINT64_MAX);
 }
 //---------------------------------------------------------------------------
 string Selection::Null::print(PlanPrinter& /*out*/)
@@ -736,7 +736,7 @@ void Selection::FunctionCall::setSelection(Selection* s)
 void Selection::FunctionCall::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u); // XXX perform the call
+    result.setId(UINT64_MAX); // XXX perform the call
 }
 //---------------------------------------------------------------------------
 string Selection::FunctionCall::print(PlanPrinter& out)
diff --git a/rdf3x/src/rts/TableFunction.cpp b/rdf3x/src/rts/TableFunction.cpp
index 6076a3f..594274a 100644
--- a/rdf3x/src/rts/TableFunction.cpp
+++ b/rdf3x/src/rts/TableFunction.cpp
@@ -233,7 +233,7 @@ void TableFunction::requestTable()
             }
          }
          if (!ok) {
-            table.push_back(~0u);
+            table.push_back(UINT64_MAX);
          } else {
             table.push_back(id);
          }
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..a8e8175 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value=UINT64_MAX;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From 1571fcf40715b4f0eed27310cb0b9e18064d1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 016/158] fix: optional joins keep every tuple without a
 partner

---
 rdf3x/src/rts/HashJoin.cpp  | 51 ++++++++++++++++++++++++++++---------
 rdf3x/src/rts/MergeJoin.cpp | 26 ++++++++++++++-----
 2 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index d305f60..1778e08 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -51,7 +51,8 @@ void HashJoin::BuildHashTable::run()
         // Check the domain first
         bool joinCandidate = true;
         for (uint64_t index = 0, limit = domainRegs.size(); index < limit; ++index) {
-            if (!domainRegs[index]->domain->couldQualify(domainRegs[index]->value)) {
+            // A left tuple without a partner is part of the result if the right side is optional
+            if (!join.rightOptional && !domainRegs[index]->domain->couldQualify(domainRegs[index]->value)) {
                 joinCandidate = false;
                 break;
             }
@@ -114,7 +115,11 @@ void HashJoin::BuildHashTable::run()
         hashTableSize = join.hashTable.size() / 2;
     }
 
-    // Update the domains
+    // Update the domains, unless the right side keeps the tuples without a partner
+    if (join.leftOptional) {
+        done = true;
+        return;
+    }
     for (uint64_t index = 0, limit = domainRegs.size(); index < limit; ++index)
         domainRegs[index]->domain->restrictTo(observedDomains[index]);
     if (join.bitset != 0) {
@@ -202,8 +207,19 @@ uint64_t HashJoin::first()
 
     // Read the first tuple from the right side
     probePeekTask.run();
-    if (((rightCount = probePeekTask.count) == 0) && !leftOptional) {
-        return false;
+    collectedRightValues.clear();
+    if ((rightCount = probePeekTask.count) == 0) {
+        if (!rightOptional) {
+            return false;
+        }
+        //No right tuple at all. Return a NULL for each left entry
+        currentIdx = 0;
+        hashTableIter = NULL;
+        rightValue->value = UINT64_MAX;
+        for (uint64_t index = 0, limit = rightTail.size();
+                index < limit; ++index)
+            rightTail[index]->value = UINT64_MAX;
+        return next();
     }
 
     // Setup the lookup
@@ -220,15 +236,23 @@ uint64_t HashJoin::next()
     // Produce the next tuple
 {
     if (currentIdx != (size_t) -1) {
-        Entry *e;
-        while (currentIdx < hashTable.size()) {
-            if ((e = hashTable[currentIdx++])
-                    && !collectedRightValues.count(e->key)) {
-                for (uint64_t index = 0, limit = leftTail.size();
-                        index < limit; ++index)
-                    leftTail[index]->value = e->values[index];
-                return e->count;
+        while (true) {
+            if (!hashTableIter) {
+                if (currentIdx >= hashTable.size())
+                    break;
+                hashTableIter = hashTable[currentIdx++];
+                if (hashTableIter && collectedRightValues.count(hashTableIter->key))
+                    hashTableIter = NULL;
+                continue;
             }
+            leftValue->value = hashTableIter->key;
+            for (uint64_t index = 0, limit = leftTail.size();
+                    index < limit; ++index)
+                leftTail[index]->value = hashTableIter->values[index];
+            uint64_t count = hashTableIter->count;
+            hashTableIter = hashTableIter->next;
+            observedOutputCardinality += count;
+            return count;
         }
         return false;
     }
@@ -254,6 +278,7 @@ uint64_t HashJoin::next()
         if (!elementToProcess && !joinSuccedeed && leftOptional) {
             joinSuccedeed = true;
             //Set the hash values to NULL
+            leftValue->value = UINT64_MAX;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
                 leftTail[index]->value = UINT64_MAX;
             return rightCount;
@@ -271,6 +296,8 @@ uint64_t HashJoin::next()
             } else {
                 //Scan the all left table. return a NULL for each entry not joined
                 currentIdx = 0;
+                hashTableIter = NULL;
+                rightValue->value = UINT64_MAX;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
                     rightTail[index]->value = UINT64_MAX;
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index add3587..098740d 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -23,8 +23,11 @@ MergeJoin::MergeJoin(Operator* left,Register* leftValue,const std::vector<Regist
     leftShadow.resize(leftTail.size()+2);
     rightShadow.resize(rightTail.size()+2);
 
-    left->addMergeHint(leftValue,rightValue);
-    right->addMergeHint(leftValue,rightValue);
+    // The tuples without a partner must not be skipped
+    if (!rightOptional)
+        left->addMergeHint(leftValue,rightValue);
+    if (!leftOptional)
+        right->addMergeHint(leftValue,rightValue);
 }
 //---------------------------------------------------------------------------
 MergeJoin::~MergeJoin()
@@ -398,7 +401,9 @@ uint64_t MergeJoin::next()
                                             leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepRight;
+                                    // The next right tuple waits in the shadow
+                                    swapRight();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -432,7 +437,9 @@ uint64_t MergeJoin::next()
                                             rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepLeft;
+                                    // The next left tuple waits in the shadow
+                                    swapLeft();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -476,7 +483,13 @@ uint64_t MergeJoin::next()
                                                 leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyLeft;
+                                        if (scanState == loopSpooledRightEmpty) {
+                                            scanState = empty;
+                                            return false;
+                                        }
+                                        // The next right tuple waits in the shadow
+                                        swapRight();
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
@@ -501,7 +514,8 @@ uint64_t MergeJoin::next()
                                                 rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyRight;
+                                        // The current left tuple has not been returned yet
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
-- 
2.43.0


From 1f7e336dd38bc2c0cdc3cc4ca8251ca64dd35b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 017/158] fix: the scheduler holds its lock while it hands out
 work, and waits for its workers

---
 rdf3x/src/rts/Scheduler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 779a9cd..549650a 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -31,7 +31,11 @@ Scheduler::Scheduler()
    if (threads) {
       workerLock.lock();
       for (unsigned index=0;index<threads;index++)
-         Thread::start(asyncWorker,this);
+         if (Thread::start(asyncWorker,this))
+            workerThreads++;
+      // Workers that do not exist cannot run anything
+      if (!workerThreads)
+         threads=0;
       workerLock.unlock();
    }
 }
@@ -75,9 +79,8 @@ void Scheduler::executeSingleThreaded(Operator* root)
 void Scheduler::performWork()
    // Perform the work of a worker thread
 {
-   // Register as worker
+   // The worker was registered when it was started
    workerLock.lock();
-   workerThreads++;
 
    // Perform the work
    while (!workersDie) {
@@ -133,6 +136,7 @@ void Scheduler::execute(Operator* root)
    root->getAsyncInputCandidates(*this);
 
    // Execute all asynchronous execution points
+   workerLock.lock();
    while (!registeredPoints.empty()) {
       // Is the worker queue full?
       if ((workQueue.size()+activeWorkers)>=threads) {
-- 
2.43.0


From e1b46ee927144c5d0541c57f8352e9eb694e4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 018/158] fix: timedWait waits for the whole time

---
 rdf3x/src/infra/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/infra/Event.cpp b/rdf3x/src/infra/Event.cpp
index 5279898..61d790e 100644
--- a/rdf3x/src/infra/Event.cpp
+++ b/rdf3x/src/infra/Event.cpp
@@ -103,7 +103,7 @@ bool Event::timedWait(Mutex& mutex,unsigned timeoutMilli)
    return !timeout;
 #else
    struct timeval now; gettimeofday(&now,0);
-   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/10000);
+   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/1000);
    uint64_t future=nowT+timeoutMilli;
    struct timespec abstime;
    abstime.tv_sec=future/1000; abstime.tv_nsec=(future%1000)*1000000;
-- 
2.43.0


From a407c0326a445b6a307ca8438e5f7185f5cac7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 019/158] fix: executing a merge join again does not skip
 tuples

---
 rdf3x/src/rts/MergeJoin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 098740d..927a293 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -42,6 +42,9 @@ uint64_t MergeJoin::first()
 {
     observedOutputCardinality=0;
 
+    // The hints on the left side must not see the right value of an earlier execution
+    rightValue->value=UINT64_MAX;
+
     // Read the first tuples
     if ((leftCount=left->first())==0) {
         if (leftOptional) {
-- 
2.43.0


From e9efe94cdb19c0995a594e79c399676687f38c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:10 +0000
Subject: [PATCH 020/158] fix: a pool that is emptied and used again does not
 grow without limit

---
 rdf3x/include/infra/util/VarPool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/include/infra/util/VarPool.hpp b/rdf3x/include/infra/util/VarPool.hpp
index 3eb31c1..855f842 100644
--- a/rdf3x/include/infra/util/VarPool.hpp
+++ b/rdf3x/include/infra/util/VarPool.hpp
@@ -56,6 +56,8 @@ template <class T> class VarPool
    unsigned size;
    /// Size of the next chunk
    unsigned chunkSize;
+   /// Size of the first chunk
+   unsigned firstChunkSize;
 
    /// Allocate a new chunk
    void allocChunk();
@@ -89,6 +91,7 @@ template <class T> VarPool<T>::VarPool(unsigned extraSize,unsigned cs)
    if (size<sizeof(T*))
       size=sizeof(T*);
    if (chunkSize&7) chunkSize=(chunkSize|7)+1;
+   firstChunkSize=chunkSize;
 }
 //---------------------------------------------------------------------------
 template <class T> void VarPool<T>::allocChunk()
@@ -162,6 +165,9 @@ template <class T> void VarPool<T>::freeAll()
 
    // Clear the free list
    freeList=0;
+
+   // Start small again
+   chunkSize=firstChunkSize;
 }
 //---------------------------------------------------------------------------
 #endif
-- 
2.43.0


From 51e21fac16ffebe8ea3641bbca43f057929c350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 021/158] fix: the first row of a product with an empty
 optional side is unbound there

---
 rdf3x/src/rts/CartProd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 298056f..424ea76 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -51,6 +51,7 @@ uint64_t CartProd::first()
 	    buffer.push_back(rightCount);
 	    for(int i = 0; i < rightTail.size(); ++i) {
 		buffer.push_back(UINT64_MAX);
+		rightTail[i]->value = UINT64_MAX;
 	    }
 	    idxbuffer = 1 + rightTail.size();
 	} else {
-- 
2.43.0


From 48e0d061f965a9ef2912f9c26e65a72ba9048e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 022/158] fix: parallel_for starts at the given begin, not at 0

---
 include/trident/utils/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/utils/parallel.h b/include/trident/utils/parallel.h
index c0b6a24..ebfeb65 100644
--- a/include/trident/utils/parallel.h
+++ b/include/trident/utils/parallel.h
@@ -148,8 +148,8 @@ class ParallelTasks {
                 assert(nthreads >= 1);
                 const size_t delta = std::max(grainsize, (size_t) (end - begin + nthreads - 1) / nthreads);
                 std::vector<std::future<void>> threads;
-                size_t currentbegin = 0;
-                size_t currentend = 0;
+                size_t currentbegin = begin;
+                size_t currentend = begin;
                 for (size_t i = 0; i < nthreads && currentend < end; ++i) {
                     currentbegin = currentend;
                     currentend = currentbegin + delta;
-- 
2.43.0


From bdae522c50829e95ea6defc393c7344093fed441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 023/158] fix: a failure in a parallel task reaches the caller

---
 include/trident/utils/parallel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/trident/utils/parallel.h b/include/trident/utils/parallel.h
index ebfeb65..93c4d85 100644
--- a/include/trident/utils/parallel.h
+++ b/include/trident/utils/parallel.h
@@ -100,7 +100,7 @@ class ParallelTasks {
                     It mid = std::next(begin, len / 2);
                     auto fn = std::async(ParallelTasks::sort_int<It, Cmp>, begin, mid, std::ref(cmp), nthreads / 2);
                     sort_int<It,Cmp>(mid, end, cmp, nthreads / 2);
-                    fn.wait();
+                    fn.get();
                     // ParallelTasks::merge(begin, mid, end, cmp);
                     std::inplace_merge(begin, mid, end, cmp);
                 }
@@ -125,7 +125,7 @@ class ParallelTasks {
                     auto fn = std::async(ParallelTasks::sort_int<It>, begin,
                             mid, nthreads / 2);
                     sort_int<It>(mid, end, nthreads / 2);
-                    fn.wait();
+                    fn.get();
                     std::inplace_merge(begin, mid, end);
                 }
             }
@@ -163,7 +163,7 @@ class ParallelTasks {
                 ParallelRange range(currentbegin, end);
                 c(range);
                 for(auto &t : threads) {
-                    t.wait();
+                    t.get();
                 }
             }
 };
-- 
2.43.0


From ddede239e9ee4917e3516461927880b8ed25b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 024/158] fix: an array iterator starts at an element that
 satisfies its constraints

---
 src/trident/iterators/arrayitr.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..6b39a17 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -171,29 +171,24 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
     ignSecondColumn = false;
     this->v1 = this->v2 = -1;
 
+    //hasNext() checks whether there is an element at the initial position
+    //that satisfies the constraints
     if (constraint1 != -1) {
         pos = binarySearch(array.get(), 0, nElements, constraint1);
         if (pos >= 0) {
-            if (constraint2 != -1) {
-                // The values are not many. Let's try to do a linear search
-                // and see how it goes...
-                while (pos < nElements && array->at(pos).first == constraint1
-                        && array->at(pos).second < constraint2) {
-                    pos++;
-                }
-                hasNextChecked = true;
-                n = pos < nElements && array->at(pos).second == constraint2;
-            } else {
-                hasNextChecked = n = true;
+            // The values are not many. Let's try to do a linear search
+            // and see how it goes...
+            while (pos < nElements && (array->at(pos).first < constraint1
+                        || (array->at(pos).first == constraint1
+                            && constraint2 != -1
+                            && array->at(pos).second < constraint2))) {
+                pos++;
             }
         } else {
-            hasNextChecked = true;
-            n = false;
             pos = 0;
         }
     } else {
         pos = 0;
-        hasNextChecked = n = true;
     }
 }
 
-- 
2.43.0


From 57c83aab3484f297ff5fa132e1c3ab0eb4f1a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 025/158] fix: resetting an array iterator restores the marked
 row

---
 include/trident/iterators/arrayitr.h | 1 +
 src/trident/iterators/arrayitr.cpp   | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index 1a0632e..c85b5cb 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -40,6 +40,7 @@ private:
     int64_t v1, v2;
 
     int markPos;
+    int64_t markV1, markV2, markCountElems;
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6b39a17..1dac8b3 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -100,10 +100,16 @@ void ArrayItr::clear() {
 
 void ArrayItr::mark() {
     markPos = pos;
+    markV1 = v1;
+    markV2 = v2;
+    markCountElems = countElems;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
+    v1 = markV1;
+    v2 = markV2;
+    countElems = markCountElems;
     hasNextChecked = false;
 }
 
-- 
2.43.0


From 709224414a6234909ad9f7fc4d5294f7d9c96314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:23 +0000
Subject: [PATCH 026/158] fix: seeking in an array iterator stays on the
 current first term

---
 src/trident/iterators/arrayitr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 1dac8b3..0750b8a 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -120,6 +120,13 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
     if (v1 >= c1 && (ignSecondColumn || v1 > c1 || v2 >= c2)) {
         // Position is backwards.
         pos--; //so that hasNext will move to the same point
+        if (ignSecondColumn) {
+            //hasNext() and getCount() might have moved over other elements
+            //with the same first term. Return to the first one
+            while (pos > 0 && array->at(pos - 1).first == v1) {
+                pos--;
+            }
+        }
         hasNextChecked = true;
         n = true;
         return;
-- 
2.43.0


From 8cc80bd0c811c066c1b2e39a20715e49702dd562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:24 +0000
Subject: [PATCH 027/158] fix: the cardinality of an array iterator counts what
 it returns

---
 src/trident/iterators/arrayitr.cpp | 39 +++++++++---------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 0750b8a..54ae93b 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -206,35 +206,20 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
 }
 
 uint64_t ArrayItr::getCardinality() {
-    //if (n) {
-    if (ignSecondColumn) {
-        uint64_t count = 0;
-        size_t pos2 = 0;
-        int64_t existingV1 = -1;
-        while (pos2 < nElements) {
-            if (array->at(pos2).first != existingV1) {
-                count++;
-                existingV1 = (int64_t)(array->at(pos2).first);
-            }
-            pos2++;
+    uint64_t count = 0;
+    int64_t existingV1 = -1;
+    for (size_t pos2 = 0; pos2 < nElements; pos2++) {
+        if (constraint1 != -1 && (array->at(pos2).first != constraint1
+                    || (constraint2 != -1
+                        && array->at(pos2).second != constraint2))) {
+            continue;
+        }
+        if (!ignSecondColumn || array->at(pos2).first != existingV1) {
+            count++;
+            existingV1 = (int64_t)(array->at(pos2).first);
         }
-        return count;
-    } else {
-        /*uint64_t count = 1;
-          size_t pos2 = pos + 1;
-          while (pos2 < nElements) {
-          if (array->at(pos2).first != constraint1) {
-          break;
-          }
-          count++;
-          pos2++;
-          }
-          return count;*/
-        return nElements;
     }
-    //} else {
-    //    return 0;
-    //}
+    return count;
 }
 
 uint64_t ArrayItr::estCardinality() {
-- 
2.43.0


From 1815462a7167b12729cbb6021e1903e7aa76ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 028/158] fix: an array iterator counts one row if the second
 column is not ignored

---
 src/trident/iterators/arrayitr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 54ae93b..0f6f0c3 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -69,7 +69,7 @@ bool ArrayItr::hasNext() {
 
 int64_t ArrayItr::getCount() {
     if (!ignSecondColumn) {
-        throw 10;
+        return 1;
     }
 
     if (countElems == 0) {
-- 
2.43.0


From 1e161d91fe97318581d81a3af914f122a0e55592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 029/158] fix: seeking in a difference of iterators does not
 return a row from before the target

---
 src/trident/iterators/rmitr.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..c5d7ab7 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -45,11 +45,14 @@ void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
 void RmItr::moveto(const int64_t c1, const int64_t c2) {
     assert(v1 != -1);
     itr->moveto(c1, c2);
-    rmitr->moveto(c1, c2);
-    if (rmitr->hasNext()) {
-        rmitr->next();
-    } else {
-        rmitrvalid = false;
+    hnc = false;
+    if (rmitrvalid) {
+        rmitr->moveto(c1, c2);
+        if (rmitr->hasNext()) {
+            rmitr->next();
+        } else {
+            rmitrvalid = false;
+        }
     }
 }
 
-- 
2.43.0


From 1fc0a170086dd0c92d576f46af7daa015c58c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 030/158] fix: resetting a difference of iterators restores the
 marked row

---
 include/trident/iterators/rmitr.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index b130215..a3beb02 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -37,7 +37,7 @@ private:
     int64_t curCount, nextCount;
     bool hnc, hn;
 
-    bool savedrmitrvalid;
+    bool savedrmitrvalid, savedhnc, savedhn;
     int64_t savedv1, savedv2, savedcurCount, savednextCount;
 
 
@@ -65,18 +65,18 @@ public:
 	savedv2 = v2;
 	savedcurCount = curCount;
 	savednextCount = nextCount;
+	savedhnc = hnc;
+	savedhn = hn;
 	itr->mark();
 	rmitr->mark();
     }
 
     void reset(const char i) {
         rmitrvalid = savedrmitrvalid;
-	hnc = false;
-	if (i == 0) {
-	    v1 = savedv1;
-	} else {
-	    v2 = savedv2;
-	}
+	hnc = savedhnc;
+	hn = savedhn;
+	v1 = savedv1;
+	v2 = savedv2;
 	curCount = savedcurCount;
 	nextCount = savednextCount;
 	itr->reset(i);
-- 
2.43.0


From aaf1583de6c158c311680b7838de1ea91e668754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 031/158] fix: ignoring the second column of a difference
 before its first row asks for no count

---
 src/trident/iterators/rmitr.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index c5d7ab7..dbf52bc 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -179,12 +179,14 @@ void RmItr::ignoreSecondColumn() {
     rmitr->ignoreSecondColumn();
     noseccol = true;
     if (v1 == -1) {
-        nextCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            nextCount -= rmitr->getCount();
+        if (hnc && hn) {
+            nextCount = itr->getCount();
+            if (rmitrvalid && rmitr->getValue1() == itr->getValue1())
+                nextCount -= rmitr->getCount();
+        }
     } else {
         curCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
+        if (rmitrvalid && rmitr->getValue1() == itr->getValue1())
             curCount -= rmitr->getCount();
     }
 }
-- 
2.43.0


From 95155ec5d18efb8a5f1773b510fcefaa59c90c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 032/158] fix: multiplying a complex number in place uses its
 old real part

---
 include/trident/utils/fft.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/trident/utils/fft.h b/include/trident/utils/fft.h
index 3919904..e6682f0 100644
--- a/include/trident/utils/fft.h
+++ b/include/trident/utils/fft.h
@@ -35,8 +35,9 @@ typedef struct Complex {
     }
 
     Complex& operator *= (Complex c) {
-        this->real = (this->real * c.real) - (this->imag * c.imag);
+        const double r = (this->real * c.real) - (this->imag * c.imag);
         this->imag = (this->real * c.imag) + (this->imag * c.real);
+        this->real = r;
         return *this;
     }
 
-- 
2.43.0


From 68d7d945ca57af57550749e506c50a3cab684f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 033/158] fix: dividing a complex number keeps the sign of its
 imaginary part

---
 include/trident/utils/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/utils/fft.h b/include/trident/utils/fft.h
index e6682f0..097f201 100644
--- a/include/trident/utils/fft.h
+++ b/include/trident/utils/fft.h
@@ -46,7 +46,7 @@ typedef struct Complex {
     }
 
     Complex operator / (double d) {
-	return Complex(this->real/d, -this->imag/d);
+	return Complex(this->real/d, this->imag/d);
     }
 
 } Complex;
-- 
2.43.0


From 4655329b3ef5e842662143fb92d72ff6f638b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:12 +0000
Subject: [PATCH 034/158] fix: the circular correlation in single precision
 returns its result

---
 include/trident/utils/fft.h |  2 ++
 src/trident/utils/fft.cpp   | 20 ++------------------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/include/trident/utils/fft.h b/include/trident/utils/fft.h
index 097f201..ca94170 100644
--- a/include/trident/utils/fft.h
+++ b/include/trident/utils/fft.h
@@ -2,6 +2,8 @@
 #define _FFT_H
 
 #include <cmath>
+#include <cstdint>
+#include <vector>
 typedef struct Complex {
 
     public:
diff --git a/src/trident/utils/fft.cpp b/src/trident/utils/fft.cpp
index c89fefe..77139b9 100644
--- a/src/trident/utils/fft.cpp
+++ b/src/trident/utils/fft.cpp
@@ -205,27 +205,11 @@ void ccorr(double* a, double* b, uint16_t size, vector<float>& out) {
     fftw_free(temp);
     fftw_free(aOut);
     fftw_free(bOut);*/
-    /*
-     * vector<Complex> ac;
-    for (int i = 0; i < size; ++i) {
-        Complex temp;
-        temp.real = a[i];
-        ac.push_back(temp);
-    }
-
-    vector<Complex> bc;
-    for (int i = 0; i < size; ++i) {
-        Complex temp;
-        temp.real = b[i];
-        bc.push_back(temp);
-    }
-
     vector<double> out_d;
-    ccorr(ac, bc, out_d);
-
+    ccorr(a, b, size, out_d);
     for (auto d : out_d) {
         out.push_back((float) d);
-    }*/
+    }
 }
 
 void cconv(double* a, double* b, uint16_t size, std::vector<float>& out) {
-- 
2.43.0


From 2e4c5a9a47550f97e245b0627bf4dae92915184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 035/158] fix: hash joins spread keys with equal low bits over
 the table

---
 rdf3x/src/rts/HashJoin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 1778e08..378b59e 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -18,10 +18,13 @@
 using namespace std;
 //---------------------------------------------------------------------------
 static inline uint64_t hash1(uint64_t key, uint64_t hashTableSize) {
-    return key & (hashTableSize - 1);
+    // Use all bits of the key: otherwise keys with equal low bits always collide
+    key *= 0x9E3779B97F4A7C15ull;
+    return (key >> 32) & (hashTableSize - 1);
 }
 static inline uint64_t hash2(uint64_t key, uint64_t hashTableSize) {
-    return hashTableSize + ((key ^ (key >> 3)) & (hashTableSize - 1));
+    key = (key ^ (key >> 32)) * 0xC2B2AE3D27D4EB4Full;
+    return hashTableSize + ((key >> 32) & (hashTableSize - 1));
 }
 //---------------------------------------------------------------------------
 //
-- 
2.43.0


From d9ed11b43db1301547535c9a778f18b61af9fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 036/158] fix: the Turtle lexer does not read its last buffer
 again at the end of the input

---
 rdf3x/src/cts/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 402b492..453e72e 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -46,7 +46,7 @@ bool TurtleParser::Lexer::doRead(char& c)
    while (in) {
       readBufferStart=readBuffer;
       in.read(readBuffer,readBufferSize);
-      if (!in.gcount()) return false;
+      if (!in.gcount()) { readBufferEnd=readBufferStart; return false; }
       readBufferEnd=readBufferStart+in.gcount();
 
       if (readBufferStart<readBufferEnd) {
-- 
2.43.0


From c95989f6e1087dfd91fcd22eeb0e5fc503cc4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 037/158] fix: Turtle numbers with a fraction are one token

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  2 ++
 rdf3x/src/cts/TurtleParser.cpp            | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 38b8052..a7bf017 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -67,6 +67,8 @@ class TurtleParser
       /// Unread the last character
       void unread() { readBufferStart--; }
 
+      /// Does the next character continue a number after a dot?
+      bool isFraction();
       /// Lex a hex code
       unsigned lexHexCode(unsigned len);
       /// Lex an escape sequence
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 453e72e..223828d 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -57,6 +57,13 @@ bool TurtleParser::Lexer::doRead(char& c)
    return false;
 }
 //---------------------------------------------------------------------------
+bool TurtleParser::Lexer::isFraction()
+   // Does the next character continue a number after a dot?
+{
+   int c=(readBufferStart<readBufferEnd)?static_cast<unsigned char>(*readBufferStart):in.peek();
+   return (c>='0')&&(c<='9');
+}
+//---------------------------------------------------------------------------
 static bool issep(char c) { return (c==' ')||(c=='\t')||(c=='\n')||(c=='\r')||(c=='[')||(c==']')||(c=='(')||(c==')')||(c==',')||(c==';')||(c==':')||(c=='.'); }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,char c)
@@ -78,7 +85,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
             token+=c;
             if (!read(c)) return Integer;
          }
-         if (issep(c)) {
+         // A dot starts the fraction only if a digit follows
+         if ((c=='.')&&!isFraction()) {
+            unread();
+            return Integer;
+         }
+         if ((c!='.')&&issep(c)) {
             unread();
             return Integer;
          }
-- 
2.43.0


From 55100f3d2bd94c7ef8a86a03ec2f4b03e1165905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 038/158] fix: Turtle escapes above U+FFFF are encoded with
 four bytes

---
 rdf3x/src/cts/TurtleParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 223828d..19e384d 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -167,6 +167,11 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else if (code>=0x10000) {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    } else {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
-- 
2.43.0


From 8912830dc5e67a030f066589abf4964d0d998ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 039/158] fix: long Turtle strings keep the character after a
 quote

---
 rdf3x/src/cts/TurtleParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 19e384d..cf736a8 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -221,9 +221,9 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    while (read(c)) {
       if (c=='\"') {
          if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
+         if (c!='\"') { token+='\"'; unread(); continue; }
          if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
+         if (c!='\"') { token+="\"\""; unread(); continue; }
          return String;
       }
       if (c=='\\') {
-- 
2.43.0


From 5b452c5abfebdd0959d2a6db6e4dc94b42f4ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 040/158] fix: Turtle collections, and blank nodes and
 collections as subjects, are accepted

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index cf736a8..ca6b18e 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -523,6 +523,7 @@ void TurtleParser::parseBlank(std::string& entry)
                triples.push_back(Triple(nodes[index],"http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",nodes[index+1],Type::URI,""));
             }
             entry=nodes.front();
+            return;
          }
 
       default: parseError("invalid blank entry");
@@ -558,6 +559,7 @@ void TurtleParser::parseSubject(Lexer::Token token,std::string& subject)
          // Opening bracket/parenthesis
          lexer.unget(token,subject);
          parseBlank(subject);
+         return;
       default: parseError("invalid subject");
    }
 }
-- 
2.43.0


From 865d0ba97ef670d0a3a9fcb8be194669f72c6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 041/158] fix: a Turtle datatype can use the empty prefix and
 must be a name or a URI

---
 rdf3x/src/cts/TurtleParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index ca6b18e..791ac82 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -640,9 +640,12 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                if (token==Lexer::URI) {
                   // Already parsed
                } else if (token==Lexer::Colon) {
+                  lexer.unget(token,type);
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
+               } else {
+                  parseError("type URI expected after '^^'");
                }
                if (type=="http://www.w3.org/2001/XMLSchema#string") {
                   objectType=Type::String;
-- 
2.43.0


From 6947f78df11a9d9689933739d9c6e13fd4ad8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 042/158] fix: absolute Turtle URIs are recognised by their
 scheme and prefixes resolve against the base

---
 rdf3x/src/cts/TurtleParser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 791ac82..2d424b7 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -400,9 +400,12 @@ void TurtleParser::constructAbsoluteURI(std::string& uri)
    if (base.empty())
       return;
 
-   // Already absolute? XXX fix the check!
-   if (uri.find("://")<10)
-      return;
+   // Already absolute, i.e. does it start with a scheme?
+   if ((!uri.empty())&&(((uri[0]>='a')&&(uri[0]<='z'))||((uri[0]>='A')&&(uri[0]<='Z')))) {
+      string::size_type colon=uri.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.");
+      if ((colon!=string::npos)&&(uri[colon]==':'))
+         return;
+   }
 
    // Put the base in front
    uri=base+uri;
@@ -432,6 +435,7 @@ void TurtleParser::parseDirective()
       std::string uri;
       if (lexer.next(uri)!=Lexer::URI)
          parseError("URI expected after @prefix");
+      constructAbsoluteURI(uri);
       prefixes[prefixName]=uri;
    } else {
       parseError("unknown directive @"+value);
-- 
2.43.0


From 82f8649334f4af61974205915f6397b72d167f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:32 +0000
Subject: [PATCH 043/158] fix: aggregated scans without an order are translated
 with the columns they return

---
 rdf3x/src/cts/CodeGen.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 33f22f1..71a3094 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -110,18 +110,40 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
             plan->cardinality);
 }
 //---------------------------------------------------------------------------
+static DBLayer::DataOrder columnOrder(DBLayer::DataOrder order)
+    // The columns an unordered scan returns are those of its ordered counterpart
+{
+    switch (order) {
+        case DBLayer::Order_No_Order_SPO:
+            return DBLayer::Order_Subject_Predicate_Object;
+        case DBLayer::Order_No_Order_SOP:
+            return DBLayer::Order_Subject_Object_Predicate;
+        case DBLayer::Order_No_Order_OPS:
+            return DBLayer::Order_Object_Predicate_Subject;
+        case DBLayer::Order_No_Order_OSP:
+            return DBLayer::Order_Object_Subject_Predicate;
+        case DBLayer::Order_No_Order_POS:
+            return DBLayer::Order_Predicate_Object_Subject;
+        case DBLayer::Order_No_Order_PSO:
+            return DBLayer::Order_Predicate_Subject_Object;
+        default:
+            return order;
+    }
+}
+//---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an aggregated index scan into an operator tree
 {
     const QueryGraph::Node& node = *reinterpret_cast<QueryGraph::Node*>(plan->right);
     DBLayer::DataOrder order = static_cast<DBLayer::DataOrder>(plan->opArg);
+    DBLayer::DataOrder columns = columnOrder(order);
 
     // Initialize the registers
     bool constSubject, constPredicate, constObject;
     Register* subject, *predicate, *object;
-    resolveScanVariable(runtime, context, projection, bindings, registers, 0, node, subject, constSubject, (order == DBLayer::Order_Object_Predicate_Subject) || (order == DBLayer::Order_Predicate_Object_Subject));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (order == DBLayer::Order_Subject_Object_Predicate) || (order == DBLayer::Order_Object_Subject_Predicate));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (order == DBLayer::Order_Subject_Predicate_Object) || (order == DBLayer::Order_Predicate_Subject_Object));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 0, node, subject, constSubject, (columns == DBLayer::Order_Object_Predicate_Subject) || (columns == DBLayer::Order_Predicate_Object_Subject));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (columns == DBLayer::Order_Subject_Object_Predicate) || (columns == DBLayer::Order_Object_Subject_Predicate));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (columns == DBLayer::Order_Subject_Predicate_Object) || (columns == DBLayer::Order_Predicate_Subject_Object));
 
     // And return the operator
     //if (runtime.hasDifferentialIndex())
@@ -138,16 +160,17 @@ static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<u
 {
     const QueryGraph::Node& node = *reinterpret_cast<QueryGraph::Node*>(plan->right);
     DBLayer::DataOrder order = static_cast<DBLayer::DataOrder>(plan->opArg);
+    DBLayer::DataOrder columns = columnOrder(order);
 
     // Initialize the registers
     bool constSubject, constPredicate, constObject;
     Register* subject, *predicate, *object;
     resolveScanVariable(runtime, context, projection, bindings, registers,
             0, node, subject, constSubject,
-            (order != DBLayer::Order_Subject_Predicate_Object)
-            && (order != DBLayer::Order_Subject_Object_Predicate));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (order != DBLayer::Order_Predicate_Subject_Object) && (order != DBLayer::Order_Predicate_Object_Subject));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (order != DBLayer::Order_Object_Subject_Predicate) && (order != DBLayer::Order_Object_Predicate_Subject));
+            (columns != DBLayer::Order_Subject_Predicate_Object)
+            && (columns != DBLayer::Order_Subject_Object_Predicate));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (columns != DBLayer::Order_Predicate_Subject_Object) && (columns != DBLayer::Order_Predicate_Object_Subject));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (columns != DBLayer::Order_Object_Subject_Predicate) && (columns != DBLayer::Order_Object_Predicate_Subject));
 
     // And return the operator
     //if (runtime.hasDifferentialIndex())
-- 
2.43.0


From 9c4f4f2965e086360c9bf6066fdc5bb4be778314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 044/158] fix: assigning a query filter copies its subquery and
 pattern

---
 rdf3x/src/cts/QueryGraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index c560a13..2d45b78 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -90,6 +90,8 @@ QueryGraph::Filter& QueryGraph::Filter::operator=(const Filter& other)
         id = other.id;
         value = other.value;
         valueid = other.valueid;
+        subquery = other.subquery;
+        subpattern = other.subpattern;
     }
     return *this;
 }
-- 
2.43.0


From a6cd811e413f0a0f5b13580b7a3e7c4a733def3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 045/158] fix: a filter is applied only where its last argument
 and the variables of its pattern are available

---
 rdf3x/src/cts/QueryGraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 2d45b78..0a08b22 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -148,6 +148,9 @@ bool QueryGraph::Filter::isApplicable(const std::set<unsigned>& variables) const
     if (arg1 && (!arg1->isApplicable(variables))) return false;
     if (arg2 && (!arg2->isApplicable(variables))) return false;
     if (arg3 && (!arg3->isApplicable(variables))) return false;
+    if (arg4 && (!arg4->isApplicable(variables))) return false;
+    // A pattern is correlated with all variables of the group
+    if (subpattern) return false;
     if (subquery) {
         //Check whether the subquery mentions all variables
         for(auto idx = subquery->projectionBegin();
-- 
2.43.0


From 5ef3104c2ffe79dedc77797294eb13265f6fae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 046/158] fix: join edges number VALUES blocks as the plan
 generator does

---
 rdf3x/src/cts/QueryGraph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 0a08b22..be2bf22 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -269,9 +269,10 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
 
     // Derive all edges
     subQuery.edges.clear();
-    unsigned optionalOfs = patternBindings.size(), unionOfs = optionalOfs + optionalBindings.size();
+    // The numbers are those that the plan generator gives to the parts
+    unsigned valueOfs = patternBindings.size(), optionalOfs = valueOfs + valueBindings.size();
+    unsigned unionOfs = optionalOfs + optionalBindings.size();
     unsigned subqueryOfs = unionOfs + unionBindings.size();
-    unsigned valueOfs = subqueryOfs + subqueryBindings.size();
     vector<unsigned> common;
     for (unsigned index = 0, limit = patternBindings.size(); index < limit; ++index) {
         for (unsigned index2 = index + 1; index2 < limit; index2++)
-- 
2.43.0


From b85fbaf4c2544c625fe46e9fb1e698fb4f570283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 047/158] fix: VALUES blocks with a common variable are joined

---
 rdf3x/src/cts/QueryGraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index be2bf22..23ac16d 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -324,6 +324,10 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
             if (intersects(subqueryBindings[index], valueBindings[index2], common))
                 subQuery.edges.push_back(QueryGraph::Edge(subqueryOfs + index, valueOfs + index2, common));
     }
+    for (unsigned index = 0, limit = valueBindings.size(); index < limit; index++)
+        for (unsigned index2 = index + 1; index2 < limit; index2++)
+            if (intersects(valueBindings[index], valueBindings[index2], common))
+                subQuery.edges.push_back(QueryGraph::Edge(valueOfs + index, valueOfs + index2, common));
 }
 //---------------------------------------------------------------------------
 void QueryGraph::constructEdges()
-- 
2.43.0


From af7673606c9c799729fb25c47f182cda86f4f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:38 +0000
Subject: [PATCH 048/158] fix: a query graph starts without an offset

---
 rdf3x/src/cts/QueryGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 23ac16d..f558731 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -165,7 +165,7 @@ bool QueryGraph::Filter::isApplicable(const std::set<unsigned>& variables) const
 }
 //---------------------------------------------------------------------------
 QueryGraph::QueryGraph(unsigned varcount)
-    : duplicateHandling(AllDuplicates), limit(~0u), knownEmptyResult(false),
+    : duplicateHandling(AllDuplicates), limit(~0u), offset(0), knownEmptyResult(false),
     hdl(varcount)
       // Constructor
 {
-- 
2.43.0


From 59a0220d531b4bc6501c78ba6c901d4e9a19756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 049/158] fix: the patterns of MINUS and NOT EXISTS get join
 edges

---
 rdf3x/src/cts/QueryGraph.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index f558731..27e9062 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -221,6 +221,23 @@ static bool intersects(const set<unsigned>& a, const set<unsigned>& b, vector<un
     return result;
 }
 //---------------------------------------------------------------------------
+static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindings);
+//---------------------------------------------------------------------------
+static void constructFilterEdges(QueryGraph::Filter* filter)
+    // Construct the edges of the patterns used in a filter
+{
+    if (!filter)
+        return;
+    if (filter->subpattern) {
+        set<unsigned> bindings;
+        constructEdges(*filter->subpattern, bindings);
+    }
+    constructFilterEdges(filter->arg1);
+    constructFilterEdges(filter->arg2);
+    constructFilterEdges(filter->arg3);
+    constructFilterEdges(filter->arg4);
+}
+//---------------------------------------------------------------------------
 static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindings)
     // Construct the edges for a specfic subquery
 {
@@ -267,6 +284,12 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
         }
     }
 
+    // The other groups bind nothing, but need edges as well
+    for (vector<QueryGraph::Filter>::iterator iter = subQuery.filters.begin(), limit = subQuery.filters.end(); iter != limit; ++iter)
+        constructFilterEdges(&(*iter));
+    for (vector<std::shared_ptr<QueryGraph> >::iterator iter = subQuery.minuses.begin(), limit = subQuery.minuses.end(); iter != limit; ++iter)
+        (*iter)->constructEdges();
+
     // Derive all edges
     subQuery.edges.clear();
     // The numbers are those that the plan generator gives to the parts
-- 
2.43.0


From 8930b79a5fad6b67b3ef5dce6350a01453ec80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:52 +0000
Subject: [PATCH 050/158] fix: pruning domains are not shared across unions,
 optional and negated groups

---
 rdf3x/src/cts/CodeGen.cpp | 60 +++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 71a3094..f6e9f3c 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1097,49 +1097,66 @@ static Operator* translatePlan(Runtime& runtime, const map<unsigned, Register*>&
     return result;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id);
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
+/// The registers that always hold the same value. Only registers of the same group can be collected: the values in one branch of a union, or in an optional or negated group, do not restrict those in other groups
+class RegisterClasses {
+    private:
+        /// All classes
+        map<pair<unsigned, unsigned>, set<unsigned> >& classes;
+        /// The number of groups
+        unsigned& groups;
+        /// The current group
+        unsigned group;
+
+    public:
+        /// Constructor
+        RegisterClasses(map<pair<unsigned, unsigned>, set<unsigned> >& classes, unsigned& groups) : classes(classes), groups(groups), group(groups++) {}
+        /// The classes of a nested group
+        RegisterClasses nested() const { return RegisterClasses(classes, groups); }
+        /// The registers of a variable
+        set<unsigned>& ofVariable(unsigned variable) { return classes[make_pair(group, variable)]; }
+};
+//---------------------------------------------------------------------------
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, RegisterClasses registerClasses, const QueryGraph& query, unsigned id);
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, RegisterClasses registerClasses, const QueryGraph::SubQuery& query, unsigned id)
     // Allocate registers
 {
     for (vector<QueryGraph::Node>::const_iterator iter = query.nodes.begin(), limit = query.nodes.end(); iter != limit; ++iter) {
         const QueryGraph::Node& node = *iter;
         registers[&node] = id;
         if (!node.constSubject)
-            registerClasses[node.subject].insert(id + 0);
+            registerClasses.ofVariable(node.subject).insert(id + 0);
         if (!node.constPredicate)
-            registerClasses[node.predicate].insert(id + 1);
+            registerClasses.ofVariable(node.predicate).insert(id + 1);
         if (!node.constObject)
-            registerClasses[node.object].insert(id + 2);
+            registerClasses.ofVariable(node.object).insert(id + 2);
         id += 3;
     }
 
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter)
-        id = allocateRegisters(registers, registerClasses, (*iter), id);
+        id = allocateRegisters(registers, registerClasses.nested(), (*iter), id);
 
     for (vector<vector<QueryGraph::SubQuery> >::const_iterator iter = query.unions.begin(), limit = query.unions.end(); iter != limit; ++iter)
         for (vector<QueryGraph::SubQuery>::const_iterator iter2 = (*iter).begin(), limit2 = (*iter).end(); iter2 != limit2; ++iter2)
-            id = allocateRegisters(registers, registerClasses, (*iter2), id);
+            id = allocateRegisters(registers, registerClasses.nested(), (*iter2), id);
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter) {
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
         unsigned slot = 0;
         for (vector<unsigned>::const_iterator iter2 = (*iter).output.begin(), limit2 = (*iter).output.end(); iter2 != limit2; ++iter2, ++slot)
-            registerClasses[*iter2].insert(id + slot);
+            registerClasses.ofVariable(*iter2).insert(id + slot);
         id += (*iter).output.size();
     }
 
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin();
             itr != query.subqueries.end(); ++itr) {
         QueryGraph* subq = itr->get();
-        // id = allocateRegisters(registers, registerClasses, *subq->getQuery(), id);
-        id = allocateRegisters(registers, registerClasses, *subq, id);
+        id = allocateRegisters(registers, registerClasses.nested(), *subq, id);
     }
 
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.minuses.begin();
             itr != query.minuses.end(); ++itr) {
         QueryGraph* subq = itr->get();
-        // id = allocateRegisters(registers, registerClasses, subq->getQuery(), id);
-        id = allocateRegisters(registers, registerClasses, *subq, id);
+        id = allocateRegisters(registers, registerClasses.nested(), *subq, id);
     }
 
     for (auto itr = query.valueNodes.begin();
@@ -1147,21 +1164,21 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
         QueryGraph::Node *n = (QueryGraph::Node*)&(*itr);
         registers[n] = id;
         for (auto v : itr->variables) {
-            registerClasses[v].insert(id++);
+            registerClasses.ofVariable(v).insert(id++);
         }
     }
     for(auto itr = query.filters.begin(); itr != query.filters.end(); ++itr) {
         if (itr->subpattern != NULL) {
-            id = allocateRegisters(registers, registerClasses, *itr->subpattern.get(), id);
+            id = allocateRegisters(registers, registerClasses.nested(), *itr->subpattern.get(), id);
         }
         if (itr->subquery != NULL) {
-            id = allocateRegisters(registers, registerClasses, *itr->subquery.get(), id);
+            id = allocateRegisters(registers, registerClasses.nested(), *itr->subquery.get(), id);
         }
     }
     return id;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, RegisterClasses registerClasses, const QueryGraph& query, unsigned id)
 {
     id = allocateRegisters(registers, registerClasses, query.getQuery(), id);
     //Also process the global functions
@@ -1169,7 +1186,7 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
         unsigned slot = 0;
         for (vector<unsigned>::const_iterator iter2 = (*iter).output.begin(), limit2 = (*iter).output.end(); iter2 != limit2; ++iter2, ++slot)
-            registerClasses[*iter2].insert(id + slot);
+            registerClasses.ofVariable(*iter2).insert(id + slot);
         id += (*iter).output.size();
     }
     if (!query.c_getAggredateHandler().empty()) {
@@ -1235,14 +1252,15 @@ void CodeGen::prepareRuntime(Runtime &runtime,
         const QueryGraph& query,
         std::map<const QueryGraph::Node*, unsigned> &registers)
 {
-    map<unsigned, set<unsigned> > registerClasses;
-    unsigned registerCount = allocateRegisters(registers, registerClasses, query, 0);
+    map<pair<unsigned, unsigned>, set<unsigned> > registerClasses;
+    unsigned groups = 0;
+    unsigned registerCount = allocateRegisters(registers, RegisterClasses(registerClasses, groups), query, 0);
     runtime.allocateRegisters(registerCount + 1);
     // Prepare domain information for join attributes
     {
         // Count the required number of domains
         unsigned domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+        for (map<pair<unsigned, unsigned>, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
             // No join attribute?
             if ((*iter).second.size() < 2)
                 continue;
@@ -1253,7 +1271,7 @@ void CodeGen::prepareRuntime(Runtime &runtime,
 
         // And assign registers to domains
         domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+        for (map<pair<unsigned, unsigned>, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
             // No join attribute?
             if ((*iter).second.size() < 2)
                 continue;
-- 
2.43.0


From bf764417a3475fd2cfa76209b398ecca945aa7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 051/158] fix: variables of MINUS, NOT EXISTS, grouping and
 repeated in a pattern are kept

---
 rdf3x/src/cts/CodeGen.cpp | 31 +++++++++++++++++++++++++++++++
 rdf3x/src/cts/PlanGen.cpp | 34 +++++++++++++++++++++++++++++++---
 2 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index f6e9f3c..9be9d6f 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -473,6 +473,30 @@ static Operator* translateHashGroupify(Runtime& runtime, const map<unsigned, Reg
     return new HashGroupify(tree, output, plan->cardinality);
 }
 //---------------------------------------------------------------------------
+static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::Filter& filter);
+static void collectVariables(set<unsigned>& variables, const QueryGraph::SubQuery& query)
+    // Collect all variables that the pattern of a filter binds or uses
+{
+    for (const auto& node : query.nodes) {
+        if (!node.constSubject) variables.insert(node.subject);
+        if (!node.constPredicate) variables.insert(node.predicate);
+        if (!node.constObject) variables.insert(node.object);
+    }
+    for (const auto& values : query.valueNodes)
+        variables.insert(values.variables.begin(), values.variables.end());
+    for (const auto& optional : query.optional)
+        collectVariables(variables, optional);
+    for (const auto& parts : query.unions)
+        for (const auto& part : parts)
+            collectVariables(variables, part);
+    for (const auto& subquery : query.subqueries)
+        variables.insert(subquery->projectionBegin(), subquery->projectionEnd());
+    for (const auto& function : query.tableFunctions)
+        variables.insert(function.output.begin(), function.output.end());
+    for (const auto& filter : query.filters)
+        collectVariables(variables, filter);
+}
+//---------------------------------------------------------------------------
 static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::Filter& filter)
     // Collect all query variables
 {
@@ -484,6 +508,13 @@ static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::F
         collectVariables(filterVariables, *filter.arg2);
     if (filter.arg3)
         collectVariables(filterVariables, *filter.arg3);
+    if (filter.arg4)
+        collectVariables(filterVariables, *filter.arg4);
+    // NOT EXISTS compares the variables of its pattern or query
+    if (filter.subpattern)
+        collectVariables(filterVariables, *filter.subpattern);
+    if (filter.subquery)
+        filterVariables.insert(filter.subquery->projectionBegin(), filter.subquery->projectionEnd());
 }
 //---------------------------------------------------------------------------
 static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned, Register*>& bindings, const QueryGraph::Filter& filter, Plan *plan, const map<const QueryGraph::Node*, unsigned>& registers);
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..f4e74bf 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -410,7 +410,7 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     if (filter->type == QueryGraph::Filter::Variable)
         if (filter->id == val)
             return false;
-    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val);
+    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val) && isUnused(filter->arg4, val);
 }
 //---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
@@ -424,12 +424,19 @@ static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
 }
 
 //---------------------------------------------------------------------------
+static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsigned val);
 static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node& node, uint64_t val)
     // Check if a variable is unused outside its primary pattern
 {
-    for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter)
+    for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter) {
         if (!isUnused(&(*iter), val))
             return false;
+        // The pattern or query of NOT EXISTS
+        if ((*iter).subpattern && !isUnused(*(*iter).subpattern, node, val))
+            return false;
+        if ((*iter).subquery && !isUnused(*(*iter).subquery, node, val))
+            return false;
+    }
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(),
             limit = query.tableFunctions.end(); iter != limit; ++iter)
@@ -458,7 +465,10 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
             if (!isUnused(*iter2, node, val))
                 return false;
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
-        if (! isUnused((*itr)->getQuery(), node, val))
+        if (!isUnused(*(*itr), node, val))
+            return false;
+    for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.minuses.begin(); itr != query.minuses.end(); ++itr)
+        if (!isUnused(*(*itr), node, val))
             return false;
     return true;
 }
@@ -477,6 +487,17 @@ static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsi
         }
     }
 
+    //Check if the variable is used for grouping or aggregation
+    for (auto v : query.getGroupBy())
+        if (v == val)
+            return false;
+    for (auto v : query.c_getAggredateHandler().getInputOutputVars().first)
+        if (v == val)
+            return false;
+    for (const auto &filter : query.getHavings())
+        if (!isUnused(&filter, val))
+            return false;
+
     //Check if the variable is used in some assignments
     for (const auto &tableFunction : query.c_getGlobalAssignments()) {
         for (const auto &arg : tableFunction.input) {
@@ -544,6 +565,13 @@ PlanGen::Problem* PlanGen::buildScan(const QueryGraph::SubQuery& query, const Qu
     bool unusedSubject = (!node.constSubject) && isUnused(*fullQuery, node, node.subject);
     bool unusedPredicate = (!node.constPredicate) && isUnused(*fullQuery, node, node.predicate);
     bool unusedObject = (!node.constObject) && isUnused(*fullQuery, node, node.object);
+    // A variable that occurs twice must be compared
+    if ((!node.constSubject) && (!node.constPredicate) && (node.subject == node.predicate))
+        unusedSubject = unusedPredicate = false;
+    if ((!node.constSubject) && (!node.constObject) && (node.subject == node.object))
+        unusedSubject = unusedObject = false;
+    if ((!node.constPredicate) && (!node.constObject) && (node.predicate == node.object))
+        unusedPredicate = unusedObject = false;
 
     // Lookup variables
     uint64_t s = node.constSubject ? UINT64_MAX : node.subject, p = node.constPredicate ? UINT64_MAX : node.predicate, o = node.constObject ? UINT64_MAX : node.object;
-- 
2.43.0


From 70695ddcfd5927f049b0454aad34af4d9ea7af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:27 +0000
Subject: [PATCH 052/158] fix: a variable repeated within a pattern is compared

---
 rdf3x/src/cts/CodeGen.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 9be9d6f..74203a8 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -87,6 +87,24 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
 //---------------------------------------------------------------------------
+static Operator* compareRepeatedVariables(Runtime& runtime, Operator* scan, const QueryGraph::Node& node, Register* subject, Register* predicate, Register* object)
+    // A scan does not compare the positions of a variable that occurs more than once
+{
+    Selection::Predicate* result = 0;
+    const bool constant[3] = {node.constSubject, node.constPredicate, node.constObject};
+    const uint64_t variable[3] = {node.subject, node.predicate, node.object};
+    Register* const reg[3] = {subject, predicate, object};
+    for (unsigned index = 0; index < 3; index++)
+        for (unsigned index2 = index + 1; index2 < 3; index2++)
+            if ((!constant[index]) && (!constant[index2]) && (variable[index] == variable[index2]) && reg[index] && reg[index2] && (reg[index] != reg[index2])) {
+                Selection::Predicate* p = new Selection::BuiltinSameTerm(new Selection::Variable(reg[index]), new Selection::Variable(reg[index2]));
+                result = result ? new Selection::And(result, p) : p;
+            }
+    if (!result)
+        return scan;
+    return new Selection(scan, runtime, result, scan->getExpectedOutputCardinality());
+}
+//---------------------------------------------------------------------------
 static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an index scan into an operator tree
 {
@@ -103,11 +121,11 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
 
-    return IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
+    return compareRepeatedVariables(runtime, IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
-            plan->cardinality);
+            plan->cardinality), node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static DBLayer::DataOrder columnOrder(DBLayer::DataOrder order)
@@ -148,11 +166,11 @@ static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsign
     // And return the operator
     //if (runtime.hasDifferentialIndex())
     //return runtime.getDifferentialIndex().createAggregatedScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
-    return AggregatedIndexScan::create(runtime.getDatabase(), order,
+    return compareRepeatedVariables(runtime, AggregatedIndexScan::create(runtime.getDatabase(), order,
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
-            plan->cardinality);
+            plan->cardinality), node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
@@ -175,11 +193,11 @@ static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<u
     // And return the operator
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createFullyAggregatedScan(static_cast<DBLayer::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
-    return FullyAggregatedIndexScan::create(runtime.getDatabase(), order,
+    return compareRepeatedVariables(runtime, FullyAggregatedIndexScan::create(runtime.getDatabase(), order,
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
-            plan->cardinality);
+            plan->cardinality), node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const map<unsigned, Register*>& context, set<unsigned>& variables, Plan* plan)
-- 
2.43.0


From 7d2f3811699b98c16da7ccc73a25202211aa86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:27 +0000
Subject: [PATCH 053/158] fix: the plans of MINUS and of subselects are
 initialised

---
 rdf3x/src/cts/PlanGen.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index f4e74bf..b390ec8 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -933,7 +933,7 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
     // Check if we could handle the query
     if ((query.nodes.size() + query.optional.size() + query.unions.size() +
                 query.subqueries.size() + query.tableFunctions.size() +
-                singletonNeeded) > BitSet::maxWidth)
+                query.valueNodes.size() + singletonNeeded) > BitSet::maxWidth)
         return 0;
 
     //Is it a subselect?
@@ -942,11 +942,17 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         PlanGen p(plans);
         p.init(db, *itr->get());
         Plan* childPlan = p.translate_int((*itr)->getQuery(), *itr->get(), completeEstimate);
+        if (!childPlan)
+            return 0;
         Plan* plan = plans->alloc();
         plan->op = Plan::Subselect;
+        plan->opArg = 0;
         plan->left = childPlan;
         plan->right = reinterpret_cast<Plan*>(
                 const_cast<QueryGraph*>(itr->get()));
+        plan->next = 0;
+        plan->costs = childPlan->costs;
+        plan->ordering = ~0u;
         //Little tweak: if there is a limit, then this limits the cardinality
         plan->cardinality = childPlan->cardinality;
         if (plan->cardinality > (*itr)->getLimit()) {
@@ -1295,12 +1301,18 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
     //Is there a minus
     for (const auto &itr : query.minuses) {
         Plan* subqueryPlan = translate_int(itr->getQuery(), *itr, completeEstimate);
+        if (!subqueryPlan)
+            continue;
         subqueryPlan->subquery = itr;
         Plan* p = plans->alloc();
         p->op = Plan::Minus;
+        p->opArg = 0;
         p->left = plan;
         p->right = subqueryPlan;
+        p->next = 0;
         p->cardinality = plan->cardinality;
+        p->costs = plan->costs + subqueryPlan->costs;
+        p->ordering = plan->ordering;
         plan = p;
     }
 
-- 
2.43.0


From 6d9944be85a6ed3ba952b2affd7d1d3b5ac7412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:27 +0000
Subject: [PATCH 054/158] fix: merge unions consider every use of their
 variables and unions of one group

---
 rdf3x/src/cts/CodeGen.cpp | 11 ++++++-----
 rdf3x/src/cts/PlanGen.cpp | 39 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 74203a8..ecdaeaf 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -223,7 +223,8 @@ static void collectVariables(const map<unsigned, Register*>& context, set<unsign
         case Plan::MergeUnion:
         case Plan::CartProd:
                                              collectVariables(context, variables, plan->left);
-                                             collectVariables(context, variables, plan->right);
+                                             if (plan->right)
+                                                 collectVariables(context, variables, plan->right);
                                              break;
         case Plan::HashGroupify:
         case Plan::Filter:
@@ -998,10 +999,10 @@ static Operator* translateMergeUnion(Runtime& runtime, const map<unsigned, Regis
     Operator* right = translatePlan(runtime, context, projection, rightBinding, registers, plan->right);
 
     // Collect the binding
-    assert(leftBinding.size() == 1);
-    assert(rightBinding.size() == 1);
-    unsigned resultVar = (*(leftBinding.begin())).first;
-    Register* leftReg = (*(leftBinding.begin())).second, *rightReg = (*(rightBinding.begin())).second;
+    unsigned resultVar = plan->ordering;
+    assert(leftBinding.count(resultVar));
+    assert(rightBinding.count(resultVar));
+    Register* leftReg = leftBinding[resultVar], *rightReg = rightBinding[resultVar];
     bindings[resultVar] = leftReg;
 
     // Build the operator
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index b390ec8..85f4a36 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -703,6 +703,17 @@ PlanGen::Problem* PlanGen::buildOptional(const QueryGraph::SubQuery& query,
     return result;
 }
 //---------------------------------------------------------------------------
+static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except);
+static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const void* except);
+static void collectVariables(const QueryGraph::TableFunction& function, set<unsigned>& vars)
+    // Collect all variables of a function
+{
+    for (const auto& argument : function.input)
+        if (~argument.id)
+            vars.insert(argument.id);
+    vars.insert(function.output.begin(), function.output.end());
+}
+//---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& vars, const void* except)
     // Collect all variables used in a filter
 {
@@ -713,6 +724,11 @@ static void collectVariables(const QueryGraph::Filter* filter, set<unsigned>& va
     collectVariables(filter->arg1, vars, except);
     collectVariables(filter->arg2, vars, except);
     collectVariables(filter->arg3, vars, except);
+    collectVariables(filter->arg4, vars, except);
+    if (filter->subpattern)
+        collectVariables(*filter->subpattern, vars, except);
+    if (filter->subquery)
+        collectVariables(*filter->subquery, vars, except);
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& vars, const void* except)
@@ -736,6 +752,17 @@ static void collectVariables(const QueryGraph::SubQuery& query, set<unsigned>& v
             for (vector<QueryGraph::SubQuery>::const_iterator iter2 = (*iter).begin(), limit2 = (*iter).end(); iter2 != limit2; ++iter2)
                 if (except != (&(*iter2)))
                     collectVariables(*iter2, vars, except);
+    for (const auto& values : query.valueNodes)
+        if (except != &values)
+            vars.insert(values.variables.begin(), values.variables.end());
+    for (const auto& subquery : query.subqueries)
+        if (except != &subquery)
+            collectVariables(*subquery, vars, except);
+    for (const auto& minus : query.minuses)
+        collectVariables(*minus, vars, except);
+    for (const auto& function : query.tableFunctions)
+        if (except != &function)
+            collectVariables(function, vars);
 }
 //---------------------------------------------------------------------------
 static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const void* except)
@@ -743,6 +770,16 @@ static void collectVariables(const QueryGraph& query, set<unsigned>& vars, const
 {
     for (QueryGraph::projection_iterator iter = query.projectionBegin(), limit = query.projectionEnd(); iter != limit; ++iter)
         vars.insert(*iter);
+    for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
+        if (~(*iter).id)
+            vars.insert((*iter).id);
+    vars.insert(query.getGroupBy().begin(), query.getGroupBy().end());
+    for (auto v : query.c_getAggredateHandler().getInputOutputVars().first)
+        vars.insert(v);
+    for (const auto& filter : query.getHavings())
+        collectVariables(&filter, vars, except);
+    for (const auto& function : query.c_getGlobalAssignments())
+        collectVariables(function, vars);
     if (except != (&(query.getQuery())))
         collectVariables(query.getQuery(), vars, except);
 }
@@ -819,7 +856,7 @@ PlanGen::Problem* PlanGen::buildUnion(const vector<QueryGraph::SubQuery>& query,
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.begin(), limit = query.end(); iter != limit; ++iter)
         collectVariables(*iter, unionVars, 0);
     set_intersection(otherVars.begin(), otherVars.end(), unionVars.begin(), unionVars.end(), back_inserter(commonVars));
-    if (commonVars.size() == 1) {
+    if ((commonVars.size() == 1) && (solutions.size() > 1)) {
         unsigned resultVar = commonVars[0];
         // Can we get all plans sorted in this way?
         bool canMerge = true;
-- 
2.43.0


From 066bbe417586b1a870d0d13694434a8634ee4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:18 +0000
Subject: [PATCH 055/158] fix: optional parts are joined after everything they
 need, and keep rows without a partner

---
 rdf3x/include/rts/operator/HashJoin.hpp |   8 ++
 rdf3x/src/cts/CodeGen.cpp               |  29 +++++-
 rdf3x/src/cts/PlanGen.cpp               | 113 ++++++++++++++++++++++--
 rdf3x/src/rts/HashJoin.cpp              |  32 ++++++-
 4 files changed, 167 insertions(+), 15 deletions(-)

diff --git a/rdf3x/include/rts/operator/HashJoin.hpp b/rdf3x/include/rts/operator/HashJoin.hpp
index 92daaf3..6dbdcea 100644
--- a/rdf3x/include/rts/operator/HashJoin.hpp
+++ b/rdf3x/include/rts/operator/HashJoin.hpp
@@ -95,6 +95,11 @@ private:
     void insert(Entry* e);
     /// Lookup an entry
     inline Entry* lookup(uint64_t key);
+    /// Find the first entry in a bucket that satisfies the additional conditions
+    inline Entry* findPartner(Entry* e) const;
+
+    /// Additional conditions: positions in the left tail, and the values on the right side
+    std::vector<std::pair<uint64_t, Register*> > conditions;
 
     //Optional?
     bool leftOptional, rightOptional, joinSuccedeed;
@@ -109,6 +114,9 @@ public:
     /// Destructor
     ~HashJoin();
 
+    /// Add a condition that a partner must satisfy. It decides, unlike a selection, which tuples have a partner if the left side is optional
+    void addCondition(Register* leftReg, Register* rightReg);
+
     /// Produce the first tuple
     uint64_t first();
     /// Produce the next tuple
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index ecdaeaf..d8ccc76 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -393,7 +393,11 @@ static Operator* translateMergeJoin(Runtime& runtime, const map<unsigned, Regist
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    // A variable may be unbound on the optional side
+    if (plan->left->optional)
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+    else
+        mergeBindings(projection, bindings, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
@@ -428,7 +432,11 @@ static Operator* translateHashJoin(Runtime& runtime, const map<unsigned, Registe
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    // A variable may be unbound on the optional side
+    if (plan->left->optional)
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+    else
+        mergeBindings(projection, bindings, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
@@ -440,7 +448,16 @@ static Operator* translateHashJoin(Runtime& runtime, const map<unsigned, Registe
             rightTail.push_back((*iter).second);
 
     // Build the operator
-    Operator* result = new HashJoin(leftTree, leftBindings[joinOn], leftTail, rightTree, rightBindings[joinOn], rightTail, -plan->left->costs, plan->right->costs, plan->cardinality, plan->left->optional, plan->right->optional, bitset);
+    HashJoin* join = new HashJoin(leftTree, leftBindings[joinOn], leftTail, rightTree, rightBindings[joinOn], rightTail, -plan->left->costs, plan->right->costs, plan->cardinality, plan->left->optional, plan->right->optional, bitset);
+    Operator* result = join;
+
+    if (plan->left->optional) {
+        // The other join predicates decide if there is a partner
+        for (set<unsigned>::const_iterator iter = joinVariables.begin(), limit = joinVariables.end(); iter != limit; ++iter)
+            if ((*iter) != joinOn)
+                join->addCondition(leftBindings[*iter], rightBindings[*iter]);
+        return result;
+    }
 
     // And apply additional selections if necessary
     result = addAdditionalSelections(runtime, result, joinVariables, leftBindings, rightBindings, joinOn);
@@ -460,7 +477,11 @@ static Operator* translateCartProd(Runtime& runtime,
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, projection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, projection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    // A variable may be unbound on the optional side
+    if (plan->left->optional)
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+    else
+        mergeBindings(projection, bindings, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 85f4a36..ff07b82 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -964,7 +964,8 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
     // Translate a query into an operator tree
 {
     bool singletonNeeded = (!(query.nodes.size() +
-                query.optional.size() +
+                query.optional.size() + query.valueNodes.size() +
+                query.subqueries.size() +
                 query.unions.size())) && query.tableFunctions.size();
 
     // Check if we could handle the query
@@ -998,6 +999,73 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         subqueryPlans.push_back(plan);
     }
 
+    // Collect the variables each relation binds
+    vector<set<unsigned> > relationVariables;
+    for (const auto& node : query.nodes) {
+        relationVariables.push_back(set<unsigned>());
+        if (!node.constSubject) relationVariables.back().insert(node.subject);
+        if (!node.constPredicate) relationVariables.back().insert(node.predicate);
+        if (!node.constObject) relationVariables.back().insert(node.object);
+    }
+    for (const auto& values : query.valueNodes)
+        relationVariables.push_back(set<unsigned>(values.variables.begin(), values.variables.end()));
+    const unsigned firstOptional = relationVariables.size();
+    for (const auto& optional : query.optional) {
+        relationVariables.push_back(set<unsigned>());
+        collectVariables(optional, relationVariables.back(), 0);
+    }
+    const unsigned firstUnion = relationVariables.size();
+    for (const auto& parts : query.unions) {
+        relationVariables.push_back(set<unsigned>());
+        for (const auto& part : parts)
+            collectVariables(part, relationVariables.back(), 0);
+    }
+    for (const auto& subquery : query.subqueries)
+        relationVariables.push_back(set<unsigned>(subquery->projectionBegin(), subquery->projectionEnd()));
+
+    // An optional relation is joined with all others that have common variables
+    const bool onlyOptional = query.nodes.empty() && query.valueNodes.empty() && query.unions.empty() && query.subqueries.empty() && query.tableFunctions.empty();
+    vector<BitSet> optionalNeeds(query.optional.size());
+    for (unsigned optional = firstOptional; optional < firstUnion; optional++)
+        for (unsigned index = 0; index < relationVariables.size(); index++) {
+            if ((index >= firstOptional) && (index < firstUnion))
+                continue;
+            for (auto v : relationVariables[optional])
+                if (relationVariables[index].count(v)) {
+                    optionalNeeds[optional - firstOptional].set(index);
+                    break;
+                }
+        }
+    BitSet optionalRelations;
+    for (unsigned optional = firstOptional; optional < firstUnion; optional++)
+        optionalRelations.set(optional);
+    auto canJoin = [&](const BitSet& left, const BitSet& right) {
+        for (unsigned optional = firstOptional; optional < firstUnion; optional++) {
+            BitSet single;
+            single.set(optional);
+            if ((left != single) && (right != single))
+                continue;
+            const BitSet& other = (left == single) ? right : left;
+            if (!optionalNeeds[optional - firstOptional].subsetOf(other))
+                return false;
+            if ((!onlyOptional) && other.subsetOf(optionalRelations))
+                return false;
+        }
+        return true;
+    };
+    auto countCommonVariables = [&](const BitSet& left, const BitSet& right) {
+        set<unsigned> leftVariables, common;
+        for (unsigned index = 0; index < relationVariables.size(); index++)
+            if (left.test(index))
+                leftVariables.insert(relationVariables[index].begin(), relationVariables[index].end());
+        for (unsigned index = 0; index < relationVariables.size(); index++)
+            if (right.test(index))
+                for (auto v : relationVariables[index])
+                    if (leftVariables.count(v))
+                        common.insert(v);
+        return common.size();
+    };
+
     // Seed the DP table with scans
     vector<Problem*> dpTable;
     dpTable.resize(query.nodes.size() + query.optional.size() +
@@ -1103,12 +1171,16 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         for (vector<QueryGraph::TableFunction::Argument>::const_iterator iter2 = (*iter).input.begin(), limit2 = (*iter).input.end(); iter2 != limit2; ++iter2)
             if (~(*iter2).id)
                 input.insert((*iter2).id);
-        for (unsigned index = 0; index < query.nodes.size(); index++) {
-            uint64_t s = query.nodes[index].constSubject ? INT64_MAX : query.nodes[index].subject;
-            uint64_t p = query.nodes[index].constPredicate ? INT64_MAX : query.nodes[index].predicate;
-            uint64_t o = query.nodes[index].constObject ? INT64_MAX : query.nodes[index].object;
-            if (input.count(s) || input.count(p) || input.count(o) || input.empty())
+        for (unsigned index = 0; index < relationVariables.size(); index++) {
+            if (input.empty()) {
                 join.left.set(index);
+                continue;
+            }
+            for (auto v : input)
+                if (relationVariables[index].count(v)) {
+                    join.left.set(index);
+                    break;
+                }
         }
         if (singletonNeeded && input.empty())
             join.left.set(singletonId);
@@ -1141,6 +1213,9 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                     BitSet rightRel = iter2->relations;
                     if (leftRel.overlapsWith(rightRel))
                         continue;
+                    // Is one side optional and the other one incomplete?
+                    if (!canJoin(leftRel, rightRel))
+                        continue;
 
                     // Investigate all join candidates
                     Problem* problem = 0;
@@ -1190,7 +1265,9 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                             joinOrderings.push_back((*iter3).ordering);
                             selectivity = (*iter3).selectivity;
                             for (++iter3; iter3 != limit3; ++iter3) {
-                                joinOrderings.push_back((*iter3).ordering);
+                                // The input of a function is not a join attribute
+                                if (!(*iter3).tableFunction)
+                                    joinOrderings.push_back((*iter3).ordering);
                                 // selectivity*=(*iter3).selectivity;
                             }
                             break;
@@ -1198,11 +1275,15 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                     if (!problem)
                         continue;
 
+                    // A merge join cannot check further common variables of an optional part
+                    bool oneCommonVariable = countCommonVariables(leftRel, rightRel) == 1;
+
                     // Combine phyiscal plans
                     for (Plan* leftPlan = iter->plans; leftPlan; leftPlan = leftPlan->next) {
                         for (Plan* rightPlan = iter2->plans; rightPlan; rightPlan = rightPlan->next) {
+                            bool optionalJoin = leftPlan->optional || rightPlan->optional;
                             // Try a merge joins
-                            if (leftPlan->ordering == rightPlan->ordering) {
+                            if ((leftPlan->ordering == rightPlan->ordering) && ((!optionalJoin) || oneCommonVariable)) {
                                 for (vector<unsigned>::const_iterator iter = joinOrderings.begin(), limit = joinOrderings.end(); iter != limit; ++iter) {
                                     if (leftPlan->ordering == (*iter)) {
                                         Plan* p = plans->alloc();
@@ -1219,6 +1300,20 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                                     }
                                 }
                             }
+                            // An optional part is looked up in a hash table
+                            if (optionalJoin) {
+                                Plan* p = plans->alloc();
+                                p->op = Plan::HashJoin;
+                                p->opArg = 0;
+                                p->left = leftPlan->optional ? leftPlan : rightPlan;
+                                p->right = leftPlan->optional ? rightPlan : leftPlan;
+                                p->next = 0;
+                                if ((p->cardinality = leftPlan->cardinality * rightPlan->cardinality) < 1) p->cardinality = 1;
+                                p->costs = p->left->costs + p->right->costs + Costs::hashJoin(p->left->cardinality, p->right->cardinality);
+                                p->ordering = ~0u;
+                                addPlan(problem, p);
+                                continue;
+                            }
                             // Try a hash join
                             if (selectivity >= 0) {
                                 Plan* p = plans->alloc();
@@ -1268,6 +1363,8 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
                         BitSet rightRel = iter2->relations;
                         if (leftRel.overlapsWith(rightRel))
                             continue;
+                        if ((!iter->plans) || (!iter2->plans) || (!canJoin(leftRel, rightRel)))
+                            continue;
                         Problem* problem = 0;
                         BitSet relations = leftRel.unionWith(rightRel);
                         lookup[relations] = problem = problems.alloc();
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 378b59e..d8900c6 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -196,6 +196,32 @@ HashJoin::Entry* HashJoin::lookup(uint64_t key)
     return 0;
 }
 //---------------------------------------------------------------------------
+void HashJoin::addCondition(Register* leftReg, Register* rightReg)
+    // Add a condition that a partner must satisfy
+{
+    for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
+        if (leftTail[index] == leftReg) {
+            conditions.push_back(make_pair(index, rightReg));
+            return;
+        }
+}
+//---------------------------------------------------------------------------
+HashJoin::Entry* HashJoin::findPartner(Entry* e) const
+    // Find the first entry in a bucket that satisfies the additional conditions
+{
+    for (; e; e = e->next) {
+        bool match = true;
+        for (vector<pair<uint64_t, Register*> >::const_iterator iter = conditions.begin(), limit = conditions.end(); iter != limit; ++iter)
+            if (e->values[(*iter).first] != (*iter).second->value) {
+                match = false;
+                break;
+            }
+        if (match)
+            break;
+    }
+    return e;
+}
+//---------------------------------------------------------------------------
 uint64_t HashJoin::first()
     // Produce the first tuple
 {
@@ -226,7 +252,7 @@ uint64_t HashJoin::first()
     }
 
     // Setup the lookup
-    hashTableIter = lookup(rightValue->value);
+    hashTableIter = findPartner(lookup(rightValue->value));
     joinSuccedeed = hashTableIter != NULL;
     if (rightOptional && joinSuccedeed) {
         collectedRightValues.insert(rightValue->value);
@@ -270,7 +296,7 @@ uint64_t HashJoin::next()
             leftValue->value = hashTableIter->key;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
                 leftTail[index]->value = hashTableIter->values[index];
-            hashTableIter = hashTableIter->next;
+            hashTableIter = findPartner(hashTableIter->next);
 
             uint64_t count = leftCount * rightCount;
             observedOutputCardinality += count;
@@ -308,7 +334,7 @@ uint64_t HashJoin::next()
             }
         }
 
-        hashTableIter = lookup(rightValue->value);
+        hashTableIter = findPartner(lookup(rightValue->value));
         joinSuccedeed = hashTableIter != NULL;
         if (rightOptional && joinSuccedeed) {
             collectedRightValues.insert(rightValue->value);
-- 
2.43.0


From 7e434e649ea9be8515471ee7ab83785cc3d474a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:18 +0000
Subject: [PATCH 056/158] fix: a union leaves the variables of its other
 branches unbound in every row

---
 rdf3x/src/rts/Union.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index a8e8175..eafa691 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -71,7 +71,9 @@ uint64_t Union::next()
       return firstFromPart();
    }
 
-   // Yes, perform mapping
+   // Yes, perform initializations and mapping. A consumer may have overwritten the registers
+   for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
+      (*iter)->value=UINT64_MAX;
    for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
       Register* from=*iter; ++iter;
       Register* to=*iter; ++iter;
-- 
2.43.0


From c6c5c8b331de8ac3d23f9af114983cb580fa65af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:58 +0000
Subject: [PATCH 057/158] fix: results of unions and optional parts are not
 pruned by the domains of one branch

---
 rdf3x/src/cts/CodeGen.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index d8ccc76..5d57b7c 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -327,6 +327,13 @@ static void mergeBindings(const set<unsigned>& projection, map<unsigned, Registe
             bindings[(*iter).first] = (*iter).second;
 }
 //---------------------------------------------------------------------------
+static void dropDomains(const map<unsigned, Register*>& bindings)
+    // The registers also hold values from elsewhere, or none at all: the domains of the scans below do not cover these
+{
+    for (map<unsigned, Register*>::const_iterator iter = bindings.begin(), limit = bindings.end(); iter != limit; ++iter)
+        (*iter).second->domain = 0;
+}
+//---------------------------------------------------------------------------
 static Operator* addAdditionalSelections(Runtime& runtime, Operator* input, const set<unsigned>& joinVariables, map<unsigned, Register*>& leftBindings, map<unsigned, Register*>& rightBindings, unsigned joinedOn)
     // Convert additional join predicates into a selection
 {
@@ -393,6 +400,10 @@ static Operator* translateMergeJoin(Runtime& runtime, const map<unsigned, Regist
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
+    if (plan->left->optional)
+        dropDomains(leftBindings);
+    if (plan->right->optional)
+        dropDomains(rightBindings);
     // A variable may be unbound on the optional side
     if (plan->left->optional)
         mergeBindings(projection, bindings, rightBindings, leftBindings);
@@ -432,6 +443,10 @@ static Operator* translateHashJoin(Runtime& runtime, const map<unsigned, Registe
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
+    if (plan->left->optional)
+        dropDomains(leftBindings);
+    if (plan->right->optional)
+        dropDomains(rightBindings);
     // A variable may be unbound on the optional side
     if (plan->left->optional)
         mergeBindings(projection, bindings, rightBindings, leftBindings);
@@ -477,6 +492,10 @@ static Operator* translateCartProd(Runtime& runtime,
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, projection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, projection, rightBindings, registers, plan->right);
+    if (plan->left->optional)
+        dropDomains(leftBindings);
+    if (plan->right->optional)
+        dropDomains(rightBindings);
     // A variable may be unbound on the optional side
     if (plan->left->optional)
         mergeBindings(projection, bindings, rightBindings, leftBindings);
@@ -990,6 +1009,8 @@ static Operator* translateUnion(Runtime& runtime, const map<unsigned, Register*>
             if (!bindings.count((*iter2).first))
                 bindings[(*iter2).first] = (*iter2).second;
 
+    dropDomains(bindings);
+
     // Construct the mappings and initializations
     vector<vector<Register*> > mappings, initializations;
     mappings.resize(parts.size());
@@ -1025,6 +1046,7 @@ static Operator* translateMergeUnion(Runtime& runtime, const map<unsigned, Regis
     assert(rightBinding.count(resultVar));
     Register* leftReg = leftBinding[resultVar], *rightReg = rightBinding[resultVar];
     bindings[resultVar] = leftReg;
+    dropDomains(bindings);
 
     // Build the operator
     Operator* result = new MergeUnion(leftReg, left, leftReg, right, rightReg, plan->cardinality);
-- 
2.43.0


From 174739aace27802bc3218b4d3b899d66abd1f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 058/158] fix: VALUES, subselects and MINUS bind only the
 variables that are needed

---
 rdf3x/src/cts/CodeGen.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 5d57b7c..51e8280 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -82,7 +82,8 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
         unsigned var = node.variables[i];
         Register *reg = runtime.getRegister(registers.find((QueryGraph::Node*)&node)->second + i);
         regs.push_back(reg);
-        bindings[var] = reg;
+        if (projection.count(var))
+            bindings[var] = reg;
     }
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
@@ -918,7 +919,9 @@ static Operator* translateSubselect(Runtime& runtime, /*const map<unsigned, Regi
     int i = 0;
     for (QueryGraph::projection_iterator itr = query->projectionBegin();
             itr != query->projectionEnd(); ++itr) {
-        bindings.insert(make_pair(*itr, outputFromTheSubquery[i++]));
+        if (projection.count(*itr))
+            bindings.insert(make_pair(*itr, outputFromTheSubquery[i]));
+        i++;
     }
 
     tree = new DuplLimit(tree, outputFromTheSubquery, duplicateHandling,
@@ -976,6 +979,11 @@ static Operator* translateMinus(Runtime& runtime,const map<unsigned, Register*>&
 
     Operator *result = new Minus(mainTree, minusTree, regsToCheck,
             plan->left->cardinality);
+
+    // Cleanup the binding
+    for (auto v : varsToCheck)
+        if (!projection.count(v))
+            bindings.erase(v);
     return result;
 
 }
-- 
2.43.0


From 9b2691ea1a16622bf5c30c43d52d7db1848b85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:35 +0000
Subject: [PATCH 059/158] fix: a distinct subselect removes all duplicates

---
 rdf3x/src/cts/PlanGen.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index ff07b82..a21b4dd 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -982,6 +982,19 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         Plan* childPlan = p.translate_int((*itr)->getQuery(), *itr->get(), completeEstimate);
         if (!childPlan)
             return 0;
+        if ((*itr)->getDuplicateHandling() == QueryGraph::NoDuplicates) {
+            // Duplicates need not be adjacent
+            Plan* group = plans->alloc();
+            group->op = Plan::HashGroupify;
+            group->opArg = 0;
+            group->left = childPlan;
+            group->right = 0;
+            group->next = 0;
+            group->cardinality = childPlan->cardinality;
+            group->costs = childPlan->costs;
+            group->ordering = ~0u;
+            childPlan = group;
+        }
         Plan* plan = plans->alloc();
         plan->op = Plan::Subselect;
         plan->opArg = 0;
-- 
2.43.0


From 279b62fb4ea78b33a62f3d32eece7abfe6c8cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:53 +0000
Subject: [PATCH 060/158] fix: NOT EXISTS compares any number of variables

---
 rdf3x/include/rts/operator/Selection.hpp |  6 +++---
 rdf3x/src/rts/Selection.cpp              | 25 ++++++++++++------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 0d77c72..3c12bbb 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -15,6 +15,7 @@
 #include "infra/util/Type.hpp"
 #include <vector>
 #include <string>
+#include <set>
 #include <unordered_set>
 #include <map>
 //---------------------------------------------------------------------------
@@ -588,9 +589,8 @@ class Selection : public Operator {
         /// Builtin not exists
         class BuiltinNotExists : public Predicate {
             private:
-                /// The probe
-                std::unique_ptr<Predicate> probe;
-                std::unordered_set<uint64_t> set;
+                /// The solutions of the pattern, restricted to the common variables
+                std::set<std::vector<uint64_t> > solutions;
                 std::unique_ptr<Operator> tree;
                 std::vector<Register *> regsToLoad;
                 std::vector<Register *> regsToCheck;
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 6ba1cdd..5127622 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -1158,9 +1158,6 @@ Selection::BuiltinNotExists::BuiltinNotExists(Operator *tree,
     regsToLoad(regsToLoad), regsToCheck(regsToCheck), runtime(runtime), loaded(false)
 {
     this->tree = std::unique_ptr<Operator>(tree);
-    probe = std::unique_ptr<Predicate>(new Selection::Variable(regsToCheck[0]));
-    if (regsToLoad.size() != 1)
-        throw;
 }
 //---------------------------------------------------------------------------
 void Selection::BuiltinNotExists::eval(Result& result)
@@ -1169,20 +1166,19 @@ void Selection::BuiltinNotExists::eval(Result& result)
     if (!loaded) {
         if (tree->first()) {
             do {
-                set.insert(regsToLoad[0]->value);
+                std::vector<uint64_t> row;
+                for (auto reg : regsToLoad)
+                    row.push_back(reg->value);
+                solutions.insert(row);
             } while (tree->next());
         }
         loaded = true;
     }
 
-    Result p, c;
-    probe->eval(p); // The variable to be checked
-
-    if (!set.count(p.id)) {
-        result.setBoolean(true);
-    } else {
-        result.setBoolean(false);
-    }
+    std::vector<uint64_t> row;
+    for (auto reg : regsToCheck)
+        row.push_back(reg->value);
+    result.setBoolean(!solutions.count(row));
 }
 //---------------------------------------------------------------------------
 string Selection::BuiltinNotExists::print(PlanPrinter& out)
@@ -1191,7 +1187,10 @@ string Selection::BuiltinNotExists::print(PlanPrinter& out)
     std::ostringstream oss;
     DebugPlanPrinter pp(oss, runtime, true);
     tree->print(pp);
-    return "not_exists(" + probe->print(out) + " in " + oss.str() + ")";
+    std::string result = "not_exists(";
+    for (auto reg : regsToCheck)
+        result += out.formatRegister(reg) + " ";
+    return result + "in " + oss.str() + ")";
 }
 //---------------------------------------------------------------------------
 void Selection::AggrFunction::eval(Result& result)
-- 
2.43.0


From 1e4a2ee7e655f4edfa1d337af1602bfa0c03a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:22 +0000
Subject: [PATCH 061/158] fix: the second input of MINUS does not count as
 binding variables

---
 rdf3x/src/cts/CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 51e8280..5442dbb 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -241,8 +241,8 @@ static void collectVariables(const map<unsigned, Register*>& context, set<unsign
         case Plan::Singleton:
                                   break;
         case Plan::Minus:
+                                  // The other side binds nothing
                                   collectVariables(context, variables, plan->left);
-                                  collectVariables(context, variables, plan->right);
                                   break;
         case Plan::ValuesScan:
                                   for (auto v : ((QueryGraph::ValuesNode*) plan->left)->variables) {
-- 
2.43.0


From c3542461d917ffa03dbf38e2a49d2d4ba68985e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:44 +0000
Subject: [PATCH 062/158] fix: the output of BIND counts as a use in the
 patterns of MINUS, NOT EXISTS and OPTIONAL

---
 rdf3x/src/cts/PlanGen.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index a21b4dd..850bfd8 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -420,6 +420,11 @@ static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
         if (itr->id == val)
             return false;
     }
+    //The patterns of MINUS, NOT EXISTS and OPTIONAL can use the output
+    for (std::vector<unsigned>::const_iterator itr = function->output.begin(); itr != function->output.end(); ++itr) {
+        if (*itr == val)
+            return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 52996fc1b7c3db0bbda49a6051680929d15a0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:17 +0000
Subject: [PATCH 063/158] fix: TLst::Ins links the inserted node from its
 successor and returns it

---
 snap/glib-core/ds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index f02473c..fb1e802 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -2659,8 +2659,8 @@ TLstNd<TVal>* TLst<TVal>::Ins(const PLstNd& Nd, const TVal& Val){
   else if (Nd->NextNd==NULL){return AddBack(Val);}
   else {
     PLstNd NewNd=new TLstNd<TVal>(Nd, Nd->NextNd, Val);
-    Nd->NextNd=NewNd; NewNd->NextNd->PrevNd=Nd;
-    Nds++; return Nd;
+    Nd->NextNd=NewNd; NewNd->NextNd->PrevNd=NewNd;
+    Nds++; return NewNd;
   }
 }
 
-- 
2.43.0


From 833eeaef4bc2027a59d448e5bf8a25a3a1e342c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:17 +0000
Subject: [PATCH 064/158] fix: TLst::AddFrontSorted compiles and keeps the list
 sorted

---
 snap/glib-core/ds.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index fb1e802..4565b31 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -2607,14 +2607,10 @@ TLstNd<TVal>* TLst<TVal>::AddBack(const TVal& Val){
 template <class TVal>
 TLstNd<TVal>* TLst<TVal>::AddFrontSorted(const TVal& Val, const bool& Asc){
   PLstNd Nd=First();
-  if (Nd==NULL){
-    return Ins(Nd, Val);
-  } else {
-    while ((Nd!=NULL)&&((Asc&&(Val>Nd()))||(!Asc&&(Val<Nd())))){
-      Nd=Nd->Next();}
-    if (Nd==NULL){return Ins(Nd->Last(), Val);}
-    else {return Ins(Nd->Prev(), Val);}
-  }
+  while ((Nd!=NULL)&&((Asc&&(Nd->Val<Val))||(!Asc&&(Val<Nd->Val)))){
+    Nd=Nd->Next();}
+  if (Nd==NULL){return AddBack(Val);}
+  return Ins(Nd->Prev(), Val);
 }
 
 template <class TVal>
-- 
2.43.0


From 00244181b6ab23190caac0bf502d2af5a2f61dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 065/158] fix: TVec::Pack of an empty vector records that no
 capacity is left

---
 snap/glib-core/ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index 4565b31..f653428 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -915,7 +915,7 @@ template <class TVal, class TSizeTy>
 void TVec<TVal, TSizeTy>::Pack(){
   IAssertR(MxVals!=-1, "This vector was obtained from TVecPool. Such vectors cannot change its size!");
   if (Vals==0){
-    if (ValT!=NULL){delete[] ValT;} ValT=NULL;
+    if (ValT!=NULL){delete[] ValT;} MxVals=0; ValT=NULL;
   } else
     if (Vals<MxVals){
       MxVals=Vals;
-- 
2.43.0


From 276033b9dcfd433d0bc70d48036101e78ea6e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 066/158] fix: TVec::PrevPerm produces the previous permutation
 and stays in range

---
 snap/glib-core/ds.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index f653428..88be39e 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -1236,16 +1236,16 @@ bool TVec<TVal, TSizeTy>::PrevPerm() {
   TSizeTy First = 0, Last = Len(), Next = Len()-1;
   if (Last < 2) return false;
   for(; ; ) {
-    // find rightmost element not smaller than successor
+    // find rightmost element larger than successor
     TSizeTy Next1 = Next;
-    if (GetVal(--Next) >= GetVal(Next1)) { // swap with rightmost element that's not smaller, flip suffix
+    if (GetVal(Next1) < GetVal(--Next)) { // swap with rightmost element that's smaller, flip suffix
       TSizeTy Mid = Last;
-      for (; GetVal(Next) < GetVal(--Mid); ) { }
+      for (; !(GetVal(--Mid) < GetVal(Next)); ) { }
       Swap(Next, Mid);
-      Reverse(Next1, Last);
+      Reverse(Next1, Last-1);
       return true;
     }
-    if (Next == First) { // pure descending, flip all
+    if (Next == First) { // pure ascending, flip all
       Reverse();
       return false;
     }
-- 
2.43.0


From bbb4d8a63fd533121ac3baddce313f3296eb34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 067/158] fix: TVec::CopyUniqueFrom allocates when the vector
 has no storage yet

---
 snap/glib-core/ds.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index 88be39e..10144db 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -938,9 +938,9 @@ void TVec<TVal, TSizeTy>::MoveFrom(TVec<TVal, TSizeTy>& Vec){
 template <class TVal, class TSizeTy>
 void TVec<TVal, TSizeTy>::CopyUniqueFrom(TVec<TVal, TSizeTy>& Vec, TInt Offset, TInt Sz){
   if (this!=&Vec){
-    if (ValT!=NULL && MxVals!=-1 && MxVals < Sz){
-      delete[] ValT;
-      ValT=new TVal[Sz];
+    if (MxVals!=-1 && MxVals < Sz){
+      if (ValT!=NULL){delete[] ValT;}
+      ValT=new TVal[Sz]; MxVals=Sz;
     }
     if (Sz == 0) { Vals = 0; return; }
     ValT[0] = Vec.ValT[Offset];
-- 
2.43.0


From 54859ae445095a5e8e609308c7fec3723ff29821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 068/158] fix: copying a TVec that refers to external memory
 copies the values

---
 snap/glib-core/ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index 10144db..8af66ae 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -796,7 +796,7 @@ TStr TVec<TVal, TSizeTy>::GetXOutOfBoundsErrMsg(const TSizeTy& ValN) const {
 
 template <class TVal, class TSizeTy>
 TVec<TVal, TSizeTy>::TVec(const TVec<TVal, TSizeTy>& Vec){
-  MxVals=Vec.MxVals; Vals=Vec.Vals;
+  MxVals=(Vec.MxVals==-1 ? Vec.Vals : Vec.MxVals); Vals=Vec.Vals;
   if (MxVals==0){ValT=NULL;} else {ValT=new TVal[MxVals];}
   for (TSizeTy ValN=0; ValN<Vec.Vals; ValN++){ValT[ValN]=Vec.ValT[ValN];}
 }
-- 
2.43.0


From 7e2cd32104cfa033e11ac20f52fc21b52fee194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 069/158] fix: copies of a TBigStrPool keep the strings'
 offsets

---
 snap/glib-core/hash.cpp | 2 +-
 snap/glib-core/hash.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/glib-core/hash.cpp b/snap/glib-core/hash.cpp
index 25fbc3d..aaf2fd7 100644
--- a/snap/glib-core/hash.cpp
+++ b/snap/glib-core/hash.cpp
@@ -52,8 +52,8 @@ void TBigStrPool::Save(TSOut& SOut) const {
 
 TBigStrPool& TBigStrPool::operator = (const TBigStrPool& Pool) {
   if (this != &Pool) {
-    GrowBy = Pool.GrowBy;  MxBfL = Pool.MxBfL;  BfL = Pool.BfL;
     if (Bf) free(Bf); else IAssert(MxBfL == 0);
+    GrowBy = Pool.GrowBy;  MxBfL = Pool.MxBfL;  BfL = Pool.BfL;  IdOffV = Pool.IdOffV;
     Bf = (char *) malloc(MxBfL);  IAssert(Bf);  memcpy(Bf, Pool.Bf, BfL);
   }
   return *this;
diff --git a/snap/glib-core/hash.h b/snap/glib-core/hash.h
index ec0b13a..e12e750 100644
--- a/snap/glib-core/hash.h
+++ b/snap/glib-core/hash.h
@@ -676,7 +676,7 @@ private:
 public:
   TBigStrPool(TSize MxBfLen = 0, uint _GrowBy = 16*1024*1024);
   TBigStrPool(TSIn& SIn, bool LoadCompact = true);
-  TBigStrPool(const TBigStrPool& Pool) : MxBfL(Pool.MxBfL), BfL(Pool.BfL), GrowBy(Pool.GrowBy) {
+  TBigStrPool(const TBigStrPool& Pool) : MxBfL(Pool.MxBfL), BfL(Pool.BfL), GrowBy(Pool.GrowBy), IdOffV(Pool.IdOffV) {
     Bf = (char *) malloc(Pool.MxBfL); IAssert(Bf); memcpy(Bf, Pool.Bf, Pool.BfL); }
   ~TBigStrPool() { if (Bf) free(Bf); else IAssert(MxBfL == 0);  MxBfL = 0; BfL = 0; }
 
-- 
2.43.0


From 3e92ed6e48d802a8cb619931c3d60c98bc9e2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 070/158] fix: TVecPool::CompactPool keeps every remaining
 value and stays inside the pool

---
 snap/glib-core/ds.h | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index 8af66ae..813ad5c 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -1714,28 +1714,19 @@ int TVecPool<TVal, TSizeTy>::AddEmptyV(const int& ValVLen) {
 // Delete all elements of value DelVal from all vectors. Empty space is left at the end of the pool.
 template <class TVal, class TSizeTy>
 void TVecPool<TVal, TSizeTy>::CompactPool(const TVal& DelVal) {
-  ::TSize TotalDel=0, NDel=0;
-  // printf("Compacting %d vectors\n", IdToOffV.Len());
+  ::TSize TotalDel=0;
+  TSize EndOff=0;  // one past the last kept value
+  TSize OldBeg=0;  // begin of the vector before compaction
   for (int vid = 1; vid < IdToOffV.Len(); vid++) {
-    // if (vid % 10000000 == 0) { printf(" %dm", vid/1000000);  fflush(stdout); }
-    const uint Len = GetVLen(vid);
-    TVal* ValV = GetValVPt(vid);
-    if (TotalDel > 0) { IdToOffV[vid-1] -= TotalDel; } // update end of vector
-    if (Len == 0) { continue; }
-    NDel = 0;
-    for (TVal* v = ValV; v < ValV+Len-NDel; v++) {
-      if (*v == DelVal) {
-        TVal* Beg = v;
-        while (*v == DelVal && v < ValV+Len) { v++; NDel++; }
-        memcpy(Beg, v, sizeof(TVal)*int(Len - ::TSize(v - ValV)));
-        v -= NDel;
-      }
+    const TSize OldEnd = IdToOffV[vid];
+    for (TSize ValN = OldBeg; ValN < OldEnd; ValN++) {
+      if (ValBf[ValN] == DelVal) { TotalDel++; }
+      else { if (EndOff != ValN) { ValBf[EndOff] = ValBf[ValN]; }  EndOff++; }
     }
-    memcpy(ValV-TotalDel, ValV, sizeof(TVal)*Len);  // move data
-    TotalDel += NDel;
+    IdToOffV[vid] = EndOff;
+    OldBeg = OldEnd;
   }
-  IdToOffV.Last() -= TotalDel;
-  for (::TSize i = Vals-TotalDel; i < Vals; i++) { ValBf[i] = EmptyVal; }
+  for (::TSize i = Vals-TotalDel; i < ::TSize(Vals); i++) { ValBf[i] = EmptyVal; }
   Vals -= TotalDel;
   // printf("  deleted %llu elements from the pool\n", TotalDel);
 }
-- 
2.43.0


From a31bf8eb70032eca70c0950606b4b1fd0e93c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 071/158] fix: a cleared TVecPool keeps its base offset, so
 that the next vector gets an id

---
 snap/glib-core/ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index 813ad5c..d37cb52 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -1584,7 +1584,7 @@ public:
 
   /// Clears the contents of the pool. ##TVecPool::Clr
   void Clr(bool DoDel = true) {
-    IdToOffV.Clr(DoDel);  MxVals=0;  Vals=0;
+    IdToOffV.Clr(DoDel);  IdToOffV.Add(0);  MxVals=0;  Vals=0;
     if (DoDel && ValBf!=NULL) { delete [] ValBf; ValBf=NULL;}
     if (! DoDel) { PutAll(EmptyVal); } }
   /// Sets the values of all elements in the pool to \c Val.
-- 
2.43.0


From 6d466e31b443f9d7a3e1b5fd0955c61097fa5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 072/158] fix: assigning a TVecPool releases the values it held

---
 snap/glib-core/ds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/glib-core/ds.h b/snap/glib-core/ds.h
index d37cb52..84cb7a5 100644
--- a/snap/glib-core/ds.h
+++ b/snap/glib-core/ds.h
@@ -1679,6 +1679,7 @@ TVecPool<TVal, TSizeTy>& TVecPool<TVal, TSizeTy>::operator = (const TVecPool& Po
     Vals = Pool.Vals;
     EmptyVal = Pool.EmptyVal;
     IdToOffV=Pool.IdToOffV;
+    if (ValBf!=NULL) { delete [] ValBf; ValBf=NULL; }
     try {
       ValBf = new TVal [MxVals]; }
     catch (std::exception Ex) {
-- 
2.43.0


From f181ee28a43c6c16b08aa2412a8e7376321f8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 073/158] fix: TStr::IsFlt accepts only the documented number
 format

---
 snap/glib-core/dt.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snap/glib-core/dt.cpp b/snap/glib-core/dt.cpp
index a3eaf5e..caea01e 100644
--- a/snap/glib-core/dt.cpp
+++ b/snap/glib-core/dt.cpp
@@ -1268,12 +1268,13 @@ bool TStr::IsFlt(const bool& Check, const double& MnVal, const double& MxVal,
   TChRet Ch(TStrIn::New(*this));
   while (TCh::IsWs(Ch.GetCh())){}
   if ((Ch()=='+')||(Ch()=='-')){Ch.GetCh();}
-  if (!TCh::IsNum(Ch())&&Ch()!=DecDelimCh){return false;}
-  while (TCh::IsNum(Ch.GetCh())){}
+  bool IsDigit=false;
+  while (TCh::IsNum(Ch())){IsDigit=true; Ch.GetCh();}
   if (Ch()==DecDelimCh){
     Ch.GetCh();
-    while (TCh::IsNum(Ch.GetCh())){}
+    while (TCh::IsNum(Ch())){IsDigit=true; Ch.GetCh();}
   }
+  if (!IsDigit){return false;}
   if ((Ch()=='e')||(Ch()=='E')){
     Ch.GetCh();
     if ((Ch()=='+')||(Ch()=='-')){Ch.GetCh();}
-- 
2.43.0


From 61f39d363fb946e7488130069b3639d6fea52e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 074/158] fix: integer strings have at most one sign

---
 snap/glib-core/dt.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/glib-core/dt.cpp b/snap/glib-core/dt.cpp
index caea01e..6c424dd 100644
--- a/snap/glib-core/dt.cpp
+++ b/snap/glib-core/dt.cpp
@@ -1164,7 +1164,7 @@ bool TStr::IsInt(
   TChRet Ch(TStrIn::New(*this));
   while (TCh::IsWs(Ch.GetCh())){}
   if (Ch()=='+'){Minus=false; Ch.GetCh();}
-  if (Ch()=='-'){Minus=true; Ch.GetCh();}
+  else if (Ch()=='-'){Minus=true; Ch.GetCh();}
   if (!TCh::IsNum(Ch())){return false;}
   _Val=TCh::GetNum(Ch());
   while (TCh::IsNum(Ch.GetCh())){_Val=10*_Val+TCh::GetNum(Ch());}
@@ -1194,7 +1194,7 @@ bool TStr::IsHexInt( const bool& Check, const int& MnVal, const int& MxVal, int&
   TChRet Ch(TStrIn::New(*this));
   while (TCh::IsWs(Ch.GetCh())){}
   if (Ch()=='+'){Minus=false; Ch.GetCh();}
-  if (Ch()=='-'){Minus=true; Ch.GetCh();}
+  else if (Ch()=='-'){Minus=true; Ch.GetCh();}
   if (Ch()=='0'){
     Ch.GetCh();
     if (tolower(Ch())=='x' ){
@@ -1217,7 +1217,7 @@ bool TStr::IsInt64(
   TChRet Ch(TStrIn::New(*this));
   while (TCh::IsWs(Ch.GetCh())){}
   if (Ch()=='+'){Minus=false; Ch.GetCh();}
-  if (Ch()=='-'){Minus=true; Ch.GetCh();}
+  else if (Ch()=='-'){Minus=true; Ch.GetCh();}
   if (!TCh::IsNum(Ch())){return false;}
   _Val=TCh::GetNum(Ch());
   while (TCh::IsNum(Ch.GetCh())){_Val=10*_Val+TCh::GetNum(Ch());}
@@ -1248,7 +1248,7 @@ bool TStr::IsHexInt64(
   TChRet Ch(TStrIn::New(*this));
   while (TCh::IsWs(Ch.GetCh())){}
   if (Ch()=='+'){Minus=false; Ch.GetCh();}
-  if (Ch()=='-'){Minus=true; Ch.GetCh();}
+  else if (Ch()=='-'){Minus=true; Ch.GetCh();}
   if (Ch()=='0'){
     Ch.GetCh();
     if (tolower(Ch())=='x' ){
-- 
2.43.0


From 87ac43f6e7c295fa712283418b5b8c74034c29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 075/158] fix: looking up a key in a cleared sparse hash or set
 finds nothing instead of reading out of bounds

---
 snap/glib-core/shash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snap/glib-core/shash.h b/snap/glib-core/shash.h
index 177ff78..6b80146 100644
--- a/snap/glib-core/shash.h
+++ b/snap/glib-core/shash.h
@@ -629,6 +629,7 @@ void TSparseHash<TKey, TDat, GroupSize>::ResizeDelta(const int& ValsToAdd, const
 
 template <class TKey, class TDat, uint16 GroupSize>
 void TSparseHash<TKey, TDat, GroupSize>::FindPos(const TKey& Key, int& Pos, int& PosToIns) const {
+  if (Reserved() == 0) { Pos = -1;  PosToIns = -1;  return; }
   const uint BuckM1 = Reserved() - 1;
   uint BuckNum = Key.GetPrimHashCd() & BuckM1;
   int Tries = 0;
@@ -913,6 +914,7 @@ void TSparseSet<TKey, GroupSize>::ResizeDelta(const int& ValsToAdd, const int& M
 
 template <class TKey, uint16 GroupSize>
 void TSparseSet<TKey, GroupSize>::FindPos(const TKey& Key, int& Pos, int& PosToIns) const {
+  if (Reserved() == 0) { Pos = -1;  PosToIns = -1;  return; }
   const uint BuckM1 = Reserved() - 1;
   uint BuckNum = Key.GetPrimHashCd() & BuckM1;
   int Tries = 0;
-- 
2.43.0


From 1647be0b42844ccb9c096d7d9193de38d5dc233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 076/158] fix: TSparseHash::GetKeyDat checks the key id, not a
 key of that value

---
 snap/glib-core/shash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/glib-core/shash.h b/snap/glib-core/shash.h
index 6b80146..812dea1 100644
--- a/snap/glib-core/shash.h
+++ b/snap/glib-core/shash.h
@@ -720,7 +720,7 @@ TDat& TSparseHash<TKey, TDat, GroupSize>::GetDat(const TKey& Key) {
 
 template <class TKey, class TDat, uint16 GroupSize>
 void TSparseHash<TKey, TDat, GroupSize>::GetKeyDat(const int& KeyId, TKey& Key, TDat& Dat) const {
-  Assert(IsKey(KeyId));
+  Assert(IsKeyId(KeyId));
   const THashKeyDat& KeyDat = Table.Get(KeyId);
   Key = KeyDat.Key;
   Dat = KeyDat.Dat;
-- 
2.43.0


From 74c8a808766138447c40452019099c75a514437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 077/158] fix: TNEGraph::DelEdge(src, dst) removes every edge
 between the two nodes

---
 snap/snap-core/graph.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index e6132dd..ddf2641 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -538,10 +538,8 @@ void TNEGraph::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir)
   int EId;
   IAssert(IsEdge(SrcNId, DstNId, EId, IsDir)); // there is at least one edge
   while (IsEdge(SrcNId, DstNId, EId, IsDir)) {
-    GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-    GetNode(DstNId).InEIdV.DelIfIn(EId);
+    DelEdge(EId);
   }
-  EdgeH.DelKey(EId);
 }
 
 bool TNEGraph::IsEdge(const int& SrcNId, const int& DstNId, int& EId, const bool& IsDir) const {
-- 
2.43.0


From 7ebe0d9c5812eeb36f04898a2aa3df4553175e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 078/158] fix: TNodeEdgeNet::DelEdge(src, dst) unlinks a
 reverse edge from its own end points

---
 snap/snap-core/network.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/snap/snap-core/network.h b/snap/snap-core/network.h
index a1dd505..ae96bed 100644
--- a/snap/snap-core/network.h
+++ b/snap/snap-core/network.h
@@ -1327,9 +1327,7 @@ template <class TNodeData, class TEdgeData>
 void TNodeEdgeNet<TNodeData, TEdgeData>::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
   int EId;
   IAssert(IsEdge(SrcNId, DstNId, EId, IsDir));
-  GetNode(SrcNId).OutEIdV.DelIfIn(EId);
-  GetNode(DstNId).InEIdV.DelIfIn(EId);
-  EdgeH.DelKey(EId);
+  DelEdge(EId);
 }
 
 template <class TNodeData, class TEdgeData>
-- 
2.43.0


From 2bebf131cbd08cb4c70966a0f15a20c544c9c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 079/158] fix: TBPGraph::IsOk is true for a consistent graph

---
 snap/snap-core/graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index ddf2641..040d5e0 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -799,7 +799,7 @@ void TBPGraph::Defrag(const bool& OnlyNodeLinks) {
 }
 
 bool TBPGraph::IsOk(const bool& ThrowExcept) const {
-  bool RetVal = false;
+  bool RetVal = true;
   // edge lists are sorted
   for (int n = LeftH.FFirstKeyId(); LeftH.FNextKeyId(n); ) {
     if (! LeftH[n].NIdV.IsSorted()) {
-- 
2.43.0


From 78bc8785a8e7e04199f855eeddf0514075fee7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 080/158] fix: the edge iterator of TBPGraph does not skip
 edges to nodes with a smaller id

---
 snap/snap-core/graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/graph.h b/snap/snap-core/graph.h
index b63506f..223753a 100644
--- a/snap/snap-core/graph.h
+++ b/snap/snap-core/graph.h
@@ -857,7 +857,7 @@ public:
   /// Tests whether an edge between node IDs LeftNId and RightNId exists in the graph.
   bool IsEdge(const int& LeftNId, const int& RightNId) const;
   /// Returns an iterator referring to the first edge in the graph.
-  TEdgeI BegEI() const { TNodeI NI=BegLNI(); while (NI<EndLNI() && (NI.GetOutDeg()==0 || NI.GetId()>NI.GetOutNId(0))) { NI++; } return TEdgeI(NI, EndLNI()); }
+  TEdgeI BegEI() const { TNodeI NI=BegLNI(); while (NI<EndLNI() && NI.GetOutDeg()==0) { NI++; } return TEdgeI(NI, EndLNI()); }
   /// Returns an iterator referring to the past-the-end edge in the graph.
   TEdgeI EndEI() const { return TEdgeI(EndNI(), EndNI()); }
   /// Not supported/implemented!
-- 
2.43.0


From 7b092de6dbe22e33cc30471a2428b7f1da7869a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 081/158] fix: the message for a node on both sides of a
 TBPGraph prints the id

---
 snap/snap-core/graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index 040d5e0..3ad9fc5 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -668,8 +668,8 @@ PNEGraph TNEGraph::GetSmallGraph() {
 // Bipartite graph
 int TBPGraph::AddNode(int NId, const bool& LeftNode) {
   if (NId == -1) { NId = MxNId;  MxNId++; }
-  else if (IsLNode(NId)) { IAssertR(LeftNode, TStr::Fmt("Node with id %s already exists on the 'left'.", NId));  return NId; }
-  else if (IsRNode(NId)) { IAssertR(! LeftNode, TStr::Fmt("Node with id %s already exists on the 'right'.", NId));  return NId; }
+  else if (IsLNode(NId)) { IAssertR(LeftNode, TStr::Fmt("Node with id %d already exists on the 'left'.", NId));  return NId; }
+  else if (IsRNode(NId)) { IAssertR(! LeftNode, TStr::Fmt("Node with id %d already exists on the 'right'.", NId));  return NId; }
   else { MxNId = TMath::Mx(NId+1, MxNId()); }
   if (LeftNode) { LeftH.AddDat(NId, TNode(NId)); }
   else { RightH.AddDat(NId, TNode(NId)); }
-- 
2.43.0


From 5f957d7b2057d83c675cea8cfb8c17a8c1835220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 082/158] fix: TUNGraph::AddNode with neighbours counts and
 links each edge once

---
 snap/snap-core/graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/graph.cpp b/snap/snap-core/graph.cpp
index 3ad9fc5..6034a4f 100644
--- a/snap/snap-core/graph.cpp
+++ b/snap/snap-core/graph.cpp
@@ -40,6 +40,7 @@ int TUNGraph::AddNode(const int& NId, const TIntV& NbrNIdV) {
   Node.NIdV.Sort();
   NEdges += Node.GetDeg();
   for (int i = 0; i < NbrNIdV.Len(); i++) {
+    if (NbrNIdV[i] == NewNId) { continue; } // a self edge is listed once
     GetNode(NbrNIdV[i]).NIdV.AddSorted(NewNId);
   }
   return NewNId;
@@ -59,7 +60,9 @@ int TUNGraph::AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& NId
   Node.Id = NewNId;
   Node.NIdV.GenExt(Pool.GetValVPt(NIdVId), Pool.GetVLen(NIdVId));
   Node.NIdV.Sort();
-  NEdges += Node.GetDeg();
+  for (int e = 0; e < Node.GetDeg(); e++) { // count an edge when its second end point is added
+    if (IsNode(Node.GetNbrNId(e))) { NEdges++; }
+  }
   return NewNId;
 }
 
-- 
2.43.0


From 97f4f7aac53eda8a53da8215c5ec943cd7349459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 083/158] fix: TUndirNet::AddNode with neighbours counts and
 links each edge once

---
 snap/snap-core/network.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 3f61469..2c22da3 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -1688,6 +1688,7 @@ int TUndirNet::AddNode(const int& NId, const TIntV& NbrNIdV) {
   Node.NIdV.Sort();
   NEdges += Node.GetDeg();
   for (int i = 0; i < NbrNIdV.Len(); i++) {
+    if (NbrNIdV[i] == NewNId) { continue; } // a self edge is listed once
     GetNode(NbrNIdV[i]).NIdV.AddSorted(NewNId);
   }
   return NewNId;
@@ -1707,7 +1708,9 @@ int TUndirNet::AddNode(const int& NId, const TVecPool<TInt>& Pool, const int& NI
   Node.Id = NewNId;
   Node.NIdV.GenExt(Pool.GetValVPt(NIdVId), Pool.GetVLen(NIdVId));
   Node.NIdV.Sort();
-  NEdges += Node.GetDeg();
+  for (int e = 0; e < Node.GetDeg(); e++) { // count an edge when its second end point is added
+    if (IsNode(Node.GetNbrNId(e))) { NEdges++; }
+  }
   return NewNId;
 }
 
-- 
2.43.0


From 555115f20ae522e6db4a42df72b47861e589579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 084/158] fix: TUndirNet and TDirNet drop the attributes of
 every edge they delete

---
 snap/snap-core/network.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 2c22da3..dba6549 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -1723,6 +1723,7 @@ void TUndirNet::DelNode(const int& NId) {
   NEdges -= Node.GetDeg();
   for (int e = 0; e < Node.GetDeg(); e++) {
     const int nbr = Node.GetNbrNId(e);
+    SAttrE.DelSAttrId(OrderEdgeNodes(NId, nbr));
     if (nbr == NId) { continue; }
     TNode& N = GetNode(nbr);
     const int n = N.NIdV.SearchBin(NId);
@@ -1757,8 +1758,7 @@ void TUndirNet::DelEdge(const int& SrcNId, const int& DstNId) {
   IAssertR(IsNode(SrcNId) && IsNode(DstNId), TStr::Fmt("%d or %d not a node.", SrcNId, DstNId).CStr());
   { TNode& N = GetNode(SrcNId);
   const int n = N.NIdV.SearchBin(DstNId);
-  TIntPr Id(SrcNId, DstNId);
-  SAttrE.DelSAttrId(Id);
+  SAttrE.DelSAttrId(OrderEdgeNodes(SrcNId, DstNId));
   if (n!= -1) { N.NIdV.Del(n);  NEdges--; } }
   if (SrcNId != DstNId) { // not a self edge
     TNode& N = GetNode(DstNId);
@@ -2199,6 +2199,7 @@ void TDirNet::DelNode(const int& NId) {
   SAttrN.DelSAttrId(Id);
   for (int e = 0; e < Node.GetOutDeg(); e++) {
   const int nbr = Node.GetOutNId(e);
+  SAttrE.DelSAttrId(TIntPr(NId, nbr));
   if (nbr == NId) { continue; }
     TNode& N = GetNode(nbr);
     const int n = N.InNIdV.SearchBin(NId);
@@ -2206,6 +2207,7 @@ void TDirNet::DelNode(const int& NId) {
   }
   for (int e = 0; e < Node.GetInDeg(); e++) {
   const int nbr = Node.GetInNId(e);
+  SAttrE.DelSAttrId(TIntPr(nbr, NId));
   if (nbr == NId) { continue; }
     TNode& N = GetNode(nbr);
     const int n = N.OutNIdV.SearchBin(NId);
@@ -2242,6 +2244,7 @@ void TDirNet::DelEdge(const int& SrcNId, const int& DstNId, const bool& IsDir) {
   const int n = N.InNIdV.SearchBin(SrcNId);
   if (n!= -1) { N.InNIdV.Del(n); } }
   if (! IsDir) {
+    SAttrE.DelSAttrId(TIntPr(DstNId, SrcNId));
     { TNode& N = GetNode(SrcNId);
     const int n = N.InNIdV.SearchBin(DstNId);
     if (n!= -1) { N.InNIdV.Del(n); } }
-- 
2.43.0


From 684b56c00b55f8c540be201813ea6a332e2d772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:58 +0000
Subject: [PATCH 085/158] fix: copying a TNEANet, TUndirNet or TDirNet copies
 its attributes too

---
 snap/snap-core/network.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/snap/snap-core/network.h b/snap/snap-core/network.h
index ae96bed..4edbc7c 100644
--- a/snap/snap-core/network.h
+++ b/snap/snap-core/network.h
@@ -1753,10 +1753,11 @@ public:
     VecOfStrVecsN(), VecOfStrVecsE(), VecOfFltVecsN(), VecOfFltVecsE(), VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE()
     { Reserve(Nodes, Edges); }
   TNEANet(const TNEANet& Graph) : MxNId(Graph.MxNId), MxEId(Graph.MxEId),
-    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(), KeyToIndexTypeE(),
-    IntDefaultsN(), IntDefaultsE(), StrDefaultsN(), StrDefaultsE(),
-    FltDefaultsN(), FltDefaultsE(), VecOfIntVecsN(), VecOfIntVecsE(),
-    VecOfStrVecsN(), VecOfStrVecsE(), VecOfFltVecsN(), VecOfFltVecsE(), VecOfIntVecVecsN(), VecOfIntVecVecsE(), SAttrN(), SAttrE() { }
+    NodeH(Graph.NodeH), EdgeH(Graph.EdgeH), KeyToIndexTypeN(Graph.KeyToIndexTypeN), KeyToIndexTypeE(Graph.KeyToIndexTypeE),
+    IntDefaultsN(Graph.IntDefaultsN), IntDefaultsE(Graph.IntDefaultsE), StrDefaultsN(Graph.StrDefaultsN), StrDefaultsE(Graph.StrDefaultsE),
+    FltDefaultsN(Graph.FltDefaultsN), FltDefaultsE(Graph.FltDefaultsE), VecOfIntVecsN(Graph.VecOfIntVecsN), VecOfIntVecsE(Graph.VecOfIntVecsE),
+    VecOfStrVecsN(Graph.VecOfStrVecsN), VecOfStrVecsE(Graph.VecOfStrVecsE), VecOfFltVecsN(Graph.VecOfFltVecsN), VecOfFltVecsE(Graph.VecOfFltVecsE),
+    VecOfIntVecVecsN(Graph.VecOfIntVecVecsN), VecOfIntVecVecsE(Graph.VecOfIntVecVecsE), SAttrN(Graph.SAttrN), SAttrE(Graph.SAttrE) { }
   /// Constructor for loading the graph from a (binary) stream SIn.
   TNEANet(TSIn& SIn) : MxNId(SIn), MxEId(SIn), NodeH(SIn), EdgeH(SIn),
     KeyToIndexTypeN(SIn), KeyToIndexTypeE(SIn), IntDefaultsN(SIn), IntDefaultsE(SIn),
@@ -1823,7 +1824,16 @@ public:
   bool HasFlag(const TGraphFlag& Flag) const;
   
   TNEANet& operator = (const TNEANet& Graph) { if (this!=&Graph) {
-    MxNId=Graph.MxNId; MxEId=Graph.MxEId; NodeH=Graph.NodeH; EdgeH=Graph.EdgeH; }
+    MxNId=Graph.MxNId; MxEId=Graph.MxEId; NodeH=Graph.NodeH; EdgeH=Graph.EdgeH;
+    KeyToIndexTypeN=Graph.KeyToIndexTypeN; KeyToIndexTypeE=Graph.KeyToIndexTypeE;
+    IntDefaultsN=Graph.IntDefaultsN; IntDefaultsE=Graph.IntDefaultsE;
+    StrDefaultsN=Graph.StrDefaultsN; StrDefaultsE=Graph.StrDefaultsE;
+    FltDefaultsN=Graph.FltDefaultsN; FltDefaultsE=Graph.FltDefaultsE;
+    VecOfIntVecsN=Graph.VecOfIntVecsN; VecOfIntVecsE=Graph.VecOfIntVecsE;
+    VecOfStrVecsN=Graph.VecOfStrVecsN; VecOfStrVecsE=Graph.VecOfStrVecsE;
+    VecOfFltVecsN=Graph.VecOfFltVecsN; VecOfFltVecsE=Graph.VecOfFltVecsE;
+    VecOfIntVecVecsN=Graph.VecOfIntVecVecsN; VecOfIntVecVecsE=Graph.VecOfIntVecVecsE;
+    SAttrN=Graph.SAttrN; SAttrE=Graph.SAttrE; }
     return *this; }
 
   /// Returns the number of nodes in the graph.
@@ -2662,7 +2672,7 @@ public:
   /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
   explicit TUndirNet(const int& Nodes, const int& Edges) : MxNId(0), NEdges(0), SAttrN(), SAttrE() { Reserve(Nodes, Edges); }
   TUndirNet(const TUndirNet& Graph) : MxNId(Graph.MxNId), NEdges(Graph.NEdges), NodeH(Graph.NodeH),
-    SAttrN(), SAttrE() { }
+    SAttrN(Graph.SAttrN), SAttrE(Graph.SAttrE) { }
   /// Constructor that loads the network from a (binary) stream SIn.
   TUndirNet(TSIn& SIn) : MxNId(SIn), NEdges(SIn), NodeH(SIn), SAttrN(SIn), SAttrE(SIn) { }
   /// Saves the network to a (binary) stream SOut. Expects data structures for sparse attributes.
@@ -2684,7 +2694,7 @@ public:
   /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
   bool HasFlag(const TGraphFlag& Flag) const;
   TUndirNet& operator = (const TUndirNet& Graph) {
-    if (this!=&Graph) { MxNId=Graph.MxNId; NEdges=Graph.NEdges; NodeH=Graph.NodeH; } return *this; }
+    if (this!=&Graph) { MxNId=Graph.MxNId; NEdges=Graph.NEdges; NodeH=Graph.NodeH; SAttrN=Graph.SAttrN; SAttrE=Graph.SAttrE; } return *this; }
   
   /// Returns the number of nodes in the network.
   int GetNodes() const { return NodeH.Len(); }
@@ -3100,7 +3110,7 @@ public:
   TDirNet() : CRef(), MxNId(0), NodeH(), SAttrN(), SAttrE() { }
   /// Constructor that reserves enough memory for a network of Nodes nodes and Edges edges.
   explicit TDirNet(const int& Nodes, const int& Edges) : MxNId(0), SAttrN(), SAttrE() { Reserve(Nodes, Edges); }
-  TDirNet(const TDirNet& Graph) : MxNId(Graph.MxNId), NodeH(Graph.NodeH), SAttrN(), SAttrE() { }
+  TDirNet(const TDirNet& Graph) : MxNId(Graph.MxNId), NodeH(Graph.NodeH), SAttrN(Graph.SAttrN), SAttrE(Graph.SAttrE) { }
   /// Constructor that loads the network from a (binary) stream SIn.
   TDirNet(TSIn& SIn) : MxNId(SIn), NodeH(SIn), SAttrN(SIn), SAttrE(SIn) { }
   /// Saves the network to a (binary) stream SOut. Expects data structures for sparse attributes.
@@ -3120,7 +3130,7 @@ public:
   /// Allows for run-time checking the type of the network (see the TGraphFlag for flags).
   bool HasFlag(const TGraphFlag& Flag) const;
   TDirNet& operator = (const TDirNet& Graph) {
-    if (this!=&Graph) { MxNId=Graph.MxNId; NodeH=Graph.NodeH; }  return *this; }
+    if (this!=&Graph) { MxNId=Graph.MxNId; NodeH=Graph.NodeH; SAttrN=Graph.SAttrN; SAttrE=Graph.SAttrE; }  return *this; }
   
   /// Returns the number of nodes in the network.
   int GetNodes() const { return NodeH.Len(); }
-- 
2.43.0


From 0e15a1961885dba82fe4635240c9fc2220f70dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 086/158] fix: TNEANet stays usable after deleting an attribute

---
 snap/snap-core/network.cpp | 47 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index dba6549..ded0fb4 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -393,7 +393,7 @@ int TNEANet::AddNode(int NId) {
     int KeyId = NodeH.GetKeyId(NId);
     if (IntVec.Len() > KeyId) {
       IntVec[KeyId] = TInt::Mn;
-    } else {
+    } else if (IntVec.Len() == KeyId) {
       IntVec.Ins(KeyId, TInt::Mn);
     }
   }
@@ -409,7 +409,7 @@ int TNEANet::AddNode(int NId) {
     int KeyId = NodeH.GetKeyId(NId);
     if (StrVec.Len() > KeyId) {
       StrVec[KeyId] = TStr::GetNullStr();
-    } else {
+    } else if (StrVec.Len() == KeyId) {
       StrVec.Ins(KeyId, TStr::GetNullStr());
     }
   }
@@ -425,7 +425,7 @@ int TNEANet::AddNode(int NId) {
     int KeyId = NodeH.GetKeyId(NId);
     if (FltVec.Len() > KeyId) {
       FltVec[KeyId] = TFlt::Mn;
-    } else {
+    } else if (FltVec.Len() == KeyId) {
       FltVec.Ins(KeyId, TFlt::Mn);
     }
   }
@@ -441,7 +441,7 @@ int TNEANet::AddNode(int NId) {
     int KeyId = NodeH.GetKeyId(NId);
     if (IntVecV.Len() > KeyId) {
       IntVecV[KeyId] = TIntV();
-    } else {
+    } else if (IntVecV.Len() == KeyId) {
       IntVecV.Ins(KeyId, TIntV());
     }
   }
@@ -461,19 +461,19 @@ void TNEANet::DelNode(const int& NId) {
     // Delete from Edge Attributes
     for (i = 0; i < VecOfIntVecsE.Len(); i++) {
       TVec<TInt>& IntVec = VecOfIntVecsE[i];
-      IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn;
+      if (IntVec.Len() > EdgeH.GetKeyId(EId)) { IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn; }
     }
     for (i = 0; i < VecOfStrVecsE.Len(); i++) {
       TVec<TStr>& StrVec = VecOfStrVecsE[i];
-      StrVec[EdgeH.GetKeyId(EId)] = TStr::GetNullStr();
+      if (StrVec.Len() > EdgeH.GetKeyId(EId)) { StrVec[EdgeH.GetKeyId(EId)] = TStr::GetNullStr(); }
     }
     for (i = 0; i < VecOfFltVecsE.Len(); i++) {
       TVec<TFlt>& FltVec = VecOfFltVecsE[i];
-      FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn;
+      if (FltVec.Len() > EdgeH.GetKeyId(EId)) { FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn; }
     }
     for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
       TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
-      IntVecV[EdgeH.GetKeyId(EId)] = TIntV();
+      if (IntVecV.Len() > EdgeH.GetKeyId(EId)) { IntVecV[EdgeH.GetKeyId(EId)] = TIntV(); }
     }
     EdgeH.DelKey(EId);
   }
@@ -485,38 +485,38 @@ void TNEANet::DelNode(const int& NId) {
     // Delete from Edge Attributes
     for (i = 0; i < VecOfIntVecsE.Len(); i++) {
       TVec<TInt>& IntVec = VecOfIntVecsE[i];
-      IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn;
+      if (IntVec.Len() > EdgeH.GetKeyId(EId)) { IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn; }
     }
     for (i = 0; i < VecOfStrVecsE.Len(); i++) {
       TVec<TStr>& StrVec = VecOfStrVecsE[i];
-      StrVec[EdgeH.GetKeyId(EId)] = TStr::GetNullStr();
+      if (StrVec.Len() > EdgeH.GetKeyId(EId)) { StrVec[EdgeH.GetKeyId(EId)] = TStr::GetNullStr(); }
     }
     for (i = 0; i < VecOfFltVecsE.Len(); i++) {
       TVec<TFlt>& FltVec = VecOfFltVecsE[i];
-      FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn;
+      if (FltVec.Len() > EdgeH.GetKeyId(EId)) { FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn; }
     }
     for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
       TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
-      IntVecV[EdgeH.GetKeyId(EId)] = TIntV();
+      if (IntVecV.Len() > EdgeH.GetKeyId(EId)) { IntVecV[EdgeH.GetKeyId(EId)] = TIntV(); }
     }
     EdgeH.DelKey(EId);
   }
 
   for (i = 0; i < VecOfIntVecsN.Len(); i++) {
     TVec<TInt>& IntVec = VecOfIntVecsN[i];
-    IntVec[NodeH.GetKeyId(NId)] = TInt::Mn;
+    if (IntVec.Len() > NodeH.GetKeyId(NId)) { IntVec[NodeH.GetKeyId(NId)] = TInt::Mn; }
   }
   for (i = 0; i < VecOfStrVecsN.Len(); i++) {
     TVec<TStr>& StrVec = VecOfStrVecsN[i];
-    StrVec[NodeH.GetKeyId(NId)] = TStr::GetNullStr();
+    if (StrVec.Len() > NodeH.GetKeyId(NId)) { StrVec[NodeH.GetKeyId(NId)] = TStr::GetNullStr(); }
   }
   for (i = 0; i < VecOfFltVecsN.Len(); i++) {
     TVec<TFlt>& FltVec = VecOfFltVecsN[i];
-    FltVec[NodeH.GetKeyId(NId)] = TFlt::Mn;
+    if (FltVec.Len() > NodeH.GetKeyId(NId)) { FltVec[NodeH.GetKeyId(NId)] = TFlt::Mn; }
   }
   for (i = 0; i < VecOfIntVecVecsN.Len(); i++) {
     TVec<TIntV>& IntVecV = VecOfIntVecVecsN[i];
-    IntVecV[NodeH.GetKeyId(NId)] = TIntV();
+    if (IntVecV.Len() > NodeH.GetKeyId(NId)) { IntVecV[NodeH.GetKeyId(NId)] = TIntV(); }
   }
   NodeH.DelKey(NId);
 }
@@ -538,7 +538,7 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
     int KeyId = EdgeH.GetKeyId(EId);
     if (IntVec.Len() > KeyId) {
       IntVec[KeyId] = TInt::Mn;
-    } else {
+    } else if (IntVec.Len() == KeyId) {
       IntVec.Ins(KeyId, TInt::Mn);
     }
   }
@@ -552,7 +552,8 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
 
   for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
     TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
-    IntVecV.Ins(EdgeH.GetKeyId(EId), TIntV());
+    int KeyId = EdgeH.GetKeyId(EId);
+    if (IntVecV.Len() == KeyId) { IntVecV.Ins(KeyId, TIntV()); }
   }
 
   for (i = 0; i < VecOfStrVecsE.Len(); i++) {
@@ -560,7 +561,7 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
     int KeyId = EdgeH.GetKeyId(EId);
     if (StrVec.Len() > KeyId) {
       StrVec[KeyId] = TStr::GetNullStr();
-    } else {
+    } else if (StrVec.Len() == KeyId) {
       StrVec.Ins(KeyId, TStr::GetNullStr());
     }
   }
@@ -577,7 +578,7 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
     int KeyId = EdgeH.GetKeyId(EId);
     if (FltVec.Len() > KeyId) {
       FltVec[KeyId] = TFlt::Mn;
-    } else {
+    } else if (FltVec.Len() == KeyId) {
       FltVec.Ins(KeyId, TFlt::Mn);
     }
   }
@@ -604,15 +605,15 @@ void TNEANet::DelEdge(const int& EId) {
 
   for (i = 0; i < VecOfIntVecsE.Len(); i++) {
     TVec<TInt>& IntVec = VecOfIntVecsE[i];
-    IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn;
+    if (IntVec.Len() > EdgeH.GetKeyId(EId)) { IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn; }
   }
   for (i = 0; i < VecOfStrVecsE.Len(); i++) {
     TVec<TStr>& StrVec = VecOfStrVecsE[i];
-    StrVec[EdgeH.GetKeyId(EId)] = TStr::GetNullStr();
+    if (StrVec.Len() > EdgeH.GetKeyId(EId)) { StrVec[EdgeH.GetKeyId(EId)] = TStr::GetNullStr(); }
   }
   for (i = 0; i < VecOfFltVecsE.Len(); i++) {
     TVec<TFlt>& FltVec = VecOfFltVecsE[i];
-    FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn;
+    if (FltVec.Len() > EdgeH.GetKeyId(EId)) { FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn; }
   }
 
   EdgeH.DelKey(EId);
-- 
2.43.0


From 319a526c7fc22914e0d59b91e04debfa3b4b8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 087/158] fix: int vector attributes of TNEANet edges survive
 deleting and adding edges

---
 snap/snap-core/network.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index ded0fb4..6cbac82 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -553,7 +553,11 @@ int TNEANet::AddEdge(const int& SrcNId, const int& DstNId, int EId) {
   for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
     TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
     int KeyId = EdgeH.GetKeyId(EId);
-    if (IntVecV.Len() == KeyId) { IntVecV.Ins(KeyId, TIntV()); }
+    if (IntVecV.Len() > KeyId) {
+      IntVecV[KeyId] = TIntV();
+    } else if (IntVecV.Len() == KeyId) {
+      IntVecV.Ins(KeyId, TIntV());
+    }
   }
 
   for (i = 0; i < VecOfStrVecsE.Len(); i++) {
@@ -615,6 +619,10 @@ void TNEANet::DelEdge(const int& EId) {
     TVec<TFlt>& FltVec = VecOfFltVecsE[i];
     if (FltVec.Len() > EdgeH.GetKeyId(EId)) { FltVec[EdgeH.GetKeyId(EId)] = TFlt::Mn; }
   }
+  for (i = 0; i < VecOfIntVecVecsE.Len(); i++) {
+    TVec<TIntV>& IntVecV = VecOfIntVecVecsE[i];
+    if (IntVecV.Len() > EdgeH.GetKeyId(EId)) { IntVecV[EdgeH.GetKeyId(EId)] = TIntV(); }
+  }
 
   EdgeH.DelKey(EId);
 }
-- 
2.43.0


From ee4ea7df1add666ecba3cb11ea02879bcb4ca641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 088/158] fix: TNEANet::DelNode drops the sparse attributes of
 the deleted edges

---
 snap/snap-core/network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 6cbac82..af6ec2e 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -459,6 +459,7 @@ void TNEANet::DelNode(const int& NId) {
     IAssert(Edge.GetSrcNId() == NId);
     GetNode(Edge.GetDstNId()).InEIdV.DelIfIn(EId);
     // Delete from Edge Attributes
+    SAttrE.DelSAttrId(TInt(EId));
     for (i = 0; i < VecOfIntVecsE.Len(); i++) {
       TVec<TInt>& IntVec = VecOfIntVecsE[i];
       if (IntVec.Len() > EdgeH.GetKeyId(EId)) { IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn; }
@@ -483,6 +484,7 @@ void TNEANet::DelNode(const int& NId) {
     IAssert(Edge.GetDstNId() == NId);
     GetNode(Edge.GetSrcNId()).OutEIdV.DelIfIn(EId);
     // Delete from Edge Attributes
+    SAttrE.DelSAttrId(TInt(EId));
     for (i = 0; i < VecOfIntVecsE.Len(); i++) {
       TVec<TInt>& IntVec = VecOfIntVecsE[i];
       if (IntVec.Len() > EdgeH.GetKeyId(EId)) { IntVec[EdgeH.GetKeyId(EId)] = TInt::Mn; }
-- 
2.43.0


From 102ab54f937615581e12dca4b7852cd9091582bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 089/158] fix: the attribute values of a TNEANet edge are
 looked up by its key id

---
 snap/snap-core/network.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index af6ec2e..8ccc411 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -238,7 +238,7 @@ void TNEANet::IntAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TIntV& V
   Values = TVec<TInt>();
   while (!EdgeHI.IsEnd()) {
     if (EdgeHI.GetDat().Val1 == IntType && !EdgeAttrIsIntDeleted(EId, EdgeHI)) {
-      TInt val = (this->VecOfIntVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EId));
+      TInt val = (this->VecOfIntVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EdgeH.GetKeyId(EId)));
       Values.Add(val);
     }
     EdgeHI++;
@@ -259,7 +259,7 @@ void TNEANet::IntVAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TVec<TI
   Values = TVec<TIntV>();
   while (!EdgeHI.IsEnd()) {
     if (EdgeHI.GetDat().Val1 == IntVType) {
-      TIntV val = (this->VecOfIntVecVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EId));
+      TIntV val = (this->VecOfIntVecVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EdgeH.GetKeyId(EId)));
       Values.Add(val);
     }
     EdgeHI++;
@@ -280,7 +280,7 @@ void TNEANet::StrAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TStrV& V
   Values = TVec<TStr>();
   while (!EdgeHI.IsEnd()) {
     if (EdgeHI.GetDat().Val1 == StrType && !EdgeAttrIsStrDeleted(EId, EdgeHI)) {
-      TStr val = this->VecOfStrVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EId);
+      TStr val = this->VecOfStrVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EdgeH.GetKeyId(EId));
       Values.Add(val);
     }
     EdgeHI++;
@@ -301,7 +301,7 @@ void TNEANet::FltAttrValueEI(const TInt& EId, TStrIntPrH::TIter EdgeHI, TFltV& V
   Values = TVec<TFlt>();
   while (!EdgeHI.IsEnd()) {
     if (EdgeHI.GetDat().Val1 == FltType && !EdgeAttrIsFltDeleted(EId, EdgeHI)) {
-      TFlt val = (this->VecOfFltVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EId));
+      TFlt val = (this->VecOfFltVecsE.GetVal(EdgeHI.GetDat().Val2).GetVal(EdgeH.GetKeyId(EId)));
       Values.Add(val);
     }
     EdgeHI++;
-- 
2.43.0


From b323a0eb72b8bfeebb3db577e99ab1847568ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 090/158] fix: TNEANet::DelAttrE deletes int vector attributes
 too

---
 snap/snap-core/network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index 8ccc411..b572613 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -1334,6 +1334,8 @@ int TNEANet::DelAttrE(const TStr& attr) {
     if (FltDefaultsE.IsKey(attr)) {
       FltDefaultsE.DelKey(attr);
     }
+  } else if (vecType == IntVType) {
+    VecOfIntVecVecsE[KeyToIndexTypeE.GetDat(attr).Val2] = TVec<TIntV>();
   } else {
     return -1;
   }
-- 
2.43.0


From f9a4567ac80c60191b858e127fbceb378db45d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 091/158] fix: TNEANet::Defrag moves the attribute values along
 with the nodes and edges

---
 snap/snap-core/network.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/snap/snap-core/network.cpp b/snap/snap-core/network.cpp
index b572613..1afaa90 100644
--- a/snap/snap-core/network.cpp
+++ b/snap/snap-core/network.cpp
@@ -675,15 +675,37 @@ void TNEANet::GetEIdV(TIntV& EIdV) const {
   }
 }
 
+// Keeps the values of the columns Cols at the given key ids, in that order.
+template <class TColV>
+static void MoveAttrCols(const TIntV& KeyIdV, TVec<TColV>& Cols) {
+  for (int c = 0; c < Cols.Len(); c++) {
+    if (! KeyIdV.Empty() && Cols[c].Len() <= KeyIdV.Last()) { continue; } // column of a deleted attribute
+    TColV Col(KeyIdV.Len());
+    for (int i = 0; i < KeyIdV.Len(); i++) { Col[i] = Cols[c][KeyIdV[i]]; }
+    Cols[c] = Col;
+  }
+}
+
 void TNEANet::Defrag(const bool& OnlyNodeLinks) {
   for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid); ) {
     TNode& Node = NodeH[kid];
     Node.InEIdV.Pack();  Node.OutEIdV.Pack();
   }
-  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) { NodeH.Defrag(); }
-  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) { EdgeH.Defrag(); }
+  if (! OnlyNodeLinks && ! NodeH.IsKeyIdEqKeyN()) {
+    TIntV KeyIdV(NodeH.Len(), 0);
+    for (int kid = NodeH.FFirstKeyId(); NodeH.FNextKeyId(kid); ) { KeyIdV.Add(kid); }
+    NodeH.Defrag();
+    MoveAttrCols(KeyIdV, VecOfIntVecsN);  MoveAttrCols(KeyIdV, VecOfStrVecsN);
+    MoveAttrCols(KeyIdV, VecOfFltVecsN);  MoveAttrCols(KeyIdV, VecOfIntVecVecsN);
+  }
+  if (! OnlyNodeLinks && ! EdgeH.IsKeyIdEqKeyN()) {
+    TIntV KeyIdV(EdgeH.Len(), 0);
+    for (int kid = EdgeH.FFirstKeyId(); EdgeH.FNextKeyId(kid); ) { KeyIdV.Add(kid); }
+    EdgeH.Defrag();
+    MoveAttrCols(KeyIdV, VecOfIntVecsE);  MoveAttrCols(KeyIdV, VecOfStrVecsE);
+    MoveAttrCols(KeyIdV, VecOfFltVecsE);  MoveAttrCols(KeyIdV, VecOfIntVecVecsE);
+  }
 }
-
 bool TNEANet::IsOk(const bool& ThrowExcept) const {
   bool RetVal = true;
   for (int N = NodeH.FFirstKeyId(); NodeH.FNextKeyId(N); ) {
-- 
2.43.0


From 47b5477a2c880ff09c702479adfe7046b70c5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:52 +0000
Subject: [PATCH 092/158] fix: declaring an edge attribute twice does not lose
 its first declaration

---
 snap/snap-core/attr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/attr.cpp b/snap/snap-core/attr.cpp
index 259214d..6a6321f 100644
--- a/snap/snap-core/attr.cpp
+++ b/snap/snap-core/attr.cpp
@@ -455,6 +455,7 @@ int TAttrPair::AddSAttr(const TStr& Name, const TAttrType& AttrType, TInt& AttrI
   if (AttrType != atInt && AttrType != atFlt && AttrType != atStr) {
     return -1; // type must be defined and can only have a single type
   }
+  if (AttrNameToId.IsKey(Name)) { return -1; }
   AttrId = AttrNameToId.GetMxKeyIds();
   TIntPr TypeAndId(AttrType, AttrId);
   AttrNameToId.AddDat(Name, TypeAndId);
-- 
2.43.0


From 32829b597ee8f6b2fca9463b2a647eb25561114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:12 +0000
Subject: [PATCH 093/158] fix: drawing a random node or edge of a TNEANet does
 not detach its attributes

---
 snap/snap-core/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/network.h b/snap/snap-core/network.h
index 4edbc7c..ea2d0ee 100644
--- a/snap/snap-core/network.h
+++ b/snap/snap-core/network.h
@@ -2068,11 +2068,11 @@ public:
   TEdgeI GetEI(const int& SrcNId, const int& DstNId) const { return GetEI(GetEId(SrcNId, DstNId)); }
 
   /// Returns an ID of a random node in the graph.
-  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd, 0.8)); }
+  int GetRndNId(TRnd& Rnd=TInt::Rnd) { return NodeH.GetKey(NodeH.GetRndKeyId(Rnd)); }
   /// Returns an interator referring to a random node in the graph.
   TNodeI GetRndNI(TRnd& Rnd=TInt::Rnd) { return GetNI(GetRndNId(Rnd)); }
   /// Returns an ID of a random edge in the graph.
-  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd, 0.8)); }
+  int GetRndEId(TRnd& Rnd=TInt::Rnd) { return EdgeH.GetKey(EdgeH.GetRndKeyId(Rnd)); }
   /// Returns an interator referring to a random edge in the graph.
   TEdgeI GetRndEI(TRnd& Rnd=TInt::Rnd) { return GetEI(GetRndEId(Rnd)); }
   /// Gets a vector IDs of all nodes in the graph.
-- 
2.43.0


From 1001e9ae9c355ae67f3f7b72dacc92ea64ae82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 094/158] fix: removing triples with a term that is not in the
 dictionary

---
 src/trident/kb/updater.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 4b14e1a..a8b4c16 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -156,7 +156,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                              StringCollection &tmpdictsupport) {
     std::unique_ptr<char[]> supportbuffer(new char[MAX_TERM_SIZE + 2]);
     Utils::encode_short(supportbuffer.get(), 0);
-    int64_t supportlen = 0;
+    int64_t supportlen = -1;
 
     std::chrono::system_clock::time_point start = std::chrono::system_clock::now();
     std::vector<Triple> parsedtriples;
@@ -198,7 +198,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         nextID++;
                     } else {
                         itr->nums = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nums;
@@ -207,7 +206,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
 
         //Sort the update by p
         std::sort(triples.begin(), triples.end(), sortByP);
-        supportlen = 0;
+        supportlen = -1;
         Utils::encode_short(supportbuffer.get(), 0);
 
         //Convert all p into numbers
@@ -240,7 +239,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->nump = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nump;
@@ -249,7 +247,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
 
         //Sort the update by o
         std::sort(triples.begin(), triples.end(), sortByO);
-        supportlen = 0;
+        supportlen = -1;
         Utils::encode_short(supportbuffer.get(), 0);
 
         //Convert all o into numbers
@@ -282,7 +280,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->numo = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->numo;
-- 
2.43.0


From 29b9202010fff26ffc2f1b7626ddb2804000f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:29 +0000
Subject: [PATCH 095/158] fix: dictionary of the updates loses the terms that
 contain spaces

---
 src/trident/kb/dictmgmt.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index ad3192b..f665612 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -59,11 +59,11 @@ DictMgmt::DictMgmt(Dict mainDict, string dirToStoreGUD, bool hash, string e2r,
             ifstream ifs;
             ifs.open(dirToStoreGUD + DIR_SEP + "gud");
             ifs >> gud_largestID;
-            while (!ifs.eof()) {
-                uint64_t id;
+            uint64_t id;
+            while (ifs >> id) {
                 string term;
-                ifs >> id;
-                ifs >> term;
+                ifs.get(); //Skip the separator
+                std::getline(ifs, term); //The term might contain spaces
                 if (term.size() > 0) {
                     gud_idtext.insert(make_pair(id, term));
                     gud_textid.insert(make_pair(term, id));
-- 
2.43.0


From 668efc21fc5f952159f2b854f3a223cd50f31879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:29 +0000
Subject: [PATCH 096/158] fix: the summary of the updates skips every third
 index

---
 src/trident/kb/querier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 33fd914..dd4474d 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -854,7 +854,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
                     LOG(DEBUGL) << "CompositeScanItr, hasNext = " << newitr->hasNext();
                     finalItr = newitr;
                 } else {
-                    ((CompositeScanItr*)finalItr)->addChild(itr);
+                    ((CompositeScanItr*)finalItr)->addChild(it);
                 }
             } else {
                 if (finalItr == NULL) {
-- 
2.43.0


From 27b5b94c7e1b3a96772b52f42b5fc69070b1a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:13 +0000
Subject: [PATCH 097/158] fix: a knowledge base with all its triples removed is
 not reported as empty

---
 src/trident/kb/querier.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index dd4474d..cd8b162 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -549,17 +549,10 @@ bool Querier::exists(const int64_t s, const int64_t p, const int64_t o) {
 bool Querier::isEmpty(const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
-        if (inputSize != 0) {
-            return false;
+        if (diffIndices.empty()) {
+            return inputSize == 0;
         }
-        if (diffIndices.size() > 0) {
-            for (size_t i = 0; i < diffIndices.size(); ++i) {
-                if (diffIndices[i]->getSize() > 0) {
-                    return false;
-                }
-            }
-        }
-        return true;
+        //The updates might also remove triples. Check the iterator
     }
 
     int idx = getIndex(s, p, o);
-- 
2.43.0


From 66ebc9b7398e4a5fb2d3ef5d1c3c80dd77924f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:21 +0000
Subject: [PATCH 098/158] fix: list of terms wrong after updates

---
 src/trident/kb/querier.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index cd8b162..e076320 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -769,7 +769,8 @@ PairItr *Querier::getTermList(const int perm) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        //Also the updates without new keys change the counts of the keys
+        if (diffIndices[i]->getSize() > 0) {
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
                 DiffTermItr *itr = factory10.get();
                 diffIndices[i]->getTermListItr(perm, itr);
@@ -784,7 +785,7 @@ PairItr *Querier::getTermList(const int perm) {
                 }
             } else {
                 DiffTermItr *itr = factory10.get();
-                diffIndices[i]->getTermListItr(IDX_SPO, itr);
+                diffIndices[i]->getTermListItr(perm, itr);
                 RmCompositeTermItr *newitr = factory15.get();
                 newitr->init(finalItr, itr);
                 finalItr = newitr;
-- 
2.43.0


From fcb93b9030e319c6f08ccaf5dac04c03d7ff02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:04 +0000
Subject: [PATCH 099/158] fix: nodes with keys at regular distance larger than
 127 are read incorrectly

---
 src/trident/tree/node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..51aa857 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -101,7 +101,8 @@ int Node::unserialize(char* bytes, int pos) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
+            //The step can be larger than 127
+            uint8_t step = (uint8_t) bytes[pos++];
             if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
-- 
2.43.0


From 0f813c027cb2ddeaee53977e496936eb430e12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:04 +0000
Subject: [PATCH 100/158] fix: changes to a node with keys at regular distance
 larger than one

---
 src/trident/tree/node.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index 51aa857..7c04154 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -138,8 +138,9 @@ int Node::serialize(char* bytes, int pos) {
         if (getCurrentSize() > 1) {
             // Check if we can make it consecutive
             uint8_t step = 0;
-            if (consecutive
-                    || (keys[0] == 1
+            if (consecutive) {
+                step = (uint8_t) consecutiveStep;
+            } else if ((keys[0] == 1
                         && keys[getCurrentSize() - 2]
                         == getCurrentSize() - 1)) {
                 step = 1;
@@ -226,13 +227,15 @@ void Node::split(Node *node) {
     currentSize = node->currentSize = context->getMinElementsPerNode();
 
     if (consecutive) {
-        node->firstKey = firstKey + currentSize;
+        node->firstKey = firstKey + currentSize * consecutiveStep;
         node->consecutive = true;
+        node->consecutiveStep = consecutiveStep;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
         if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
                 + 1 == currentSize) {
             node->consecutive = true;
+            node->consecutiveStep = 1;
         } else {
             node->consecutive = false;
             if (node->keys == NULL) {
@@ -258,7 +261,7 @@ void Node::putkeyAt(nTerm key, int pos) {
                 keys = context->getNodesKeyFactory()->get();
                 keys[0] = diff;
                 for (int i = 1; i < getCurrentSize(); ++i) {
-                    keys[i] = diff + i;
+                    keys[i] = diff + i * consecutiveStep;
                 }
                 firstKey = key;
                 consecutive = false;
@@ -275,12 +278,20 @@ void Node::putkeyAt(nTerm key, int pos) {
     } else {
         if (consecutive) {
             int64_t diff = key - firstKey;
-            if (pos != diff) {
+            if (getCurrentSize() == 1) {
+                consecutiveStep = 1;
+            }
+            if (pos != getCurrentSize() || pos * consecutiveStep != diff) {
                 consecutive = false;
 //              keys = new int64_t[context->getMaxElementsPerNode() - 1];
                 keys = context->getNodesKeyFactory()->get();
-                for (int i = 0; i < getCurrentSize() - 1; ++i) {
-                    keys[i] = i + 1;
+                for (int i = 0; i < getCurrentSize(); ++i) {
+                    //Leave a space for the new key
+                    if (i + 1 < pos) {
+                        keys[i] = (i + 1) * consecutiveStep;
+                    } else if (i + 1 > pos) {
+                        keys[i] = i * consecutiveStep;
+                    }
                 }
                 keys[pos - 1] = diff;
             }
@@ -306,7 +317,7 @@ void Node::removeKeyAtPos(int pos) {
     if (getCurrentSize() > 1 && pos < getCurrentSize() - 1) {
         if (consecutive) {
             if (pos == 0) {
-                firstKey += 1;
+                firstKey += consecutiveStep;
             } else {
                 if (keys == NULL) {
 //                  keys = new int64_t[context->getMaxElementsPerNode() - 1];
@@ -314,10 +325,10 @@ void Node::removeKeyAtPos(int pos) {
                 }
                 // up to pos -1 fill keys with 1s
                 for (int i = 0; i < pos - 1; ++i) {
-                    keys[i] = i + 1;
+                    keys[i] = (i + 1) * consecutiveStep;
                 }
                 for (int i = pos - 1; i < getCurrentSize() - 2; ++i) {
-                    keys[i] = i + 2;
+                    keys[i] = (i + 2) * consecutiveStep;
                 }
                 consecutive = false;
             }
-- 
2.43.0


From e50ef844309c7cd192c20a1959f2668a4b06fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:09 +0000
Subject: [PATCH 101/158] fix: cardinality of a pattern counts the removed
 triples

---
 src/trident/kb/querier.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index e076320..8730e5d 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -502,7 +502,11 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             nElements += q->currentValue.getNElements(idx2);
         }
         for (size_t i = 0; i < q->diffIndices.size(); ++i) {
-            nElements += q->diffIndices[i]->getCard(idx, key);
+            if (q->diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                nElements += q->diffIndices[i]->getCard(idx, key);
+            } else {
+                nElements -= q->diffIndices[i]->getCard(idx, key);
+            }
         }
         return nElements;
     }
-- 
2.43.0


From 836a218f5c42234433c89e4472ac9f9f46de56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:04 +0000
Subject: [PATCH 102/158] fix: the summary of the updates ignores the updates
 without new keys

---
 src/trident/kb/querier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 8730e5d..3f4dba3 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -834,7 +834,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             LOG(DEBUGL) << "diffIndices " << i;
             if (diffIndices[i]->getType() == tp) {
                 DiffScanItr *itr = factory11.get();
-- 
2.43.0


From c7c78bbfe1f075262b720ec4248811f53ffc95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:39 +0000
Subject: [PATCH 103/158] fix: merging the updates duplicates or loses triples
 and terms

---
 src/trident/kb/kb.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 136ddbb..712f52e 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -719,8 +719,22 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         Utils::create_directories(dir);
         DiffIndex3::createDiffIndex(type, dir, diffDir, del_s, del_p, del_o, true, q, true);
     } else {
+        // Filter: a triple of the db that was removed and added again is already in the db.
+        std::vector<uint64_t> add_s;
+        std::vector<uint64_t> add_p;
+        std::vector<uint64_t> add_o;
+        for (size_t i = 0; i < all_s.size(); ++i) {
+            if (!q->exists(all_s[i], all_p[i], all_o[i])) {
+                add_s.push_back(all_s[i]);
+                add_p.push_back(all_p[i]);
+                add_o.push_back(all_o[i]);
+            }
+        }
+        if (add_s.size() == 0) {
+            return;
+        }
         Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, all_s, all_p, all_o, true, q, true);
+        DiffIndex3::createDiffIndex(type, dir, diffDir, add_s, add_p, add_o, true, q, true);
     }
 
     //Write the type of file
@@ -789,25 +803,35 @@ void KB::mergeUpdates() {
         totalNumberTerms, nindices, ntables, nFirstTables,
         sampleKB, diffs, present, partial);
 
+    Utils::create_directories(diffDir);
     if (addCount >= 1) {
         PairItr *addItr = q->summaryAddDiff();
 
         createSingleUpdate(DiffIndex::TypeUpdate::ADDITION_df, addItr, diffDir + DIR_SEP + "0", diffDir, q1);
         q->releaseItr(addItr);
     }
+    // There might be no additions left
+    bool hasAdditions = Utils::exists(diffDir + DIR_SEP + "0");
     if (rmCount >= 1) {
         PairItr *rmItr = q->summaryRmDiff();
-        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (addCount != 0 ? "1" : "0"), diffDir, q1);
+        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (hasAdditions ? "1" : "0"), diffDir, q1);
         q->releaseItr(rmItr);
     }
 
     delete q1;
     delete q;
 
-    if (dictUpdates.size() != 0) {
+    if (dictUpdates.size() != 0 && hasAdditions) {
         createNewDict(diffDir + DIR_SEP + "0");
     }
 
+    // Copy the terms of the small updates
+    if (Utils::exists(oldDiffDir + DIR_SEP + "gud")) {
+        std::ifstream src(oldDiffDir + DIR_SEP + "gud", std::ios::binary);
+        std::ofstream dst(diffDir + DIR_SEP + "gud", std::ios::binary);
+        dst << src.rdbuf();
+    }
+
     std::string old = oldDiffDir + std::string(".old");
 
     if (Utils::exists(old)) {
-- 
2.43.0


From 843888712bde3927d73687721c181e9ab745b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:05 +0000
Subject: [PATCH 104/158] fix: seeking in the union of a table and its updates

---
 src/trident/iterators/compositeitr.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/trident/iterators/compositeitr.cpp b/src/trident/iterators/compositeitr.cpp
index 3736de7..45a4831 100644
--- a/src/trident/iterators/compositeitr.cpp
+++ b/src/trident/iterators/compositeitr.cpp
@@ -93,6 +93,7 @@ void CompositeItr::next() {
         if (mustReArrange) {
             rearrangeChildren();
         } else {
+            isSorted = true;
             // Only shifted the last child, so move it into place.
             for (int i = lastIdx; i > 0; i--) {
                 if (_composite_itr_sorter(children[i], children[i-1])) {
@@ -200,11 +201,11 @@ uint64_t CompositeItr::estCardinality() {
 }
 
 void CompositeItr::moveto(const int64_t c1, const int64_t c2) {
-    if (c1 == v1 && (ignseccol || c2 == v2)) {
+    if (c1 < v1 || (c1 == v1 && (ignseccol || c2 <= v2))) {
         //I might have to reconsider also the iterators that were removed
-        while (lastIdx < children.size() - 1 &&
-                children[lastIdx + 1]->getValue1() == c1 &&
-                (ignseccol || children[lastIdx + 1]->getValue2() == c2)) {
+        while (lastIdx + 1 < (int)children.size() &&
+                children[lastIdx + 1]->getValue1() == v1 &&
+                (ignseccol || children[lastIdx + 1]->getValue2() == v2)) {
             lastIdx++;
         }
     }
-- 
2.43.0


From c37f9c813260b3925f9bfebe97cc4a40c8c755fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:10 +0000
Subject: [PATCH 105/158] fix: resetting an iterator to the marked row restores
 that row

---
 include/trident/binarytables/newrowtable.h |  7 ++++++
 include/trident/iterators/aggritr.h        |  3 +++
 include/trident/iterators/reorderitr.h     | 12 +++++++++-
 src/trident/iterators/aggritr.cpp          | 26 ++++++++++++++++++++--
 4 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..ac53d7f 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -43,6 +43,7 @@ class NewRowTable: public AbsNewTable {
         bool isSecondColumnIgnored;
 
         const char *currentMark;
+        int64_t markValue1, markValue2, markCount;
 
     public:
         int64_t getValue1() {
@@ -289,10 +290,16 @@ class NewRowTable: public AbsNewTable {
 
         void mark() {
             currentMark = current;
+            markValue1 = currentValue1;
+            markValue2 = currentValue2;
+            markCount = count;
         }
 
         void reset(const char i) {
             current = currentMark;
+            currentValue1 = markValue1;
+            currentValue2 = markValue2;
+            count = markCount;
         }
 
         void ignoreSecondColumn() {
diff --git a/include/trident/iterators/aggritr.h b/include/trident/iterators/aggritr.h
index ae6ad5b..bdc9af9 100644
--- a/include/trident/iterators/aggritr.h
+++ b/include/trident/iterators/aggritr.h
@@ -39,6 +39,9 @@ class AggrItr: public PairItr {
         int64_t value1, value2;
 
         bool hasNextChecked, n;
+        //State saved by mark()
+        int64_t markValue1, markValue2, markSecond;
+        bool markHasSecond, markHasNextChecked, markN;
         int idx;
 
         //int64_t p;
diff --git a/include/trident/iterators/reorderitr.h b/include/trident/iterators/reorderitr.h
index 1b8f9ce..7f58ccf 100644
--- a/include/trident/iterators/reorderitr.h
+++ b/include/trident/iterators/reorderitr.h
@@ -113,7 +113,14 @@ public:
     LIBEXP void next();
 
     LIBEXP void mark() {
+        if (m_itr != NULL && m_itr != itr) {
+            m_itr->clear();
+            delete m_itr;
+        }
         m_itr = itr;
+        if (itr != NULL) {
+            itr->mark();
+        }
         m_key = key;
         m_nextKeyIndex = nextKeyIndex;
     }
@@ -124,6 +131,9 @@ public:
             delete itr;
         }
         itr = m_itr;
+        if (itr != NULL) {
+            itr->reset(i);
+        }
         key = m_key;
         nextKeyIndex = m_nextKeyIndex;
     }
@@ -136,8 +146,8 @@ public:
         if (m_itr != NULL && m_itr != itr) {
             m_itr->clear();
             delete m_itr;
-            m_itr = NULL;
         }
+        m_itr = NULL;
         if (itr != NULL) {
             itr->clear();
             delete itr;
diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 2b7c8b6..c17cd77 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -97,6 +97,13 @@ void AggrItr::next() {
 
 void AggrItr::mark() {
     mainItr->mark();
+    markValue1 = value1;
+    markValue2 = value2;
+    markHasNextChecked = hasNextChecked;
+    markN = n;
+    markHasSecond = secondItr != NULL;
+    if (markHasSecond)
+        markSecond = secondItr->getValue2();
 }
 
 void AggrItr::reset(const char i) {
@@ -106,11 +113,24 @@ void AggrItr::reset(const char i) {
             q->releaseItr(secondItr);
             secondItr = NULL;
         }
+        if (markHasSecond) {
+            //Return to the same row of the second table
+            setup_second_itr(idx);
+            while (secondItr->hasNext()) {
+                secondItr->next();
+                if (secondItr->getValue2() >= markSecond)
+                    break;
+            }
+        }
+        value1 = markValue1;
+        value2 = markValue2;
+        hasNextChecked = markHasNextChecked;
+        n = markN;
     } else {
         if (secondItr != NULL)
             secondItr->reset(i);
+        hasNextChecked = false;
     }
-    hasNextChecked = false;
 }
 
 void AggrItr::clear() {
@@ -175,7 +195,9 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
     value1 = value2 = -1;
     this->q = q;
     this->idx = idx;
-    hasNextChecked = false;
+    hasNextChecked = n = false;
+    markValue1 = markValue2 = -1;
+    markHasSecond = markHasNextChecked = markN = false;
     noSecColumn = false;
     secondItr = NULL;
     PairItr::setConstraint1(mainItr->getConstraint1());
-- 
2.43.0


From 984b132d34810a9c0f716afc7878f1a0e073ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:10 +0000
Subject: [PATCH 106/158] fix: resetting the union of a table and its updates
 restores the order of its parts

---
 include/trident/iterators/compositeitr.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/trident/iterators/compositeitr.h b/include/trident/iterators/compositeitr.h
index 3f76fbe..27ff181 100644
--- a/include/trident/iterators/compositeitr.h
+++ b/include/trident/iterators/compositeitr.h
@@ -42,6 +42,8 @@ class CompositeItr: public PairItr {
 
         bool hn, hnc;
         bool isSorted,decreasedKey;
+        bool savedSorted, savedDecreasedKey;
+        std::vector<PairItr*> savedChildren;
         DiffIndex *currentdiff;
         int64_t currentCount;
         int64_t nfirstterms;
@@ -92,7 +94,9 @@ class CompositeItr: public PairItr {
             savedlastIdx = lastIdx;
             savedhn = hn;
             savedhnc = hnc;
-            kbitr->mark();
+            savedSorted = isSorted;
+            savedDecreasedKey = decreasedKey;
+            savedChildren = children;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->mark();
             }
@@ -106,7 +110,9 @@ class CompositeItr: public PairItr {
             lastIdx = savedlastIdx;
             hn = savedhn;
             hnc = savedhnc;
-            kbitr->reset(r);
+            isSorted = savedSorted;
+            decreasedKey = savedDecreasedKey;
+            children = savedChildren;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->reset(r);
             }
-- 
2.43.0


From c51b265b275faf3988e39f70ef800bed79ee7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:17 +0000
Subject: [PATCH 107/158] fix: closing a tree of one leaf releases the leaf
 once

---
 src/trident/tree/root.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trident/tree/root.cpp b/src/trident/tree/root.cpp
index d98bfd9..9c2878c 100644
--- a/src/trident/tree/root.cpp
+++ b/src/trident/tree/root.cpp
@@ -94,7 +94,8 @@ Root::Root(string path, StringBuffer *buffer, bool readOnly, PropertyMap &conf)
             rootNode->setId(context->getNewNodeID());
             rootNode->setParent(NULL);
             rootNode->setState(STATE_MODIFIED);
-            cache->registerNode(rootNode);
+            if (!readOnly)
+                cache->registerNode(rootNode);
 
             //Create the directory if it does not exist
             if (!readOnly && !Utils::exists(path)) {
@@ -299,7 +300,8 @@ Root::~Root() {
         } else {
             delete rootNode;
         }
-    } else if (cache) {
+    } else if (cache && readOnly) {
+        //If the tree is not read-only, then the leaf was flushed above
         cache->releaseLeaf(rootNode);
     }
 
-- 
2.43.0


From 40ba0c83438e9bf2658e461310233993b15c483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:05 +0000
Subject: [PATCH 108/158] fix: replacing the coordinates of a term keeps some
 of the old ones

---
 src/trident/tree/leaf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index 5fb3e51..0c265ce 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -626,6 +626,8 @@ Coordinates * Leaf::addCoordinates(Coordinates * list,
             current->posInFile = value->getMark(i);
             current->nElements = value->getNElements(i);
             current->strategy = value->getStrategy(i);
+            prev = current;
+            current = current->next;
         } else if (current != NULL && current->permutation == i) {
             if (prev == NULL) {
                 first = current->next;
-- 
2.43.0


From 1a09dc5098abd90099a7e9c7a8d262f6f79fe9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:30 +0000
Subject: [PATCH 109/158] fix: a leaf changed by an append is written again
 when it leaves the cache

---
 src/trident/tree/leaf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index 0c265ce..78f581d 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -467,11 +467,13 @@ Node *Leaf::put(tTerm *key, int sizeKey, nTerm value) {
 }
 
 Node *Leaf::append(tTerm *key, int sizeKey, nTerm value) {
+    setState(STATE_MODIFIED);
     int p = getCurrentSize();
     return insertAtPosition(p, key, sizeKey, value);
 }
 
 Node *Leaf::append(nTerm key, int64_t coordinates) {
+    setState(STATE_MODIFIED);
     int p = getCurrentSize();
     p = -p - 1;
     return insertAtPosition(p, key, coordinates);
-- 
2.43.0


From da1832e8d4d921984faa1f0a289f38849c1cd6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 110/158] fix: splitting a node of strings whose positions only
 look like a sequence

---
 src/trident/tree/node.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index 7c04154..800cc3b 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -232,8 +232,13 @@ void Node::split(Node *node) {
         node->consecutiveStep = consecutiveStep;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
-        if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
-                + 1 == currentSize) {
+        //The keys of a tree with strings are not sorted. Thus, all of them
+        //must be checked
+        bool sequence = true;
+        for (int i = 0; i < currentSize - 1 && sequence; ++i) {
+            sequence = keys[currentSize + i] - keys[currentSize - 1] == i + 1;
+        }
+        if (sequence) {
             node->consecutive = true;
             node->consecutiveStep = 1;
         } else {
-- 
2.43.0


From 66a98bd02f3eb3fc8af0a8f0e3be040b16e916aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 111/158] fix: splitting a node while its children leave the
 cache

---
 src/trident/tree/intermediatenode.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trident/tree/intermediatenode.cpp b/src/trident/tree/intermediatenode.cpp
index 480c365..b4de89d 100644
--- a/src/trident/tree/intermediatenode.cpp
+++ b/src/trident/tree/intermediatenode.cpp
@@ -255,12 +255,14 @@ Node *IntermediateNode::updateChildren(Node *split, int p,
             if (p > minSize) {
                 n1->removeFirstKey();
                 p -= minSize + 1;
+                //This might load other nodes. Thus, the keys and the children
+                //should be consistent
+                insertAverage(n1, p, n1->children[p], split);
+
                 memmove(n1->children + p + 2, n1->children + p + 1,
                         sizeof(Node *) * (minSize - p - 1));
                 memmove(n1->idChildren + p + 2, n1->idChildren + p + 1,
                         sizeof(int64_t) * (minSize - p - 1));
-
-                insertAverage(n1, p, n1->children[p], split);
                 n1->children[p + 1] = split;
             } else { // CASE: pos == getMinSize()
                 memmove(n1->children + 1, n1->children,
-- 
2.43.0


From e14dbdad4cf0f69aa11c8f9436b02ca3fea61a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 112/158] fix: moving to the next leaf does not remove the
 current one from the cache

---
 src/trident/tree/intermediatenode.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trident/tree/intermediatenode.cpp b/src/trident/tree/intermediatenode.cpp
index b4de89d..f259e75 100644
--- a/src/trident/tree/intermediatenode.cpp
+++ b/src/trident/tree/intermediatenode.cpp
@@ -108,6 +108,16 @@ int IntermediateNode::getPosChild(Node *child) {
         return lastUpdatedChild + 1;
     }
 
+    if (child->canHaveChildren()) {
+        //Retrieving its smallest key might load, and remove, other leaves
+        for (int i = 0; i <= getCurrentSize(); ++i) {
+            if (children[i] == child) {
+                return i;
+            }
+        }
+        return CHILD_NOT_FOUND;
+    }
+
     int p = 0;
     if (!getContext()->textKeys()) {
         p = pos(child->smallestNumericKey());
-- 
2.43.0


From 39cfad4a60cbfc45364c145899c7aa2df6f80b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:17 +0000
Subject: [PATCH 113/158] fix: reading a block of a StringBuffer while another
 one is being compressed

---
 src/trident/tree/stringbuffer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index d0fe38e..b7ae29e 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -345,6 +345,7 @@ void StringBuffer::compressLastBlock() {
 void StringBuffer::uncompressBlock(int b) {
     int64_t start = 0;
     int length = 0;
+    bool isLastBlock = false;
 
     if (!readOnly) {
         sizeLock.lock();
@@ -352,6 +353,7 @@ void StringBuffer::uncompressBlock(int b) {
             start = sizeCompressedBlocks[b - 1];
         }
         length = sizeCompressedBlocks[b] - start;
+        isLastBlock = b == sizeCompressedBlocks.size() - 1;
         sizeLock.unlock();
 
         fileLock.lock();
@@ -366,6 +368,7 @@ void StringBuffer::uncompressBlock(int b) {
             start = sizeCompressedBlocks[b - 1];
         }
         length = sizeCompressedBlocks[b] - start;
+        isLastBlock = b == sizeCompressedBlocks.size() - 1;
 
         sb.seekg(start);
         sb.read(uncompressSupportBuffer, length);
@@ -376,7 +379,7 @@ void StringBuffer::uncompressBlock(int b) {
 
     char *uncompressedBuffer = factory.get();
     int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1) {
+    if (isLastBlock) {
         sizeUncompressed = uncompressedSize - (int64_t) b * SB_BLOCK_SIZE;
     }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
-- 
2.43.0


From c6126dd7902a1ebffe6f8a1d554c59a248db7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:11 +0000
Subject: [PATCH 114/158] fix: estimate joins between patterns that share three
 variables

---
 src/layers/TridentLayer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 85fa230..3bd87aa 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -464,7 +464,11 @@ double TridentLayer::bifocalSampling_SparseAny(bool valueL1,
     //Remove from t2 all elements found in t1. This is to simulate a removal
     //of all dense keys from the left relation (see bifocal paper for details).
     std::vector<std::pair<uint8_t, uint8_t>> posJoins = t1->getPosJoins(t2.get());
-    assert(posJoins.size() < 3);
+    if (posJoins.size() > 2) {
+        //The two relations share all three fields: every triple on one side
+        //can match at most one triple on the other side
+        return min(card1, card2);
+    }
     std::set<uint64_t> keys1;
     std::set<std::pair<uint64_t, uint64_t>> keys2;
     for (size_t i = 0; i < t1->getNRows(); ++i) {
-- 
2.43.0


From 0be07abd43a108af9cb9640915e54ecee45d1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:42 +0000
Subject: [PATCH 115/158] fix: give the elements of a parsed pattern defined
 types

---
 rdf3x/include/cts/parser/SPARQLParser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/include/cts/parser/SPARQLParser.hpp b/rdf3x/include/cts/parser/SPARQLParser.hpp
index 9b4dc8a..bf1345e 100644
--- a/rdf3x/include/cts/parser/SPARQLParser.hpp
+++ b/rdf3x/include/cts/parser/SPARQLParser.hpp
@@ -50,6 +50,8 @@ class SPARQLParser {
             std::string value;
             /// The id for variables
             unsigned id;
+            /// Constructor
+            Element() : type(Literal), subType(None), id(0) {}
         };
         /// A graph pattern
         struct Pattern {
-- 
2.43.0


From e0975c3be76a0073ff27cb451de777f501fb9427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:14 +0000
Subject: [PATCH 116/158] fix: answer patterns with one constant of which no
 variable is used

---
 src/layers/TridentLayer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 3bd87aa..334868f 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -1142,14 +1142,18 @@ bool TridentScan::first() {
 }
 
 bool TridentScan::first(uint64_t el, bool constrained) {
-    if (a != DBLayer::Aggr_t::AGGR_NO)
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_LAST)
         throw 10; //Not supported
 
     if (constrained)
         itr = q->getPermuted(perm, el, -1, -1, true);
+    else if (a == DBLayer::Aggr_t::AGGR_SKIP_2LAST)
+        itr = q->getTermList(perm);
     else
         itr = q->getPermuted(perm, -1, -1, -1, false);
 
+    if (constrained && a == DBLayer::Aggr_t::AGGR_SKIP_2LAST)
+        itr->ignoreSecondColumn(); //Only the key and the counts are used
     if (itr->hasNext()) {
         itr->next();
         return true;
-- 
2.43.0


From 4286631ce9cbb29d291d82fc7ff86771e5c67f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:14 +0000
Subject: [PATCH 117/158] fix: initialise the type of a filter

---
 rdf3x/src/cts/QueryGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 27e9062..b0863c3 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -53,7 +53,7 @@ QueryGraph::Edge::~Edge()
 }
 //---------------------------------------------------------------------------
 QueryGraph::Filter::Filter()
-    : arg1(0), arg2(0), arg3(0), arg4(0), id(~0u), subquery(NULL), subpattern(NULL)
+    : type(Or), arg1(0), arg2(0), arg3(0), arg4(0), id(~0u), subquery(NULL), subpattern(NULL)
       // Constructor
 {
 }
-- 
2.43.0


From 2c46ce01fb9f19c88ce6a1a94114b0f1abc8b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:09 +0000
Subject: [PATCH 118/158] fix: NOT EXISTS holds and VALUES rows are skipped if
 a constant is unknown

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 37 ++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d9df672..b01cf06 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -602,13 +602,24 @@ static bool transformSubquery(SemanticAnalysis *myself, DBLayer& dict,
     for( auto iter : group.values) {
         QueryGraph::ValuesNode n;
         n.variables = iter.variables;
-        for (auto value : iter.values) {
-            bool constV;
-            uint64_t v;
-            if ((!encode(dict, diffIndex, value, v, constV))) {
-                return false;
+        const size_t nvars = n.variables.size();
+        for (size_t i = 0; nvars > 0 && i + nvars <= iter.values.size(); i += nvars) {
+            std::vector<uint64_t> row;
+            for (size_t j = i; j < i + nvars; ++j) {
+                bool constV;
+                uint64_t v;
+                if (!encode(dict, diffIndex, iter.values[j], v, constV)) {
+                    //An unknown constant cannot match anything
+                    break;
+                }
+                row.push_back(v);
             }
-            n.values.push_back(v);
+            if (row.size() == nvars) {
+                n.values.insert(n.values.end(), row.begin(), row.end());
+            }
+        }
+        if (n.values.empty()) {
+            return false;
         }
         output.valueNodes.push_back(n);
     }
@@ -696,12 +707,24 @@ static bool encodeNotExistsFilter(SemanticAnalysis *myself, QueryGraph::Filter::
     if (input.pointerToSubquery != NULL) {
         output.subquery = std::shared_ptr<QueryGraph>(new QueryGraph(currentQueryGraph.getVarCount()));
         myself->transform(*input.pointerToSubquery.get(), *output.subquery.get());
+        if (output.subquery->knownEmpty()) {
+            //Nothing can match, thus the filter always holds
+            output.subquery.reset();
+            output.type = QueryGraph::Filter::Literal;
+            output.value = "true";
+        }
         return true;
     } else { //It's a pattern
         output.subpattern = std::shared_ptr<QueryGraph::SubQuery>(new QueryGraph::SubQuery());
         bool res = transformSubquery(myself, dict, NULL, *input.pointerToSubPattern.get(),
                 *output.subpattern.get(), tempDict, currentQueryGraph);
-        return res;
+        if (!res) {
+            //Nothing can match, thus the filter always holds
+            output.subpattern.reset();
+            output.type = QueryGraph::Filter::Literal;
+            output.value = "true";
+        }
+        return true;
     }
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 04aa6d259d354c0ad9438bda92c1a79c17b45665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:09 +0000
Subject: [PATCH 119/158] fix: accept VALUES wherever a group pattern may start

---
 rdf3x/src/cts/SPARQLParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..cb03f0a 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1463,6 +1463,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
                 group.optional.insert(group.optional.end(), newGroup.optional.begin(), newGroup.optional.end());
                 group.unions.insert(group.unions.end(), newGroup.unions.begin(), newGroup.unions.end());
                 group.subqueries.insert(group.subqueries.end(), newGroup.subqueries.begin(), newGroup.subqueries.end());
+                group.values.insert(group.values.end(), newGroup.values.begin(), newGroup.values.end());
+                group.assignments.insert(group.assignments.end(), newGroup.assignments.begin(), newGroup.assignments.end());
+                group.minuses.insert(group.minuses.end(), newGroup.minuses.begin(), newGroup.minuses.end());
             }
 
             if (token != SPARQLLexer::Dot)
@@ -1493,6 +1496,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             } else if (token == SPARQLLexer::Identifier
                     && lexer.isKeyword("minus")) {
                 parseMinus(group);
+            } else if (token == SPARQLLexer::Identifier
+                    && lexer.isKeyword("values")) {
+                parseValues(group);
             } else {
                 lexer.unget(token);
                 parseGraphPattern(group);
-- 
2.43.0


From b13e060f81850c379d8dc4f1a4515f0592cef30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:09 +0000
Subject: [PATCH 120/158] fix: apply LIMIT to rows rather than to groups of
 equal rows

---
 rdf3x/src/rts/ResultsPrinter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8023223..e1c1e1e 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -359,13 +359,20 @@ uint64_t ResultsPrinter::first()
 	    count -= o;
 	    o = 0;
 	}
+        if (duplicateHandling == ExpandDuplicates) {
+            //Every duplicate is a row
+            count = std::min(count, this->limit - entryCount);
+            entryCount += count;
+        } else {
+            entryCount++;
+        }
         results.push_back(count);
         for (vector<Register*>::const_iterator iter = output.begin(), limit = output.end(); iter != limit; ++iter) {
             uint64_t id = (*iter)->value;
             results.push_back(id);
             if (~id && !DictMgmt::isnumeric(id)) stringCache[id];
         }
-        if ((++entryCount) >= this->limit) break;
+        if (entryCount >= this->limit) break;
     } while ((count = input->next()) != 0);
 
     //Data structures to maintain a permanent copy of the strings
-- 
2.43.0


From f572a0d032d15c28fd8cbe004c5c0bd476f716ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:44 +0000
Subject: [PATCH 121/158] fix: compare numbers in filters by value, also
 against constants that are not in the KB

---
 rdf3x/include/rts/operator/Selection.hpp | 10 ++-
 rdf3x/src/rts/Selection.cpp              | 85 ++++++++++++++++--------
 2 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 3c12bbb..a7ed244 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -21,6 +21,7 @@
 //---------------------------------------------------------------------------
 class Register;
 class Runtime;
+struct value;
 //---------------------------------------------------------------------------
 /// Applies a number of selections
 class Selection : public Operator {
@@ -46,7 +47,7 @@ class Selection : public Operator {
             bool boolean;
 
             /// Constructor
-            Result() : flags(0) {}
+            Result() : flags(0), id(0) {}
             /// Destructor
             ~Result();
 
@@ -55,6 +56,10 @@ class Selection : public Operator {
                 return flags & idAvailable;
             }
             /// String available?
+            bool isUnbound() const {
+                return hasId() && !~id;
+            }
+            /// String available?
             bool hasString() const {
                 return flags & stringAvailable;
             }
@@ -616,8 +621,9 @@ class Selection : public Operator {
         /// The predicate
         Predicate* predicate;
 
+        bool numericValue(Result &v, struct value &val);
         bool numeric(Result &v);
-        bool numLess(const Result &l, const Result &r);
+        bool numLess(Result &l, Result &r);
         bool isNumericComparison(Result &l, Result &r);
 
     public:
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 5127622..52259da 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -94,40 +94,49 @@ Selection::NumType Selection::getNumType(std::string s) {
     return NumType::UNKNOWN;
 }
 
-bool Selection::numeric(Result &v) {
-    if (! (v.flags & Result::idAvailable)) {
-	return false;
+bool Selection::numericValue(Result &v, IdValue &val) {
+    //Constants that are not in the dictionary do not have an ID
+    if (v.hasId()) {
+        auto r = runtime.valueMap.find(v.id);
+        if (r != runtime.valueMap.end()) {
+            val = r->second;
+            return true;
+        }
     }
-    auto r = runtime.valueMap.find(v.id);
-    if (r == runtime.valueMap.end()) {
-	IdValue val;
-	v.ensureString(this);
-	val.tp = getNumType(v.value);
-	if (val.tp == NumType::DECIMAL) {
-	    val.val.dv = _getDouble(v.value);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	} else if (val.tp == NumType::INT) {
-	    val.val.iv = _getLong(v.value);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	} else if (val.tp == NumType::DATE || val.tp == NumType::DATETIME) {
-	    val.val.iv = _getTime(v.value, val.tp);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	}
-	return false;
+    v.ensureString(this);
+    val.tp = getNumType(v.value);
+    try {
+        if (val.tp == NumType::DECIMAL) {
+            val.val.dv = _getDouble(v.value);
+        } else if (val.tp == NumType::INT) {
+            val.val.iv = _getLong(v.value);
+        } else if (val.tp == NumType::DATE || val.tp == NumType::DATETIME) {
+            val.val.iv = _getTime(v.value, val.tp);
+        } else {
+            return false;
+        }
+    } catch (...) {
+        return false; //The lexical form is not valid
+    }
+    if (v.hasId()) {
+        runtime.valueMap[v.id] = val;
     }
     return true;
 }
 
+bool Selection::numeric(Result &v) {
+    IdValue val;
+    return numericValue(v, val);
+}
+
 bool Selection::isNumericComparison(Result &l, Result &r) {
     return numeric(l) && numeric(r);
 }
 
-bool Selection::numLess(const Result &l, const Result &r) {
-    IdValue v1 = runtime.valueMap[l.id];
-    IdValue v2 = runtime.valueMap[r.id];
+bool Selection::numLess(Result &l, Result &r) {
+    IdValue v1, v2;
+    if (!numericValue(l, v1) || !numericValue(r, v2))
+        return false;
     if (v1.tp != NumType::DECIMAL) {
 	if (v2.tp != NumType::DECIMAL) {
 	    return v1.val.iv < v2.val.iv;
@@ -338,6 +347,12 @@ void Selection::Equal::eval(Result& result)
     left->eval(l);
     right->eval(r);
 
+    if (l.isUnbound() || r.isUnbound()) {
+        //Unbound values cannot be compared
+        result.setBoolean(false);
+        return;
+    }
+
     // Cheap case first
     if (l.hasId() && r.hasId()) {
         result.setBoolean(l.id == r.id);
@@ -363,6 +378,12 @@ void Selection::NotEqual::eval(Result& result)
     left->eval(l);
     right->eval(r);
 
+    if (l.isUnbound() || r.isUnbound()) {
+        //Unbound values cannot be compared
+        result.setBoolean(false);
+        return;
+    }
+
     // Cheap case first
     if (l.hasId() && r.hasId()) {
         result.setBoolean(l.id != r.id);
@@ -388,6 +409,12 @@ void Selection::Less::eval(Result& result)
     left->eval(l);
     right->eval(r);
 
+    if (l.isUnbound() || r.isUnbound()) {
+        //Unbound values cannot be compared
+        result.setBoolean(false);
+        return;
+    }
+
     bool num1 =  DictMgmt::isnumeric(l.id);
     bool num2 =  DictMgmt::isnumeric(r.id);
 
@@ -395,7 +422,7 @@ void Selection::Less::eval(Result& result)
         if (selection->isNumericComparison(l,r)) {
             result.setBoolean(selection->numLess(l,r));
         } else {
-	    r.ensureString(selection);
+	    l.ensureString(selection);
 	    r.ensureString(selection);
             result.setBoolean(l.value < r.value);
         }
@@ -466,6 +493,12 @@ void Selection::LessOrEqual::eval(Result& result)
     left->eval(l);
     right->eval(r);
 
+    if (l.isUnbound() || r.isUnbound()) {
+        //Unbound values cannot be compared
+        result.setBoolean(false);
+        return;
+    }
+
     bool num1 =  DictMgmt::isnumeric(l.id);
     bool num2 =  DictMgmt::isnumeric(r.id);
     
-- 
2.43.0


From 7e6e3fe20b8171bb1c77476c942f6cab96fd6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:44 +0000
Subject: [PATCH 122/158] fix: ORDER BY sorts numeric literals by value

---
 rdf3x/src/rts/Sort.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index 4d89dbc..266ba94 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -1,6 +1,7 @@
 #include "rts/operator/Sort.hpp"
 #include "infra/util/Type.hpp"
 #include "rts/operator/PlanPrinter.hpp"
+#include "rts/operator/Selection.hpp"
 #include "rts/runtime/Runtime.hpp"
 #include "trident/kb/dictmgmt.h"
 
@@ -37,6 +38,18 @@ class Sort::Sorter {
         bool operator()(const Tuple* a, const Tuple* b);
 };
 //---------------------------------------------------------------------------
+static bool numericValue(const char* start, const char* stop, double& value)
+    // Get the value of a numeric literal
+{
+    if (start == stop || *start != '"' || *(stop - 1) != '>') return false;
+    const string s(start, stop);
+    const Selection::NumType type = Selection::getNumType(s);
+    if (type != Selection::NumType::INT && type != Selection::NumType::DECIMAL) return false;
+    char* end = NULL;
+    value = strtod(s.c_str() + 1, &end);
+    return end != s.c_str() + 1 && *end == '"' && value == value;
+}
+//---------------------------------------------------------------------------
 bool Sort::Sorter::operator()(const Tuple* a, const Tuple* b)
     // Compare
 {
@@ -80,6 +93,13 @@ bool Sort::Sorter::operator()(const Tuple* a, const Tuple* b)
             stop1 = start1 + len1;
             stop2 = start2 + len2;
 
+            // Numbers are sorted by value and come before the other terms
+            double num1 = 0, num2 = 0;
+            const bool isnum1 = numericValue(start1, stop1, num1);
+            const bool isnum2 = numericValue(start2, stop2, num2);
+            if (isnum1 != isnum2) return isnum1;
+            if (isnum1 && num1 != num2) return num1 < num2;
+
             // Compare
             if (type1 < type2) return true;
             if (type1 > type2) return false;
-- 
2.43.0


From 87226ec07ced4b6c08989303b7f45744ecb0dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:40 +0000
Subject: [PATCH 123/158] fix: keep the type of constants that are not in the
 KB

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 3 +++
 rdf3x/src/rts/Selection.cpp        | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index b01cf06..eb9be73 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -391,6 +391,9 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
                                                     output.type = QueryGraph::Filter::Literal;
                                                     output.id = ~0u;
                                                     output.value = input.value;
+                                                    if (e.subType == SPARQLParser::Element::CustomType && !e.subTypeValue.empty())
+                                                        //Keep the type so that numbers can be compared by value
+                                                        output.value = "\"" + input.value + "\"^^<" + e.subTypeValue + ">";
                                                     //In this case the literal is completely new (and is not present in the KB.)
                                                     output.valueid = tempDict.add(output.value);
                                                 }
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 52259da..02789ff 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -82,7 +82,8 @@ Selection::NumType Selection::getNumType(std::string s) {
     std::string integer = "^^<http://www.w3.org/2001/XMLSchema#integer>";
     std::string datetime = "^^<http://www.w3.org/2001/XMLSchema#dateTime>";
     std::string date = "^^<http://www.w3.org/2001/XMLSchema#date>";
-    if (_endsWith(s,dbl) || _endsWith(s,flt)) {
+    std::string decimal = "^^<http://www.w3.org/2001/XMLSchema#decimal>";
+    if (_endsWith(s,dbl) || _endsWith(s,flt) || _endsWith(s,decimal)) {
         return NumType::DECIMAL;
     } else if (_endsWith(s,integer)) {
         return NumType::INT;
-- 
2.43.0


From 5bb98464c484904403b5b86b7b9d8bfb00da7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:41 +0000
Subject: [PATCH 124/158] fix: lookupById inspects the text that it has read

---
 src/layers/TridentLayer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 334868f..32d02fe 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -122,9 +122,10 @@ bool TridentLayer::lookupById(uint64_t id,
     //Subtypes are not supported. Set default value to zero.
     subType = 0;
     if (resp) {
-        if (supportBuffer[0] == '<') {
-            output = output + 1;
+        if (size >= 2 && output[0] == '<') {
+            //Remove the delimiters
             length -= 2;
+            memmove(output, output + 1, length);
             type = ::Type::ID::URI;
         } else {
             type = ::Type::ID::Literal;
-- 
2.43.0


From 3fff49c35ea8c1d9b5ce1fcab0b507b26fbc0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:55 +0000
Subject: [PATCH 125/158] fix: CONTAINS looks at the lexical forms, whether or
 not the pattern is a term of the KB

---
 rdf3x/src/rts/Selection.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 02789ff..0980244 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -69,6 +69,15 @@ int64_t _getTime(const std::string &s, Selection::NumType tp) {
 	+ (min << 16) + sec;
 }
 
+std::string _lexicalForm(const std::string &s) {
+    //Literals of the dictionary are stored with quotes and type
+    auto last = s.rfind('"');
+    if (s.size() > 1 && s[0] == '"' && last > 0) {
+        return s.substr(1, last - 1);
+    }
+    return s;
+}
+
 bool _endsWith(const std::string &s, const std::string &suffix) {
     if (s.length() >= suffix.length()) {
         return (0 == s.compare(s.length() - suffix.length(), suffix.length(), suffix));
@@ -874,7 +883,7 @@ void Selection::BuiltinContains::eval(Result& result)
         return;
     }
 
-    result.setBoolean(l.value.find(r.value) != std::string::npos);
+    result.setBoolean(_lexicalForm(l.value).find(_lexicalForm(r.value)) != std::string::npos);
 }
 //---------------------------------------------------------------------------
 string Selection::BuiltinContains::print(PlanPrinter& out)
-- 
2.43.0


From f777cd526d21c248a6c6f1b3645c7ccaae64f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:10 +0000
Subject: [PATCH 126/158] fix: BOUND of a variable that no operator produces is
 false

---
 rdf3x/src/cts/CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 5442dbb..e2d72cd 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -658,7 +658,7 @@ static Selection::Predicate* buildSelection(Runtime &runtime, const map<unsigned
         case QueryGraph::Filter::Builtin_datatype:
                                            return new Selection::BuiltinDatatype(buildSelection(runtime,bindings, *filter.arg1, plan, registers));
         case QueryGraph::Filter::Builtin_bound:
-                                           if (~(filter.arg1->id))
+                                           if (~(filter.arg1->id) && bindings.count(filter.arg1->id))
                                                return new Selection::BuiltinBound((*bindings.find(filter.arg1->id)).second);
                                            else
                                                return new Selection::False();
-- 
2.43.0


From 9b787ebf418be0d820e5d9fdd4e2c004417dd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:10 +0000
Subject: [PATCH 127/158] fix: OFFSET skips rows, not the duplicates that they
 stand for

---
 rdf3x/src/rts/ResultsPrinter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index e1c1e1e..e8330c4 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -352,6 +352,11 @@ uint64_t ResultsPrinter::first()
     do {
         if (count < minCount) continue;
 	if (o > 0)  {
+	    if (duplicateHandling != ExpandDuplicates) {
+		//Every entry is a single row
+		o--;
+		continue;
+	    }
 	    if (o >= count) {
 		o -= count;
 		continue;
-- 
2.43.0


From ba07a13eaf2977ba466d3e79efa3a00d88481807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 128/158] fix: the term list of a permutation that is not
 stored has the counts of its terms

---
 include/trident/iterators/reordertermitr.h | 10 ++++-----
 src/trident/iterators/reordertermitr.cpp   | 26 ++++++++++------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/trident/iterators/reordertermitr.h b/include/trident/iterators/reordertermitr.h
index b12582b..2ee2bca 100644
--- a/include/trident/iterators/reordertermitr.h
+++ b/include/trident/iterators/reordertermitr.h
@@ -30,23 +30,23 @@
 #include <inttypes.h>
 #include <vector>
 
-#include <google/dense_hash_set>
+#include <google/dense_hash_map>
 
 class ReOrderTermItr: public PairItr {
 private:
 
     Querier *q;
     PairItr *helper;
-    std::vector<uint64_t> keys;
+    std::vector<std::pair<uint64_t, int64_t>> keys;
     size_t nextKeyIndex;
     int idx;
     bool initialized;
     size_t m_nextKeyIndex;
     size_t m_key;
 
-    void fillValuesO(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesO(google::dense_hash_map<uint64_t, int64_t> &keys);
 
-    void fillValuesP(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesP(google::dense_hash_map<uint64_t, int64_t> &keys);
 
     void fillValues();
 
@@ -68,7 +68,7 @@ public:
     }
 
 	LIBEXP int64_t getCount() {
-        return 1;
+        return keys[nextKeyIndex - 1].second;
     }
 
 	LIBEXP uint64_t getCardinality();
diff --git a/src/trident/iterators/reordertermitr.cpp b/src/trident/iterators/reordertermitr.cpp
index fef346c..47edb0d 100644
--- a/src/trident/iterators/reordertermitr.cpp
+++ b/src/trident/iterators/reordertermitr.cpp
@@ -21,42 +21,40 @@
 
 #include <trident/iterators/reordertermitr.h>
 
-void ReOrderTermItr::fillValuesO(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesO(google::dense_hash_map<uint64_t, int64_t> &keys) {
     while (helper->hasNext()) {
         helper->next();
-        uint64_t key = helper->getValue2();
-        keys.insert(key);
+        keys[helper->getValue2()]++;
     }
 }
 
-void ReOrderTermItr::fillValuesP(google::dense_hash_set<uint64_t> &keys) {
-    helper->ignoreSecondColumn();
+void ReOrderTermItr::fillValuesP(google::dense_hash_map<uint64_t, int64_t> &keys) {
     while (helper->hasNext()) {
         helper->next();
-        uint64_t key = helper->getValue1();
-        keys.insert(key);
+        keys[helper->getValue1()]++;
     }
 }
 
 void ReOrderTermItr::fillValues() {
-    google::dense_hash_set<uint64_t> keySet;
-    keySet.set_empty_key(0xFFFFFFFFFFFFFFFF);
+    //The keys, with the number of triples in which they occur
+    google::dense_hash_map<uint64_t, int64_t> keyMap;
+    keyMap.set_empty_key(0xFFFFFFFFFFFFFFFF);
     switch(idx) {
     case IDX_OSP:
     case IDX_OPS:
-        fillValuesO(keySet);
+        fillValuesO(keyMap);
         break;
     case IDX_PSO:
     case IDX_POS:
-        fillValuesP(keySet);
+        fillValuesP(keyMap);
         break;
     default:
         // Should not happen.
         throw 10;
     }
 
-    for (auto v = keySet.begin(); v != keySet.end(); v++) {
-        keys.push_back(*v);
+    for (auto v = keyMap.begin(); v != keyMap.end(); v++) {
+        keys.push_back(std::make_pair(v->first, v->second));
     }
 
     initialized = true;
@@ -79,6 +77,6 @@ bool ReOrderTermItr::hasNext() {
 }
 
 void ReOrderTermItr::next() {
-    key = keys[nextKeyIndex];
+    key = keys[nextKeyIndex].first;
     nextKeyIndex++;
 }
-- 
2.43.0


From 7a268b2bcd0893c3d0dc9746a0bcb24b7731690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:39 +0000
Subject: [PATCH 129/158] fix: ORDER BY does not touch variables that no
 operator produces

---
 rdf3x/src/cts/CodeGen.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index e2d72cd..8690156 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1328,9 +1328,12 @@ Operator* CodeGen::translateIntern(Runtime& runtime, const QueryGraph& query, Pl
             vector<Register*> regs;
             vector<pair<Register*, bool> > order;
             for (set<unsigned>::const_iterator iter = projection.begin(), limit = projection.end(); iter != limit; ++iter)
-                regs.push_back(bindings[*iter]);
+                if (bindings.count(*iter))
+                    regs.push_back(bindings[*iter]);
             for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
-                if (~(*iter).id)
+                if (~(*iter).id && !bindings.count((*iter).id))
+                    continue; //It is not bound in any row
+                else if (~(*iter).id)
                     order.push_back(pair<Register*, bool>(bindings[(*iter).id], (*iter).descending));
                 else
                     order.push_back(pair<Register*, bool>(0, (*iter).descending));
-- 
2.43.0


From 56b41d4f40c283254515e0b512af128c42b14d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:55 +0000
Subject: [PATCH 130/158] fix: IsWeaklyConn reports that a graph of one node is
 not connected

---
 snap/snap-core/cncom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/cncom.h b/snap/snap-core/cncom.h
index 5b10405..e9ac804 100644
--- a/snap/snap-core/cncom.h
+++ b/snap/snap-core/cncom.h
@@ -282,6 +282,7 @@ bool IsWeaklyConn(const PGraph& Graph) {
   typename PGraph::TObj::TNodeI NI;
   // the rest of the nodes
   NIdQ.Push(Graph->BegNI().GetId());
+  VisitedNId.AddKey(Graph->BegNI().GetId());
   while (! NIdQ.Empty()) {
     const typename PGraph::TObj::TNodeI Node = Graph->GetNI(NIdQ.Top());  NIdQ.Pop();
     if (HasGraphFlag(typename PGraph::TObj, gfDirected)) {
-- 
2.43.0


From dd2be63a67ae3cc4b1981bf833f242627a4ddc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 131/158] fix: the root of every component but the first is
 reported as an articulation point

---
 snap/snap-core/cncom.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/cncom.h b/snap/snap-core/cncom.h
index e9ac804..fcce848 100644
--- a/snap/snap-core/cncom.h
+++ b/snap/snap-core/cncom.h
@@ -138,6 +138,7 @@ public:
   THash<TInt, TInt> ParentH;
   TIntSet ArtSet;
   TInt Time;
+  TIntSet RootChildSet; // roots of the DFS trees that have a finished child
 public:
   TArtPointVisitor() { }
   TArtPointVisitor(const int& Nodes) : VnLowH(Nodes), ParentH(Nodes)  { }
@@ -145,8 +146,10 @@ public:
   void FinishNode(const int& NId) {
     if (! ParentH.IsKey(NId)) { return; }  const int Prn = ParentH.GetDat(NId);
     VnLowH.GetDat(Prn).Val2 = TMath::Mn(VnLowH.GetDat(Prn).Val2, VnLowH.GetDat(NId).Val2);
-    if (VnLowH.GetDat(Prn).Val1==1 && VnLowH.GetDat(NId).Val1!=2) { ArtSet.AddKey(Prn); }
-    if (VnLowH.GetDat(Prn).Val1!=1 && VnLowH.GetDat(NId).Val2>=VnLowH.GetDat(Prn).Val1) { ArtSet.AddKey(Prn); } }
+    if (! ParentH.IsKey(Prn)) { // a root is an articulation point if it has more than one child
+      if (RootChildSet.IsKey(Prn)) { ArtSet.AddKey(Prn); }
+      else { RootChildSet.AddKey(Prn); } }
+    else if (VnLowH.GetDat(NId).Val2>=VnLowH.GetDat(Prn).Val1) { ArtSet.AddKey(Prn); } }
   void ExamineEdge(const int& NId1, const int& NId2) { }
   void TreeEdge(const int& NId1, const int& NId2) { ParentH.AddDat(NId2, NId1); }
   void BackEdge(const int& NId1, const int& NId2) {
-- 
2.43.0


From 61a79e6efd960c583c55e6a84f6bae69da0c1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 132/158] fix: Get1CnComSzCnt drops all the components of the
 size of the largest one

---
 snap/snap-core/cncom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/cncom.cpp b/snap/snap-core/cncom.cpp
index feb5f05..70d5a0a 100644
--- a/snap/snap-core/cncom.cpp
+++ b/snap/snap-core/cncom.cpp
@@ -90,7 +90,9 @@ void Get1CnComSzCnt(const PUNGraph& Graph, TIntPrV& SzCntV) {
   GetWccSzCnt(TmpG, SzCntV);
   for (int c = 0; c < SzCntV.Len(); c++) {
     if (SzCntV[c].Val1 == MxCcSet.Len()) { 
-      SzCntV.Del(c);  break; }
+      if (SzCntV[c].Val2 > 1) { SzCntV[c].Val2--; } // other components have the same size
+      else { SzCntV.Del(c); }
+      break; }
   }
 }
 
-- 
2.43.0


From 969700e7b71e02730e2e63d6c5b7212f62d8aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 133/158] fix: converting a subgraph with renumbered nodes uses
 node ids as positions

---
 snap/snap-core/subgraph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/subgraph.h b/snap/snap-core/subgraph.h
index eecc035..9f260e8 100644
--- a/snap/snap-core/subgraph.h
+++ b/snap/snap-core/subgraph.h
@@ -291,9 +291,9 @@ struct TConvertSubGraph<POutGraph, PInGraph, false> { // InGraph is not multigra
       }
       for (int n = 0; n < NIdV.Len(); n++) {
         typename PInGraph::TObj::TNodeI NI = InGraph->GetNI(NIdV[n]);
-        const int src = NIdSet.GetKey(NIdV[n]);
+        const int src = NIdSet.GetKeyId(NIdV[n]);
         for (int e = 0; e < NI.GetOutDeg(); e++) {
-          const int dst = NIdSet.GetKey(NI.GetOutNId(e));
+          const int dst = NIdSet.GetKeyId(NI.GetOutNId(e));
           if (! OutGraph.IsNode(dst)) { continue; }
           OutGraph.AddEdge(src, dst);
         }
-- 
2.43.0


From 336e7116668bb749ddaef2b7474d1146a9f6c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 134/158] fix: a random subgraph of all the nodes or edges
 stops with an assertion

---
 snap/snap-core/subgraph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/subgraph.h b/snap/snap-core/subgraph.h
index 9f260e8..9628617 100644
--- a/snap/snap-core/subgraph.h
+++ b/snap/snap-core/subgraph.h
@@ -355,7 +355,7 @@ PGraph GetRndSubGraph(const PGraph& Graph, const int& NNodes) {
   TIntV NIdV;
   Graph->GetNIdV(NIdV);
   NIdV.Shuffle(TInt::Rnd);
-  NIdV.Del(NNodes, NIdV.Len()-1);
+  NIdV.Trunc(NNodes);
   IAssert(NIdV.Len() == NNodes);
   return GetSubGraph(Graph, NIdV);
 }
@@ -368,7 +368,7 @@ PGraph GetRndESubGraph(const PGraph& Graph, const int& NEdges) {
     EdgeV.Add(TIntPr(EI.GetSrcNId(), EI.GetDstNId()));
   }
   EdgeV.Shuffle(TInt::Rnd);
-  EdgeV.Del(NEdges, EdgeV.Len()-1);
+  EdgeV.Trunc(NEdges);
   IAssert(EdgeV.Len() == NEdges);
   return GetESubGraph(Graph, EdgeV);
 }
-- 
2.43.0


From 237d13570e0811a2596df4446af9e261f465a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 135/158] fix: egonet of a node with a self loop stops; edges
 around it are counted twice

---
 snap/snap-core/subgraph.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/subgraph.cpp b/snap/snap-core/subgraph.cpp
index 7b2b2fa..8f5a1ed 100644
--- a/snap/snap-core/subgraph.cpp
+++ b/snap/snap-core/subgraph.cpp
@@ -85,7 +85,9 @@ PUNGraph GetEgonet(const PUNGraph& Graph, const int CtrNId, int& ArndEdges) {
   NewGraph.AddNode(CtrNId);
   const TUNGraph::TNodeI& CtrNode = Graph->GetNI(CtrNId);
   for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
-    NewGraph.AddNode(CtrNode.GetInNId(i));
+    if (!NewGraph.IsNode(CtrNode.GetInNId(i))) {
+      NewGraph.AddNode(CtrNode.GetInNId(i));
+    }
   }
   ArndEdges = 0;
   for (int i = 0; i < CtrNode.GetInDeg(); ++i) {
@@ -117,8 +119,11 @@ PNGraph GetEgonet(const PNGraph& Graph, const int CtrNId, int& InEdges, int& Out
   }
   InEdges = 0;
   OutEdges = 0;
+  TIntSet NbrSet(CtrNode.GetDeg());
   for (int i = 0; i < CtrNode.GetDeg(); ++i) {
     int NbrNId = CtrNode.GetNbrNId(i);
+    if (NbrSet.IsKey(NbrNId)) { continue; } // linked in both directions
+    NbrSet.AddKey(NbrNId);
     const TNGraph::TNodeI& NbrNode = Graph->GetNI(NbrNId);
     for (int j = 0; j < NbrNode.GetInDeg(); ++j) {
       int NbrNbrNId = NbrNode.GetInNId(j);
-- 
2.43.0


From e755010c2076ee0778a771cf505fa8f844376f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 136/158] fix: CntUniqBiDirEdges counts parallel edges of a
 multigraph more than once

---
 snap/snap-core/alg.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snap/snap-core/alg.h b/snap/snap-core/alg.h
index 51983d3..0ae8ec9 100644
--- a/snap/snap-core/alg.h
+++ b/snap/snap-core/alg.h
@@ -321,9 +321,12 @@ int CntUniqBiDirEdges(const PGraph& Graph) {
   int Cnt = 0;
   for (typename PGraph::TObj::TNodeI NI = Graph->BegNI(); NI < Graph->EndNI(); NI++) {
     const int SrcId = NI.GetId();
+    NbrSet.Clr(false);
     for (int e = 0; e < NI.GetOutDeg(); e++) {
       const int DstId = NI.GetOutNId(e);
       if (DstId <= SrcId) { continue; } // count each un-dir edge only once
+      if (NbrSet.IsKey(DstId)) { continue; } // parallel edge
+      NbrSet.AddKey(DstId);
       if (Graph->IsEdge(DstId, SrcId)) { Cnt++; }
     }
   }
-- 
2.43.0


From 894cc3f2815d214bf88a95271f3d01ca64567411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 137/158] fix: GetRndPath uses edges in the direction that the
 BFS did not follow

---
 snap/snap-core/bfsdfs.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/snap/snap-core/bfsdfs.h b/snap/snap-core/bfsdfs.h
index 1f2de04..6d285d8 100644
--- a/snap/snap-core/bfsdfs.h
+++ b/snap/snap-core/bfsdfs.h
@@ -64,9 +64,10 @@ public:
   TSnapQueue<int> Queue;
   TInt StartNId;
   TIntH NIdDistH;
+  TBool FollowedOut, FollowedIn; // directions that the last BFS followed
 public:
   TBreathFS(const PGraph& GraphPt, const bool& InitBigQ=true) :
-    Graph(GraphPt), Queue(InitBigQ?Graph->GetNodes():1024), NIdDistH(InitBigQ?Graph->GetNodes():1024) { }
+    Graph(GraphPt), Queue(InitBigQ?Graph->GetNodes():1024), NIdDistH(InitBigQ?Graph->GetNodes():1024), FollowedOut(true), FollowedIn(true) { }
   /// Sets the graph to be used by the BFS to GraphPt and resets the data structures.
   void SetGraph(const PGraph& GraphPt);
   /// Performs BFS from node id StartNode for at maps MxDist steps by only following in-links (parameter FollowIn = true) and/or out-links (parameter FollowOut = true).
@@ -104,7 +105,7 @@ void TBreathFS<PGraph>::SetGraph(const PGraph& GraphPt) {
 
 template<class PGraph>
 int TBreathFS<PGraph>::DoBfs(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
-  StartNId = StartNode;
+  StartNId = StartNode;  FollowedOut = FollowOut;  FollowedIn = FollowIn;
   IAssert(Graph->IsNode(StartNId));
 //  const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
 //  IAssertR(StartNodeI.GetOutDeg() > 0, TStr::Fmt("No neighbors from start node %d.", StartNode));
@@ -144,7 +145,7 @@ int TBreathFS<PGraph>::DoBfs(const int& StartNode, const bool& FollowOut, const
 
 template<class PGraph>
 int TBreathFS<PGraph>::DoBfsHybrid(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
-  StartNId = StartNode;
+  StartNId = StartNode;  FollowedOut = FollowOut;  FollowedIn = FollowIn;
   IAssert(Graph->IsNode(StartNId));
   if (TargetNId == StartNode) return 0;
   const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
@@ -288,10 +289,20 @@ int TBreathFS<PGraph>::GetRndPath(const int& SrcNId, const int& DstNId, TIntV& P
     typename PGraph::TObj::TNodeI NI = Graph->GetNI(CurNId);
     IAssert(NIdDistH.IsKeyGetDat(CurNId, CurDist));
     CloserNIdV.Clr(false);
-    for (int e = 0; e < NI.GetDeg(); e++) {
-      const int Next = NI.GetNbrNId(e);
-      if (NIdDistH.IsKeyGetDat(Next, NextDist)) {
-        if (NextDist == CurDist-1) { CloserNIdV.Add(Next); }
+    if (FollowedOut) { // out-links were followed: go back over in-links
+      for (int e = 0; e < NI.GetInDeg(); e++) {
+        const int Next = NI.GetInNId(e);
+        if (NIdDistH.IsKeyGetDat(Next, NextDist)) {
+          if (NextDist == CurDist-1) { CloserNIdV.Add(Next); }
+        }
+      }
+    }
+    if (FollowedIn) {
+      for (int e = 0; e < NI.GetOutDeg(); e++) {
+        const int Next = NI.GetOutNId(e);
+        if (NIdDistH.IsKeyGetDat(Next, NextDist)) {
+          if (NextDist == CurDist-1) { CloserNIdV.Add(Next); }
+        }
       }
     }
     IAssert(! CloserNIdV.Empty());
-- 
2.43.0


From c776b73e3e856949962c045c45449c729fdf8f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:27 +0000
Subject: [PATCH 138/158] fix: DoBfsHybrid keeps the distances of the previous
 search if the target is the start

---
 snap/snap-core/bfsdfs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/bfsdfs.h b/snap/snap-core/bfsdfs.h
index 6d285d8..81dad1c 100644
--- a/snap/snap-core/bfsdfs.h
+++ b/snap/snap-core/bfsdfs.h
@@ -147,7 +147,7 @@ template<class PGraph>
 int TBreathFS<PGraph>::DoBfsHybrid(const int& StartNode, const bool& FollowOut, const bool& FollowIn, const int& TargetNId, const int& MxDist) {
   StartNId = StartNode;  FollowedOut = FollowOut;  FollowedIn = FollowIn;
   IAssert(Graph->IsNode(StartNId));
-  if (TargetNId == StartNode) return 0;
+  if (TargetNId == StartNode) { NIdDistH.Clr(false);  NIdDistH.AddDat(StartNId, 0);  return 0; }
   const typename PGraph::TObj::TNodeI StartNodeI = Graph->GetNI(StartNode);
 
   // Initialize vector
-- 
2.43.0


From 7f12f0bcffe46591af7baba247f5b4b3496f8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 139/158] fix: GetNodeClustCf writes its results beyond the end
 of an empty vector

---
 snap/snap-core/triad.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index 13e9d28..f961012 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -206,8 +206,7 @@ namespace TSnap {
         void GetNodeClustCf(const PGraph& Graph, std::vector<float>& NIdCCfH) {
             std::vector<TUInt64Tr> NIdCOTriadV;
             GetTriads(Graph, NIdCOTriadV);
-            NIdCCfH.clear();
-            NIdCCfH.reserve(Graph->GetNodes());
+            NIdCCfH.assign(Graph->GetNodes(), 0);
             for ( int64_t i = 0; i < NIdCOTriadV.size(); i++) {
                 const  int64_t D = NIdCOTriadV[i].Val2()+NIdCOTriadV[i].Val3();
                 const double CCf = D!=0 ? NIdCOTriadV[i].Val2() / double(D) : 0.0;
-- 
2.43.0


From d38400509435475eca3c7a16a5ceff0959c81c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 140/158] fix: GetTriads on a sample of the nodes counts the
 triads of other nodes and may use a node past the last

---
 snap/snap-core/triad.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index f961012..9a78c58 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -402,10 +402,10 @@ namespace TSnap {
             if (SampleNodes != -1) {
                 std::random_device rd;
                 std::mt19937 gen(rd());
-                std::uniform_int_distribution< int64_t> dis(0, NNodes);
+                std::uniform_int_distribution< int64_t> dis(0, NNodes - 1);
 
                 std::set< int64_t> set_samples;
-                for( int64_t i = 0; i < SampleNodes; ) {
+                for( int64_t i = 0; i < SampleNodes && i < NNodes; ) {
                      int64_t id = dis(gen);
                     if (!set_samples.count(id)) {
                         set_samples.insert(id);
@@ -422,18 +422,15 @@ namespace TSnap {
             std::vector< int64_t> Nbrs2;
             for ( int64_t node = 0; node < nodesToProcess; node++) {
                 typename PGraph::TObj::TNodeI NI;
-                if (SampleNodes == -1) {
-                    NI = Graph->GetNI(node);
-                } else {
-                    NI = Graph->GetNI(samples[node]);
-                }
+                const int64_t NId = SampleNodes == -1 ? node : samples[node];
+                NI = Graph->GetNI(NId);
                 hcount++;
                 if (NI.GetDeg() < 2) {
-                    NIdCOTriadV[node] = TUInt64Tr(node, 0, 0); // zero triangles
+                    NIdCOTriadV[node] = TUInt64Tr(NId, 0, 0); // zero triangles
                     continue;
                 }
                 Nbrs1.clear();
-                GetUniqueNbrV(Graph, node, Nbrs1);
+                GetUniqueNbrV(Graph, NId, Nbrs1);
                 // count connected neighbors
                  int64_t OpenCnt1 = 0, CloseCnt1 = 0;
                 for ( int64_t srcNbr = 0; srcNbr < Nbrs1.size(); srcNbr++) {
@@ -444,7 +441,7 @@ namespace TSnap {
                 }
                 CloseCnt1 /= 2;
                 OpenCnt1 = (Nbrs1.size()*(Nbrs1.size()-1))/2 - CloseCnt1;
-                NIdCOTriadV[node] = TUInt64Tr(node, CloseCnt1, OpenCnt1);
+                NIdCOTriadV[node] = TUInt64Tr(NId, CloseCnt1, OpenCnt1);
             }
         }
 
-- 
2.43.0


From d6b465b79e2e4d3b5d39339b7991b49cf68ce1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 141/158] fix: GetTriads counts self loops of undirected graphs
 as neighbours

---
 snap/snap-core/triad.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/triad.h b/snap/snap-core/triad.h
index 9a78c58..507ae27 100644
--- a/snap/snap-core/triad.h
+++ b/snap/snap-core/triad.h
@@ -356,6 +356,7 @@ namespace TSnap {
                     NbrV[NId].Reserve(NI.GetOutDeg());
                     NbrV[NId].Reduce(0);
                     for (int i = 0; i < NI.GetOutDeg(); i++) {
+                        if (NI.GetOutNId(i) == NId) { continue; } // exclude self edges
                         NbrV[NId].Add(NI.GetOutNId(i));
                     }
                 }
-- 
2.43.0


From f25ea18dd9590f1be56f24f328d25f6ff9b2e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 142/158] fix: GetBetweennessCentr_stl on a fraction of the
 nodes uses all nodes and may index past the last

---
 snap/snap-core/centr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/centr.h b/snap/snap-core/centr.h
index af75285..ac115c2 100644
--- a/snap/snap-core/centr.h
+++ b/snap/snap-core/centr.h
@@ -629,7 +629,7 @@ namespace TSnap {
 
                 std::random_device rd;
                 std::mt19937 gen(rd());
-                std::uniform_int_distribution< int64_t> dis(0, NIdV.size());
+                std::uniform_int_distribution< int64_t> dis(0, NIdV.size() - 1);
 
                 for( int64_t i = 0; i < nodesToConsider; ++i) {
                     int64_t idxRandomNode = dis(gen);
@@ -649,6 +649,7 @@ namespace TSnap {
                     }
                     j++;
                 }
+                NIdV.resize(j);
             }
             GetBetweennessCentr_stl<PGraph>(Graph, NIdV, NodeBtwH, IsDir, true, EdgeBtwH, false);
         }
-- 
2.43.0


From 3c3fb9f40d7a227c65a30a8e00ace59ab7cd7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 143/158] fix: weighted shortest paths use node ids as
 positions in the table of distances

---
 snap/snap-core/centr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 90f32b9..989edbd 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -687,8 +687,8 @@ namespace TSnap {
         int min_index = 0;
         for (int i = 0; i < Frontier.Len(); i++) {
             int NId = Frontier.GetVal(i);
-            if (NIdDistH[NId] < minimum) {
-                minimum = NIdDistH[NId];
+            if (NIdDistH.GetDat(NId) < minimum) {
+                minimum = NIdDistH.GetDat(NId);
                 min_index = i;
             }
         }
@@ -714,8 +714,8 @@ namespace TSnap {
                     NIdDistH.AddDat(DstNId, NIdDistH.GetDat(NId) + Attr[EId]);
                     frontier.Add(DstNId);
                 } else {
-                    if (NIdDistH[DstNId] > NIdDistH.GetDat(NId) + Attr[EId]) {
-                        NIdDistH[DstNId] = NIdDistH.GetDat(NId) + Attr[EId];
+                    if (NIdDistH.GetDat(DstNId) > NIdDistH.GetDat(NId) + Attr[EId]) {
+                        NIdDistH.GetDat(DstNId) = NIdDistH.GetDat(NId) + Attr[EId];
                     }
                 }
             }
-- 
2.43.0


From 0d3607bd75ea2d5650934b92c36cfb500e75c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:32 +0000
Subject: [PATCH 144/158] fix: weighted betweenness visits nodes in the order
 of a breadth-first search

---
 snap/snap-core/centr.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 989edbd..61d6360 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -754,7 +754,7 @@ namespace TSnap {
         if (DoEdgeCent) { EdgeBtwH.Clr(); }
         const int nodes = Graph->GetNodes();
         TIntS S(nodes);
-        TIntQ Q(nodes);
+        TIntV Q(nodes, 0); // frontier of Dijkstra's algorithm
         TIntIntVH P(nodes); // one vector for every node
         TIntFltH delta(nodes);
         TIntFltH sigma(nodes), d(nodes);
@@ -785,9 +785,9 @@ namespace TSnap {
             Q.Clr(false);
             sigma.AddDat(NI.GetId(), 1);
             d.AddDat(NI.GetId(), 0);
-            Q.Push(NI.GetId());
+            Q.Add(NI.GetId());
             while (! Q.Empty()) {
-                const int v = Q.Top();  Q.Pop();
+                const int v = findMinimum(Q, d);
                 const PNEANet::TObj::TNodeI NI2 = Graph->GetNI(v);
                 S.Push(v);
                 const double VDat = d.GetDat(v);
@@ -796,8 +796,11 @@ namespace TSnap {
                     const int eid = NI2.GetOutEId(e);
 
                     if (d.GetDat(w) < 0) { // find w for the first time
-                        Q.Push(w);
+                        Q.Add(w);
                         d.AddDat(w, VDat+Attr[eid]);
+                    } else if (d.GetDat(w) > VDat+Attr[eid]) { // shorter than the paths found before
+                        d.AddDat(w, VDat+Attr[eid]);
+                        sigma.AddDat(w, 0);  P.GetDat(w).Clr(false);
                     }
                     //shortest path to w via v ?
                     if (d.GetDat(w) == VDat+Attr[eid]) {
-- 
2.43.0


From f6b4ec56ca738746daee8c88069984ec1565b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:26 +0000
Subject: [PATCH 145/158] fix: GetMaxFlowIntPR keeps only the last of several
 parallel edges leaving the source

---
 snap/snap-core/flow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/flow.cpp b/snap/snap-core/flow.cpp
index 3c429b2..6ab12b2 100644
--- a/snap/snap-core/flow.cpp
+++ b/snap/snap-core/flow.cpp
@@ -398,7 +398,7 @@ int GetMaxFlowIntPR (PNEANet &Net, const int& SrcNId, const int& SnkNId) {
     if (OutNId != SrcNId) {
       int Capacity = PRM.Capacity(EId);
       PRM.Flow(EId) = Capacity;
-      PRM.Excess(OutNId) = Capacity;
+      PRM.Excess(OutNId) += Capacity;
     }
   }
   GlobalRelabel(Net, PRM, SrcNId, SnkNId);
-- 
2.43.0


From e13a41082ac891fdaddc0bb7592398fb4cbc88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:27 +0000
Subject: [PATCH 146/158] fix: GetWeightedPageRankMP never uses the ranks of
 the previous iteration

---
 snap/snap-core/centr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 61d6360..ffb74a6 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -468,7 +468,7 @@ namespace TSnap {
             TNEANet::TNodeI NI = NV[j];
             int Id = NI.GetId();
             OutWeights[Id] = Graph->GetWeightOutEdges(NI, Attr);
-            PRankV[Id] = 1/NNodes;
+            PRankV[Id] = 1.0/NNodes;
         }
 
         TFltV TmpV(NNodes);
@@ -487,7 +487,7 @@ namespace TSnap {
                     const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
 
                     if (OutWeight > 0) {
-                        Tmp += PRankH.GetDat(InNId) * Weight / OutWeight;
+                        Tmp += PRankV[InNId] * Weight / OutWeight;
                     }
                 }
                 TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-- 
2.43.0


From d60b2216ed22f85f237cee4aa7c14f253589166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:07 +0000
Subject: [PATCH 147/158] fix: the HTTP server reads whole requests, survives
 failing clients and can be stopped

---
 include/trident/utils/httpserver.h |  24 ++-
 src/trident/utils/httpserver.cpp   | 278 +++++++++++++++++++++--------
 2 files changed, 224 insertions(+), 78 deletions(-)

diff --git a/include/trident/utils/httpserver.h b/include/trident/utils/httpserver.h
index 2589001..2f2805f 100644
--- a/include/trident/utils/httpserver.h
+++ b/include/trident/utils/httpserver.h
@@ -3,6 +3,9 @@
 
 #include <trident/utils/parallel.h>
 
+#include <atomic>
+#include <condition_variable>
+#include <mutex>
 #include <string>
 #include <thread>
 #include <inttypes.h>
@@ -28,7 +31,7 @@ class HttpServer {
                 Socket(int connFd) : connFd(connFd), eof(false), toBeClosed(false) {
                 }
 
-                Socket() : connFd(-1), eof(true) {}
+                Socket() : connFd(-1), eof(true), toBeClosed(false) {}
 
                 int getFD() const {
                     return connFd;
@@ -48,10 +51,14 @@ class HttpServer {
         };
 
         uint32_t port;
-        bool launched;
+        std::atomic<bool> launched;
+        std::atomic<bool> stopping;
         uint64_t maxLifeConn;
 
         int listenFd;
+        int wakeFds[2]; //Used to interrupt the thread that waits for data
+        std::mutex mtxStop;
+        std::condition_variable cvStop;
         struct sockaddr_in svrAdd, clntAdd;
         ConcurrentQueue<Socket> queueReady;
         std::vector<std::thread> threads;
@@ -66,7 +73,16 @@ class HttpServer {
 
         void waitForData();
 
-        uint64_t getMessageBodyLength(std::string& request);
+        uint64_t getMessageBodyLength(const std::string& header);
+
+        bool waitReadable(int connFd);
+
+        bool readRequest(int connFd, std::string &pending,
+                std::string &request);
+
+        bool sendResponse(int connFd, const std::string &response);
+
+        void wakeUp();
 
     public:
         HttpServer(uint32_t port,
@@ -78,6 +94,8 @@ class HttpServer {
 
         void stop();
 
+        ~HttpServer();
+
         bool isLaunched() {
             return launched;
         }
diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index 25ebdab..e66e2ae 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -2,6 +2,7 @@
 
 #include <kognac/logs.h>
 
+#include <cerrno>
 #include <chrono>
 
 #if defined(_WIN32)
@@ -14,24 +15,105 @@ HttpServer::HttpServer(uint32_t port,
         std::function<void(const std::string&, std::string&)> handler,
         uint32_t nthreads,
         uint64_t maxLifeConn) : port(port),
-    maxLifeConn(maxLifeConn), handlerFunction(handler) {
+    launched(false), stopping(false),
+    maxLifeConn(maxLifeConn), listenFd(-1), handlerFunction(handler) {
+        if (pipe(wakeFds) != 0) {
+            LOG(ERRORL) << "Cannot create the pipe";
+            throw 10;
+        }
+        for(int i = 0; i < 2; ++i)
+            fcntl(wakeFds[i], F_SETFL, fcntl(wakeFds[i], F_GETFL, 0) | O_NONBLOCK);
         threads.resize(nthreads);
         for(uint32_t i = 0; i < nthreads; ++i) {
             threads[i] = std::thread(&HttpServer::processSocket, this);
         }
     }
 
-uint64_t HttpServer::getMessageBodyLength(std::string& request) {
-    size_t pos = request.find("Content-Length:");
-    if (pos == std::string::npos) {
-        // For GET requests, usually message body is not present. Hence Content-Length field can be omitted
-        // For POST requests, if message body is not present, then it Content-Length is 0
-        return 0;
+//The name of the field is case insensitive, and it can be followed by any
+//number of spaces. "header" is the header of the request, without the body
+uint64_t HttpServer::getMessageBodyLength(const std::string& header) {
+    const std::string name = "content-length:";
+    size_t pos = header.find("\r\n");
+    while (pos != std::string::npos) {
+        pos += 2;
+        size_t endpos = header.find("\r\n", pos);
+        std::string line = header.substr(pos, endpos == std::string::npos ?
+                endpos : endpos - pos);
+        if (line.size() >= name.size() &&
+                strncasecmp(line.c_str(), name.c_str(), name.size()) == 0) {
+            return std::stoull(line.substr(name.size()));
+        }
+        pos = endpos;
+    }
+    // For GET requests, usually message body is not present. Hence Content-Length field can be omitted
+    // For POST requests, if message body is not present, then it Content-Length is 0
+    return 0;
+}
+
+//Wait until there is something to read. It returns false if nothing arrived
+//for too long, or if the server must stop
+bool HttpServer::waitReadable(int connFd) {
+    uint64_t waited = 0;
+    while (!stopping && waited <= maxLifeConn) {
+        pollfd pf;
+        pf.fd = connFd;
+        pf.events = POLLIN;
+        pf.revents = 0;
+        int ret = poll(&pf, 1, 100);
+        if (ret > 0)
+            return true;
+        if (ret < 0 && errno != EINTR)
+            return false;
+        waited += 100;
+    }
+    return false;
+}
+
+//Read one full request (header and body). "pending" contains the bytes that
+//were already read from the socket, and on return the bytes that come after
+//the request. It returns false if the connection should be closed
+bool HttpServer::readRequest(int connFd, std::string &pending,
+        std::string &request) {
+    char buffer[1024];
+    size_t header = std::string::npos;
+    uint64_t bodyLength = 0;
+    while (true) {
+        if (header == std::string::npos) {
+            header = pending.find("\r\n\r\n");
+            if (header != std::string::npos) {
+                header += 4;
+                bodyLength = getMessageBodyLength(pending.substr(0, header));
+            }
+        }
+        if (header != std::string::npos &&
+                pending.size() - header >= bodyLength) {
+            request = pending.substr(0, header + bodyLength);
+            pending.erase(0, header + bodyLength);
+            return true;
+        }
+        if (!waitReadable(connFd))
+            return false;
+        auto len = read(connFd, buffer, sizeof(buffer));
+        if (len == -1 && (errno == EINTR || errno == EAGAIN))
+            continue;
+        if (len <= 0) //Client has closed the conversation, or error
+            return false;
+        pending.append(buffer, len);
+    }
+}
+
+bool HttpServer::sendResponse(int connFd, const std::string &response) {
+    size_t size = 0;
+    while (size < response.size()) {
+        auto len = send(connFd, response.data() + size,
+                response.size() - size, MSG_NOSIGNAL);
+        if (len == -1 && errno == EINTR)
+            continue;
+        if (len <= 0)
+            return false;
+        size += len;
     }
-    size_t endpos = request.find("\r\n", pos);
-    std::string bodyLen = request.substr(pos + 16, endpos - pos - 16);
-    uint64_t ret = std::stoul(bodyLen);
-    return ret;
+    return true;
 }
 
 void HttpServer::processSocket() {
@@ -43,51 +125,27 @@ void HttpServer::processSocket() {
         }
 
         int connFd = socket.getFD();
-        //Read the data and print it on screen
         try {
-            char buffer[1024];
-            std::string request = "";
-            auto len = read(connFd, buffer, 1024);
-            if (len == 0) { //Client has closed the conversation
-                socket.close();
-                queueWait.push(socket);
-            } else if (len == -1) {
-                //can happen. Put it back in the queue, unless there are errors
-                //TODO
-                queueWait.push(socket);
-            } else {
-                request += std::string(buffer, len);
-                int bodyLength = getMessageBodyLength(request);
-                int pos = request.find("\r\n\r\n");
-                int headerLength = 0;
-                if (pos == std::string::npos) {
-                    LOG(ERRORL) << "FATAL: End of header not found in the request";
-                }else {
-                    headerLength = pos;
-                }
-                if (bodyLength > 0) {
-                    int readBuffer = bodyLength - (1024 - headerLength);
-                    while (readBuffer > 0) {
-                        auto len = read(connFd, buffer, 1024);
-                        readBuffer -= len;
-                        request += std::string(buffer, len);
-                    }
-                }
+            std::string pending = "";
+            bool ok;
+            do {
+                std::string request = "";
                 std::string response = "";
-                handlerFunction(request, response);
-                uint64_t size = 0;
-                do {
-                    size += send(connFd, response.c_str() + size,
-                            response.size() - size, 0);
-                } while (size < response.size());
-                queueWait.push(socket);
-            }
-        } catch (...) {
-            if (connFd != -1) {
+                ok = readRequest(connFd, pending, request);
+                if (ok) {
+                    handlerFunction(request, response);
+                    ok = sendResponse(connFd, response);
+                }
+                //If the client has already sent (part of) another request,
+                //process it now
+            } while (ok && !pending.empty());
+            if (!ok)
                 socket.close();
-                queueWait.push(socket);
-            }
+        } catch (...) {
+            socket.close();
         }
+        queueWait.push(socket);
+        wakeUp();
     }
 }
 
@@ -95,7 +153,15 @@ void HttpServer::waitForData() {
     std::vector<pollfd> events;
     std::vector<uint64_t > idletime;
 
-    while (true) {
+    //The first element is used to interrupt the wait
+    pollfd pw;
+    pw.fd = wakeFds[0];
+    pw.events = POLLIN;
+    pw.revents = 0;
+    events.push_back(pw);
+    idletime.push_back(0);
+
+    while (!stopping) {
         while (!queueWait.isEmpty()) {
             //Process the sockets
             Socket s;
@@ -136,6 +202,7 @@ void HttpServer::waitForData() {
                         pollfd pf;
                         pf.fd = s.getFD();
                         pf.events = POLLIN | POLLERR | POLLHUP;
+                        pf.revents = 0;
                         events.push_back(pf);
                         idletime.push_back(time);
                     } else {
@@ -149,7 +216,12 @@ void HttpServer::waitForData() {
         int retval = poll(events.data(), events.size(), 1000); //Wait max 1sec
         if (retval > 0) {
             //Add to queueReady all sockets which have data
-            for(int i = 0; i < events.size(); ++i) {
+            if (events[0].revents != 0) {
+                char tmp[64];
+                while (read(wakeFds[0], tmp, sizeof(tmp)) > 0) {
+                }
+            }
+            for(int i = 1; i < events.size(); ++i) {
                 auto &el = events[i];
                 if (el.fd == -1)
                     continue;
@@ -165,14 +237,14 @@ void HttpServer::waitForData() {
                 }
             }
         } else if (retval == 0) {
-            if (!events.empty() && events.back().fd == -1) {
+            if (events.size() > 1 && events.back().fd == -1) {
                 events.pop_back();
                 idletime.pop_back();
             }
             //Remove connections that were idle for too long
             uint64_t time = chr::duration_cast<chr::milliseconds>(
                     chr::steady_clock::now().time_since_epoch()).count();
-            for(int i = 0; i < events.size(); ++i) {
+            for(int i = 1; i < events.size(); ++i) {
                 if (events[i].fd != -1) {
                     if ((idletime[i] + maxLifeConn) < time) {
                         //Remove it...
@@ -182,16 +254,29 @@ void HttpServer::waitForData() {
                     }
                 }
             }
-        } else {
+        } else if (errno != EINTR) {
             LOG(ERRORL) << "Pool failed";
         }
     }
+
+    //Close the connections that are still open
+    for(int i = 1; i < events.size(); ++i) {
+        if (events[i].fd != -1)
+            close(events[i].fd);
+    }
+}
+
+void HttpServer::wakeUp() {
+    char c = 0;
+    if (write(wakeFds[1], &c, 1) < 0) {
+        //The pipe is full, thus the thread is going to be woken up anyway
+    }
 }
 
 bool HttpServer::listn() {
     //Create the socket
-    listenFd = socket(PF_INET, SOCK_STREAM, IPPROTO_TCP);
-    if(listenFd < 0) {
+    int fd = socket(PF_INET, SOCK_STREAM, IPPROTO_TCP);
+    if(fd < 0) {
         return false;
     }
 
@@ -199,44 +284,87 @@ bool HttpServer::listn() {
     svrAdd.sin_family = AF_INET;
     svrAdd.sin_addr.s_addr = INADDR_ANY;
     svrAdd.sin_port = htons(port);
-    if(bind(listenFd, (struct sockaddr *)&svrAdd, sizeof(svrAdd)) < 0) {
+    if(bind(fd, (struct sockaddr *)&svrAdd, sizeof(svrAdd)) < 0 ||
+            listen(fd, 10) < 0) {
+        close(fd);
         return false;
     }
-    listen(listenFd, 10);
 
-    //Start the thread that process the incoming sockets
-    threadWait = std::thread(&HttpServer::waitForData, this);
-    launched = true;
-    while (true) {
+    {
+        std::unique_lock<std::mutex> lock(mtxStop);
+        if (stopping) {
+            close(fd);
+            return false;
+        }
+        listenFd = fd;
+        //Start the thread that process the incoming sockets
+        threadWait = std::thread(&HttpServer::waitForData, this);
+        launched = true;
+    }
+    while (!stopping) {
         //this is where client connects.
         socklen_t len = sizeof(clntAdd);
-        int connFd = accept(listenFd, (struct sockaddr *)&clntAdd, &len);
+        int connFd = accept(fd, (struct sockaddr *)&clntAdd, &len);
         if (connFd < 0) {
-            return false;
+            if (!stopping && (errno == EINTR || errno == ECONNABORTED))
+                continue;
+            break;
         }
-        //Make the socket non-blocking
-        //fcntl(connFd, F_SETFL, fcntl(connFd, F_GETFL, 0) | O_NONBLOCK);
-        queueReady.push(Socket(connFd));
+        //Wait until the client sends something
+        queueWait.push(Socket(connFd));
+        wakeUp();
+    }
+    {
+        std::unique_lock<std::mutex> lock(mtxStop);
+        listenFd = -1;
+        close(fd);
+        launched = false;
+        cvStop.notify_all();
     }
-    launched = false;
+    return false;
 }
 
 void HttpServer::start() {
-    launched = false;
     listn();
 }
 
 void HttpServer::stop() {
+    {
+        std::unique_lock<std::mutex> lock(mtxStop);
+        stopping = true;
+        //Wake up the thread that accepts the connections
+        if (listenFd != -1)
+            shutdown(listenFd, 2);
+        //Wait until the thread has stopped
+        while (launched)
+            cvStop.wait(lock);
+    }
     //Stop all processing threads
     for(int i = 0; i < threads.size(); ++i)
         queueReady.push(Socket());
     for(auto &t : threads) {
         t.join();
     }
-    close(listenFd);
-    while (launched) {
-        //TODO Wait until the thread has stopped
+    threads.clear();
+    if (threadWait.joinable()) {
+        wakeUp();
+        threadWait.join();
     }
+    //Close the connections that are still queued
+    for(auto q : {&queueReady, &queueWait}) {
+        while (!q->isEmpty()) {
+            Socket s;
+            q->pop(s);
+            if (!s.isEOF())
+                close(s.getFD());
+        }
+    }
+}
+
+HttpServer::~HttpServer() {
+    stop();
+    close(wakeFds[0]);
+    close(wakeFds[1]);
 }
 
 #endif
-- 
2.43.0


From 38c45f894bb2d88849914206310e6ddec7d3820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:38 +0000
Subject: [PATCH 148/158] fix: the HTTP client handles responses that arrive in
 several pieces

---
 src/trident/utils/httpclient.cpp | 263 ++++++++++++++-----------------
 1 file changed, 122 insertions(+), 141 deletions(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index b3f17d9..fbcfb6b 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -15,6 +15,7 @@
 #else
 
 bool HttpClient::connect() {
+    disconnect();
     //Get IP address of the host
     struct addrinfo hints, *res, *res0;
     memset(&hints, 0, sizeof(hints));
@@ -23,7 +24,6 @@ bool HttpClient::connect() {
     std::string sport = std::to_string(port);
     int error = getaddrinfo(address.c_str(), sport.c_str(), &hints, &res0);
     if (error) {
-        freeaddrinfo(res0);
         return false;
     }
 
@@ -64,28 +64,19 @@ HttpClient::URL HttpClient::parse(std::string url) {
 
     //Hostname
     advance(protI, protEnd.length());
-    std::string::const_iterator portI = find(protI, url.cend(), ':');
-    std::string::const_iterator pathI;
-    if (portI != url.end()) {
-        output.host.reserve(distance(protI, portI));
-        transform(protI, portI,
-                back_inserter(output.host),
-                ::tolower); // host is icase
+    //The authority terminates with the path or with the query
+    std::string::const_iterator pathI = protI;
+    while (pathI != url.cend() && *pathI != '/' && *pathI != '?')
+        ++pathI;
+    std::string::const_iterator portI = find(protI,
+            std::string::const_iterator(pathI), ':');
+    output.host.reserve(distance(protI, portI));
+    transform(protI, portI,
+            back_inserter(output.host),
+            ::tolower); // host is icase
+    if (portI != pathI && portI + 1 != pathI) {
         //Parse the port number
-        pathI  = find(protI, url.cend(), '/');
-        std::string sport;
-        sport.reserve(distance(portI, pathI));
-        transform(portI, pathI,
-                back_inserter(sport),
-                ::tolower);
-        output.port = std::stoi(sport);
-
-    } else {
-        pathI  = find(protI, url.cend(), '/');
-        output.host.reserve(distance(protI, pathI));
-        transform(protI, pathI,
-                back_inserter(output.host),
-                ::tolower); // host is icase
+        output.port = std::stoi(std::string(portI + 1, pathI));
     }
 
     //path
@@ -102,9 +93,10 @@ HttpClient::URL HttpClient::parse(std::string url) {
 //Inspired from https://stackoverflow.com/questions/2673207/c-c-url-decode-library#14530993
 std::string HttpClient::unescape(const std::string &s) {
     const char *src = s.c_str();
+    const char *endsrc = src + s.size();
     std::vector<char> dst;
     char a, b;
-    while (*src) {
+    while (src != endsrc) {
         if ((*src == '%') &&
                 ((a = src[1]) && (b = src[2])) &&
                 (isxdigit(a) && isxdigit(b))) {
@@ -158,135 +150,123 @@ std::string HttpClient::escape(const std::string &s) {
 bool HttpClient::getResponse(const std::string &request,
         std::string &headers,
         std::string &response) {
-    int ret = send(sockfd, request.c_str(), request.size(), 0);
-    if (ret < 0) {
-        return false;
-    } else {
-        char buffer[1024];
-        response = "";
-        headers = "";
+    response = "";
+    headers = "";
 
-        bool processedHeaders = false;
-        bool processBody = false;
+    size_t sent = 0;
+    while (sent < request.size()) {
+        auto ret = send(sockfd, request.data() + sent, request.size() - sent,
+                MSG_NOSIGNAL);
+        if (ret < 0) {
+            return false;
+        }
+        sent += ret;
+    }
 
-        //uint64_t totalSize = 0; //used if not chunked
-        bool isChunked = false;
-        size_t sizeChunk = 0;
-        size_t currentChunkSize = 0;
+    //"data" contains the bytes that were received and not yet processed
+    std::string data;
+    auto receive = [&]() -> bool {
+        char buffer[1024];
+        auto len = recv(sockfd, buffer, sizeof(buffer), 0);
+        if (len <= 0)
+            return false;
+        data.append(buffer, len);
+        return true;
+    };
 
-        //Pointers to the buffer
-        size_t sizebuffer = 0;
-        const char *remaining = buffer;
+    //Collect headers until '\r\n\r\n'
+    size_t idx;
+    while ((idx = data.find("\r\n\r\n")) == std::string::npos) {
+        if (!receive()) {
+            headers = data;
+            return false;
+        }
+    }
+    headers = data.substr(0, idx);
+    data.erase(0, idx + 4);
 
+    //Get the response type
+    if (!Utils::starts_with(headers, "HTTP/1") || headers.size() < 12) {
+        LOG(ERRORL) << "No HTTP header";
+        return false;
+    }
+    //Read the code. Should be 200
+    std::string code = headers.substr(9, 3);
+    if (code != "200") {
+        //not supported
+        LOG(ERRORL) << "No 200 code " << code;
+        return false;
+    }
+
+    //Determine the way to finish reading the body
+    std::string lheaders = headers + "\r\n";
+    std::transform(lheaders.begin(), lheaders.end(),
+            lheaders.begin(), ::tolower);
+    auto getField = [&](const std::string &name, std::string &value) -> bool {
+        auto start = lheaders.find("\r\n" + name + ":");
+        if (start == std::string::npos)
+            return false;
+        start += name.size() + 3;
+        value = lheaders.substr(start, lheaders.find("\r\n", start) - start);
+        return true;
+    };
+    std::string value;
+    if (getField("transfer-encoding", value) &&
+            value.find("chunked") != std::string::npos) {
         while (true) {
-            if (sizebuffer <= 0) {
-                sizebuffer = recv(sockfd , buffer, 1024, 0);
-                remaining = buffer;
-                if (sizebuffer == 0 || sizebuffer == -1) {
-                    break;
-                }
+            //Read the size of the next chunk
+            size_t end;
+            while ((end = data.find("\r\n")) == std::string::npos) {
+                if (!receive())
+                    return false;
             }
-
-            //Process the buffer
-            if (processBody) {
-                //I am reading content ...
-                while (sizebuffer > 0) {
-                    if (currentChunkSize < sizeChunk) {
-                        //Read until sizeChunk
-                        int remainingSize = std::min(
-                                (size_t)(sizeChunk - currentChunkSize),
-                                sizebuffer);
-                        response += std::string(remaining,
-                                remainingSize);
-                        currentChunkSize += remainingSize;
-                        remaining += remainingSize;
-                        sizebuffer -= remainingSize;
-                    } else if (currentChunkSize == sizeChunk) {
-                        //Must read the next chunk
-                        if (sizebuffer >= 1 && remaining[0] == '\r') {
-                            remaining++;
-                            sizebuffer--;
-                        }
-                        if (sizebuffer >= 1 && remaining[0] == '\n') {
-                            remaining++;
-                            sizebuffer--;
-                        }
-                        std::string rest = std::string(remaining, sizebuffer);
-                        auto end = rest.find("\r\n");
-                        if (end == std::string::npos) {
-                            LOG(ERRORL) << "Special case not handled. Must implement it ...";
-                            return false;
-                        }
-                        std::string sSizeChunk = rest.substr(0, end);
-                        std::stringstream ss; //convert the string to number
-                        ss << std::hex << sSizeChunk;
-                        ss >> sizeChunk;
-                        currentChunkSize = 0;
-                        remaining += end + 2;
-                        sizebuffer -= end + 2;
-                        if (sizeChunk == 0) {
-                            return true;
-                        }
-                    }
-                }
-
-                //If not chunked and read everthing then exit
-                if (!isChunked && currentChunkSize == sizeChunk) {
-                    return true;
-                }
-            } else if (!processedHeaders) {
-                //Collect headers until '\r\n\r\n'
-                std::string sbuffer = std::string(remaining, sizebuffer);
-                headers += sbuffer;
-                if (headers.find("\r\n\r\n") != std::string::npos) {
-                    auto idx = headers.find("\r\n\r\n");
-                    headers = headers.substr(0, idx);
-                    remaining += idx + 4;
-                    sizebuffer -= idx + 4;
-                    processedHeaders = true;
-                }
-                if (headers.size() > 13) {
-                    //Get the response type
-                    if (!Utils::starts_with(headers, "HTTP/1")) {
-                        LOG(ERRORL) << "No HTTP header";
-                        return false;
-                    } else {
-                        //Read the code. Should be 200
-                        std::string code = headers.substr(9, 3);
-                        if (code != "200") {
-                            //not supported
-                            LOG(ERRORL) << "No 200 code " << code;
-                            return false;
-                        }
-                    }
-                }
+            size_t sizeChunk = 0;
+            std::stringstream ss; //convert the string to number
+            ss << std::hex << data.substr(0, end);
+            if (!(ss >> sizeChunk))
+                return false;
+            data.erase(0, end + 2);
+            if (sizeChunk == 0)
+                break;
+            while (data.size() < sizeChunk + 2) {
+                if (!receive())
+                    return false;
             }
-            if (processedHeaders && !processBody) {
-                //Determine the way to finish reading the body
-                std::string lheaders = headers;
-                std::transform(lheaders.begin(), lheaders.end(),
-                        lheaders.begin(), ::tolower);
-                if (lheaders.find("content-length:") !=
-                        std::string::npos) {
-                    isChunked = false;
-                    //Get the size of the response
-                    auto idx = lheaders.find("content-length:");
-                    std::string line = lheaders.substr(idx + 16);
-                    auto end = line.find("\r\n");
-                    std::stringstream ss;
-                    ss << line.substr(0, end);
-                    ss >> sizeChunk;
-                    processBody = true;
-                } else if (lheaders.
-                        find("transfer-encoding: chunked") !=
-                        std::string::npos) {
-                    isChunked = true;
-                    processBody = true;
-                }
+            response.append(data, 0, sizeChunk);
+            data.erase(0, sizeChunk + 2);
+        }
+        //Skip the trailer, until an empty line
+        while (true) {
+            size_t end;
+            while ((end = data.find("\r\n")) == std::string::npos) {
+                if (!receive())
+                    return false;
+            }
+            data.erase(0, end + 2);
+            if (end == 0)
+                return true;
+        }
+    } else if (getField("content-length", value)) {
+        //Get the size of the response
+        size_t size = 0;
+        std::stringstream ss;
+        ss << value;
+        if (!(ss >> size))
+            return false;
+        while (data.size() < size) {
+            if (!receive()) {
+                response = data;
+                return false;
             }
         }
+        response = data.substr(0, size);
         return true;
     }
+    //The body terminates when the connection is closed
+    while (receive()) {
+    }
+    response = data;
+    return true;
 }
 
 bool HttpClient::get(const std::string &path,
@@ -347,6 +327,7 @@ bool HttpClient::post(const std::string &path,
 void HttpClient::disconnect() {
     if (sockfd != -1) {
         close(sockfd);
+        sockfd = -1;
     }
 }
 
-- 
2.43.0


From 209822ff36e0cb8c81afeb2218ec220e44b4f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:38 +0000
Subject: [PATCH 149/158] fix: JSON keeps empty lists, numbers and nested lists

---
 include/trident/utils/json.h |  6 +++++
 src/trident/utils/json.cpp   | 46 +++++++++++++++---------------------
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/include/trident/utils/json.h b/include/trident/utils/json.h
index 577eaf0..546723d 100644
--- a/include/trident/utils/json.h
+++ b/include/trident/utils/json.h
@@ -19,8 +19,14 @@ class JSON {
 
         std::vector<std::string> listvalues;
         std::vector<JSON> listchildren;
+        bool list = false; //true if it is a list, possibly empty
 
     public:
+        //Make sure that it is written as a list also if it is empty
+        void setList() {
+            list = true;
+        }
+
         void put(std::string name, std::string value) {
             if (name=="")
                 throw 10;
diff --git a/src/trident/utils/json.cpp b/src/trident/utils/json.cpp
index f2a3fa5..7470f61 100644
--- a/src/trident/utils/json.cpp
+++ b/src/trident/utils/json.cpp
@@ -45,6 +45,12 @@ void JSON::write(std::ostream &out, JSON &value) {
             firstel = false;
         }
         out << "]";
+    } else if (value.list) {
+        if (!value.values.empty() ||
+                !value.children.empty()) {
+            throw 10;
+        }
+        out << "[]";
     } else {
         out << "{";
         bool first = true;
@@ -67,17 +73,9 @@ void JSON::write(std::ostream &out, JSON &value) {
 
 std::string parse_simpletype(const rapidjson::Value &value) {
     std::string out = "";
-    if (value.IsNumber()) {
-        if (value.IsInt()) {
-            out = std::to_string(value.GetInt());
-        } else if (value.IsDouble()) {
-            out = std::to_string(value.GetDouble());
-        } else {
-            LOG(ERRORL) << "Type not recognized";
-            throw 10;
-        }
-    } else if (value.IsString()) {
-        out = value.GetString();
+    //The numbers are parsed as strings, to keep them as they are written
+    if (value.IsString()) {
+        out = std::string(value.GetString(), value.GetStringLength());
     } else if (value.IsBool()) {
         out = std::to_string(value.GetBool());
     } else if (value.IsNull()) {
@@ -98,27 +96,16 @@ void parse_value(const rapidjson::Value &src, JSON &dest) {
     if (src.IsObject()) {
         for (rapidjson::Value::ConstMemberIterator itr = src.MemberBegin();
                 itr != src.MemberEnd(); ++itr) {
-            std::string name = itr->name.GetString();
+            std::string name(itr->name.GetString(),
+                    itr->name.GetStringLength());
             //Could be JSON or string-like element
             if (itr->value.IsObject()) {
                 JSON child;
                 parse_value(itr->value, child);
                 dest.add_child(name, child);
             } else if (itr->value.IsArray()) {
-                bool isArrayOfObjects = false;
-                std::vector<JSON> c1;
-                std::vector<std::string> c2;
-                parse_array(itr->value, c1, c2, isArrayOfObjects);
                 JSON cvalue;
-                if (isArrayOfObjects) {
-                    for(auto &c : c1) {
-                        cvalue.push_back(c);
-                    }
-                } else {
-                    for(auto &c : c2) {
-                        cvalue.push_back(c);
-                    }
-                }
+                parse_value(itr->value, cvalue);
                 dest.add_child(name, cvalue);
             } else {
                 dest.put(name, parse_simpletype(itr->value));
@@ -129,6 +116,7 @@ void parse_value(const rapidjson::Value &src, JSON &dest) {
         std::vector<JSON> c1;
         std::vector<std::string> c2;
         parse_array(src, c1, c2, isArrayOfObjects);
+        dest.setList();
         if (isArrayOfObjects) {
             for(auto &c : c1) {
                 dest.push_back(c);
@@ -149,7 +137,7 @@ void parse_array(const rapidjson::Value &value,
         std::vector<std::string> &out2,
         bool &jsonArray) {
     for (auto &v : value.GetArray()) {
-        if (v.IsObject()) {
+        if (v.IsObject() || v.IsArray()) {
             JSON child;
             parse_value(v, child);
             out1.push_back(child);
@@ -159,13 +147,17 @@ void parse_array(const rapidjson::Value &value,
             jsonArray = false;
         }
     }
+    if (!out1.empty() && !out2.empty()) {
+        LOG(ERRORL) << "Arrays with both objects and values are not supported";
+        throw 10;
+    }
 }
 
 
 void JSON::read(std::string &in, JSON &value) {
     rapidjson::Document jsonObj;
     const char *t = in.c_str();
-    if (jsonObj.Parse<0>(t).HasParseError()) {
+    if (jsonObj.Parse<rapidjson::kParseNumbersAsStringsFlag>(t, in.size()).HasParseError()) {
         LOG(ERRORL) << "Errors in parsing the JSON string " << in;
         throw 10;
     }
-- 
2.43.0


From c44c25a482e790189f36744c790b48632d69508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:04 +0000
Subject: [PATCH 150/158] fix: the web server parses forms by parameter,
 serializes the queries and keeps inside its directory

---
 include/trident/server/server.h | 10 ++--
 src/trident/server/server.cpp   | 95 ++++++++++++++++++++++-----------
 2 files changed, 71 insertions(+), 34 deletions(-)

diff --git a/include/trident/server/server.h b/include/trident/server/server.h
index 5596b94..5156af4 100644
--- a/include/trident/server/server.h
+++ b/include/trident/server/server.h
@@ -12,7 +12,9 @@
 #include <cts/parser/SPARQLParser.hpp>
 #include <rts/runtime/QueryDict.hpp>
 
+#include <atomic>
 #include <map>
+#include <mutex>
 
 using namespace std;
 
@@ -26,7 +28,9 @@ class TridentServer {
         std::thread t;
         string cmdArgs;
 
-        bool isActive;
+        std::atomic<int> isActive; //Number of requests being processed
+        std::mutex mtxCache;
+        std::mutex mtxLayer;
         int webport;
         std::shared_ptr<HttpServer> server;
         int nthreads;
@@ -56,12 +60,12 @@ class TridentServer {
 
         //OK
         void setActive() {
-            isActive = true;
+            isActive++;
         }
 
         //OK
         void setInactive() {
-            isActive = false;
+            isActive--;
         }
 
         //OK
diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 13d58b6..8df9fd9 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -24,7 +24,7 @@
 TridentServer::TridentServer(KB &kb, string htmlfiles, int nthreads) :
     kb(kb),
     dirhtmlfiles(htmlfiles),
-    isActive(false), nthreads(nthreads) {
+    isActive(0), nthreads(nthreads) {
 
     }
 
@@ -51,55 +51,79 @@ void TridentServer::stop() {
     LOG(INFOL) << "Done";
 }
 
-string _getValueParam(string req, string param) {
-    int pos = req.find(param);
-    if (pos == string::npos) {
-        return "";
-    } else {
-        int postart = req.find("=", pos);
-        int posend = req.find("&", pos);
-        if (posend == string::npos) {
-            return req.substr(postart + 1);
-        } else {
-            return req.substr(postart + 1, posend - postart - 1);
+//Get the value of a parameter of the form. The pairs are separated by '&'
+string _getValueParam(const string &form, const string &param) {
+    size_t start = 0;
+    while (start <= form.size()) {
+        size_t end = form.find("&", start);
+        if (end == string::npos)
+            end = form.size();
+        size_t eq = form.find("=", start);
+        if (eq < end && form.compare(start, eq - start, param) == 0) {
+            return form.substr(eq + 1, end - eq - 1);
         }
+        start = end + 1;
     }
+    return "";
+}
+
+//Get the body of the request
+string _getBody(const string &req) {
+    size_t pos = req.find("\r\n\r\n");
+    if (pos == string::npos)
+        return "";
+    return req.substr(pos + 4);
+}
+
+//Get the path, that is the second element of the first line
+string _getPath(const string &req) {
+    size_t start = req.find(" ");
+    size_t end = req.find("\r\n");
+    if (start == string::npos || end == string::npos || start > end)
+        return "";
+    size_t pos = req.find(" ", start + 1);
+    if (pos == string::npos || pos > end)
+        pos = end;
+    return req.substr(start + 1, pos - start - 1);
 }
 
 string TridentServer::lookup(string sId, TridentLayer &db) {
     const char *start;
     const char *end;
-    unsigned id = stoi(sId);
+    uint64_t id = stoull(sId);
     ::Type::ID type;
     unsigned st;
-    db.lookupById(id, start, end, type, st);
+    if (!db.lookupById(id, start, end, type, st))
+        return "";
     return string(start, end - start);
 }
 
 void TridentServer::processRequest(std::string req, std::string &res) {
-    setActive();
+    //The request is active until we leave this method
+    struct Active {
+        TridentServer &s;
+        Active(TridentServer &s) : s(s) {
+            s.setActive();
+        }
+        ~Active() {
+            s.setInactive();
+        }
+    } active(*this);
     //Get the page
     string page;
     string message = "";
     bool isjson = false;
 
     if (Utils::starts_with(req, "POST")) {
-        int pos = req.find("HTTP");
-        string path = req.substr(5, pos - 6);
+        string path = _getPath(req);
         if (path == "/sparql") {
             //Get the SPARQL query
-            string form = req.substr(req.find("application/x-www-form-urlencoded"));
+            string form = _getBody(req);
             string printresults = _getValueParam(form, "print");
             string sparqlquery = _getValueParam(form, "query");
             sparqlquery = HttpClient::unescape(sparqlquery);
-            std::regex e1("\\+");
-            std::string replacedString;
-            std::regex_replace(std::back_inserter(replacedString),
-                    sparqlquery.begin(), sparqlquery.end(),
-                    e1, "$1 ");
-            sparqlquery = replacedString;
             std::regex e2("\\r\\n");
-            replacedString = "";
+            std::string replacedString;
             std::regex_replace(std::back_inserter(replacedString),
                     sparqlquery.begin(), sparqlquery.end(), e2, "$1\n");
             sparqlquery = replacedString;
@@ -110,6 +134,10 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             JSON bindings;
             JSON stats;
             bool jsonoutput = printresults != string("false");
+            vars.setList();
+            bindings.setList();
+            //The layer cannot be used by more than one thread
+            std::unique_lock<std::mutex> lock(mtxLayer);
             SPARQLUtils::execSPARQLQuery(sparqlquery,
                     false,
                     kb.getNTerms(),
@@ -119,6 +147,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
                     &vars,
                     &bindings,
                     &stats);
+            lock.unlock();
             JSON head;
             head.add_child("vars", vars);
             pt.add_child("head", head);
@@ -132,10 +161,12 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             page = buf.str();
             isjson = true;
         } else if (path == "/lookup") {
-            string form = req.substr(req.find("application/x-www-form-urlencoded"));
+            string form = _getBody(req);
             string id = _getValueParam(form, "id");
             //Lookup the value
+            std::unique_lock<std::mutex> lock(mtxLayer);
             string value = lookup(id, kb);
+            lock.unlock();
             JSON pt;
             pt.put("value", value);
             std::ostringstream buf;
@@ -147,8 +178,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         }
     } else if (Utils::starts_with(req, "GET")) {
         //Get the page
-        int pos = req.find("HTTP");
-        string path = req.substr(4, pos - 5);
+        string path = _getPath(req);
         if (path.size() > 1) {
             page = getPage(path);
         }
@@ -159,7 +189,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         page = getDefaultPage();
     }
     if (isjson) {
-        res = "HTTP/1.1 200 OK\r\nContent-Type: application/json\nContent-Length: ";
+        res = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: ";
         res += to_string(page.size()) + "\r\n\r\n" + page;
     } else {
         res = "HTTP/1.1 200 OK\r\nContent-Length: ";
@@ -172,8 +202,6 @@ void TridentServer::processRequest(std::string req, std::string &res) {
       shared_from_this(),
       boost::asio::placeholders::error,
       boost::asio::placeholders::bytes_transferred));*/
-
-    setInactive();
 }
 
 /*void TridentServer::Server::writeHandler(const boost::system::error_code &err,
@@ -187,6 +215,11 @@ string TridentServer::getDefaultPage() {
 }
 
 string TridentServer::getPage(string f) {
+    //Do not return files outside the directory
+    if ((f + "/").find("/../") != string::npos) {
+        return "Error! I cannot find the page to show.";
+    }
+    std::unique_lock<std::mutex> lock(mtxCache);
     if (cachehtml.count(f)) {
         return cachehtml.find(f)->second;
     }
-- 
2.43.0


From db48d027b7c73490b8e2527f5b685051762d9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:41 +0000
Subject: [PATCH 151/158] fix: literals with a language or a datatype can be
 constants of a query

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index eb9be73..1fa9ece 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -81,6 +81,11 @@ static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLPars
                     return true;
                 } else return false;
             } else if (element.subType == SPARQLParser::Element::CustomLanguage) {
+                //The dictionary contains the literal with its language
+                if (lookup(dict, diffIndex, "\"" + element.value + "\"@" + element.subTypeValue, Type::Literal, 0, id)) {
+                    constant = true;
+                    return true;
+                }
                 uint64_t languageId;
                 if (!lookup(dict, diffIndex, element.subTypeValue, Type::Literal, 0, languageId))
                     return false;
@@ -89,6 +94,11 @@ static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLPars
                     return true;
                 } else return false;
             } else if (element.subType == SPARQLParser::Element::CustomType) {
+                //The dictionary contains the literal with its type
+                if (lookup(dict, diffIndex, "\"" + element.value + "\"^^<" + element.subTypeValue + ">", Type::Literal, 0, id)) {
+                    constant = true;
+                    return true;
+                }
                 Type::ID type;
                 uint64_t subType = 0;
                 if (element.subTypeValue == "http://www.w3.org/2001/XMLSchema#string") {
-- 
2.43.0


From 0b8eefb8d3a807ea4faba0d1c4cd7615f8779d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:41 +0000
Subject: [PATCH 152/158] fix: a literal that looks like an IRI does not match
 the IRI

---
 src/layers/TridentLayer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 32d02fe..22c6dec 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -44,7 +44,9 @@ bool TridentLayer::lookup(const std::string& text,
         string uri = "<" + text + ">";
         resp = dict->getNumber(uri.c_str(), uri.size(), &longid);
     } else {
-        resp = dict->getNumber(text.c_str(), text.size(), &longid);
+        //Only the text that is already quoted can be used as it is
+        resp = !text.empty() && text[0] == '"' &&
+            dict->getNumber(text.c_str(), text.size(), &longid);
         if (! resp) {
             string tp = "";
             switch(type) {
-- 
2.43.0


From 7402893ef2a16966cae8895bb3790c764f21dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:17 +0000
Subject: [PATCH 153/158] fix: literals with escaped characters can be
 constants of a query

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index 1fa9ece..27f05bd 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -66,6 +66,23 @@ static bool lookup(DBLayer& dict, DifferentialIndex* diffIndex, const std::strin
     return false;
 }
 //---------------------------------------------------------------------------
+static std::string quoteLiteral(const std::string& text)
+    // Write a literal as it is stored in the dictionary
+{
+    std::string result = "\"";
+    for (char c : text) {
+        switch (c) {
+            case '"': result += "\\\""; break;
+            case '\\': result += "\\\\"; break;
+            case '\n': result += "\\n"; break;
+            case '\r': result += "\\r"; break;
+            case '\t': result += "\\t"; break;
+            default: result += c;
+        }
+    }
+    return result + "\"";
+}
+//---------------------------------------------------------------------------
 static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLParser::Element& element, uint64_t& id, bool& constant)
     // Encode an element for the query graph
 {
@@ -76,13 +93,14 @@ static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLPars
             return true;
         case SPARQLParser::Element::Literal:
             if (element.subType == SPARQLParser::Element::None) {
-                if (lookup(dict, diffIndex, element.value, Type::Literal, 0, id)) {
+                if (lookup(dict, diffIndex, quoteLiteral(element.value), Type::Literal, 0, id) ||
+                        lookup(dict, diffIndex, element.value, Type::Literal, 0, id)) {
                     constant = true;
                     return true;
                 } else return false;
             } else if (element.subType == SPARQLParser::Element::CustomLanguage) {
                 //The dictionary contains the literal with its language
-                if (lookup(dict, diffIndex, "\"" + element.value + "\"@" + element.subTypeValue, Type::Literal, 0, id)) {
+                if (lookup(dict, diffIndex, quoteLiteral(element.value) + "@" + element.subTypeValue, Type::Literal, 0, id)) {
                     constant = true;
                     return true;
                 }
@@ -95,7 +113,7 @@ static bool encode(DBLayer& dict, DifferentialIndex* diffIndex, const SPARQLPars
                 } else return false;
             } else if (element.subType == SPARQLParser::Element::CustomType) {
                 //The dictionary contains the literal with its type
-                if (lookup(dict, diffIndex, "\"" + element.value + "\"^^<" + element.subTypeValue + ">", Type::Literal, 0, id)) {
+                if (lookup(dict, diffIndex, quoteLiteral(element.value) + "^^<" + element.subTypeValue + ">", Type::Literal, 0, id)) {
                     constant = true;
                     return true;
                 }
-- 
2.43.0


From 0dbdc162eace796ff479d0bd8e2e2c1563d8f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:56 +0000
Subject: [PATCH 154/158] fix: the parser does not unescape a literal that the
 lexer has unescaped

---
 rdf3x/src/cts/SPARQLParser.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index cb03f0a..db90dfd 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -405,18 +405,6 @@ void SPARQLParser::parseRDFLiteral(std::string& value, Element::SubType& subType
         throw ParserException("literal expected");
     subType = Element::None;
     value = lexer.getLiteralValue();
-    if (value.find('\\') != string::npos) {
-        string v;
-        v.swap(value);
-        for (string::const_iterator iter = v.begin(), ilimit = v.end(); iter != ilimit; ++iter) {
-            char c = (*iter);
-            if (c == '\\') {
-                if ((++iter) == ilimit) break;
-                c = *iter;
-            }
-            value += c;
-        }
-    }
 
     SPARQLLexer::Token token = lexer.getNext();
     if (token == SPARQLLexer::At) {
-- 
2.43.0


From 19f4aab4b08513ffbf73f85c21f172a0792ff245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:46 +0000
Subject: [PATCH 155/158] fix: the lexer interprets the escapes of control
 characters in literals

---
 rdf3x/src/cts/SPARQLLexer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rdf3x/src/cts/SPARQLLexer.cpp b/rdf3x/src/cts/SPARQLLexer.cpp
index 8f4f71a..42679dc 100644
--- a/rdf3x/src/cts/SPARQLLexer.cpp
+++ b/rdf3x/src/cts/SPARQLLexer.cpp
@@ -314,6 +314,13 @@ std::string SPARQLLexer::getLiteralValue() const
         if (c == '\\') {
             if ((++iter) == limit) break;
             c = *iter;
+            switch (c) {
+                case 't': c = '\t'; break;
+                case 'n': c = '\n'; break;
+                case 'r': c = '\r'; break;
+                case 'b': c = '\b'; break;
+                case 'f': c = '\f'; break;
+            }
         }
         result += c;
     }
-- 
2.43.0


From 71236343ea21bc1be64d10f15f1820c26fdf8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:36 +0000
Subject: [PATCH 156/158] fix: LoadEdgeListStr splits at runs of blanks and
 skips incomplete lines

---
 snap/snap-core/gio.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/gio.h b/snap/snap-core/gio.h
index 7fc7eca..fc14063 100644
--- a/snap/snap-core/gio.h
+++ b/snap/snap-core/gio.h
@@ -103,10 +103,11 @@ PGraph LoadEdgeList(const TStr& InFNm, const int& SrcColId, const int& DstColId,
 /// Loads the format saved by TSnap::SaveEdgeList(), where node IDs are strings ##LoadEdgeListStr
 template <class PGraph>
 PGraph LoadEdgeListStr(const TStr& InFNm, const int& SrcColId, const int& DstColId) {
-  TSsParser Ss(InFNm, ssfWhiteSep);
+  TSsParser Ss(InFNm, ssfWhiteSep, true, true, true);
   PGraph Graph = PGraph::TObj::New();
   TStrHash<TInt> StrToNIdH(Mega(1), true); // hash-table mapping strings to integer node ids
   while (Ss.Next()) {
+    if (SrcColId >= Ss.Len() || DstColId >= Ss.Len()) { continue; }
     const int SrcNId = StrToNIdH.AddKey(Ss[SrcColId]);
     const int DstNId = StrToNIdH.AddKey(Ss[DstColId]);
     if (! Graph->IsNode(SrcNId)) { Graph->AddNode(SrcNId); }
@@ -120,9 +121,10 @@ PGraph LoadEdgeListStr(const TStr& InFNm, const int& SrcColId, const int& DstCol
 /// Loads the format saved by TSnap::SaveEdgeList(), where node IDs are strings and mapping of strings to node ids are stored ##LoadEdgeListStr_StrToNIdH
 template <class PGraph>
 PGraph LoadEdgeListStr(const TStr& InFNm, const int& SrcColId, const int& DstColId, TStrHash<TInt>& StrToNIdH) {
-  TSsParser Ss(InFNm, ssfWhiteSep);
+  TSsParser Ss(InFNm, ssfWhiteSep, true, true, true);
   PGraph Graph = PGraph::TObj::New();
   while (Ss.Next()) {
+    if (SrcColId >= Ss.Len() || DstColId >= Ss.Len()) { continue; }
     const int SrcNId = StrToNIdH.AddKey(Ss[SrcColId]);
     const int DstNId = StrToNIdH.AddKey(Ss[DstColId]);
     if (! Graph->IsNode(SrcNId)) { Graph->AddNode(SrcNId); }
-- 
2.43.0


From 8988f7614b0cc0d6bad3b839ba7ec8449ee18ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:04 +0000
Subject: [PATCH 157/158] fix: TSsParser::GetInt rejects numbers that do not
 fit into an int instead of overflowing

---
 snap/glib-core/ss.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snap/glib-core/ss.cpp b/snap/glib-core/ss.cpp
index 695151e..0324574 100644
--- a/snap/glib-core/ss.cpp
+++ b/snap/glib-core/ss.cpp
@@ -447,7 +447,7 @@ void TSsParser::ToLc() {
 bool TSsParser::GetInt(const int& FldN, int& Val) const {
   // parsing format {ws} [+/-] +{ddd}
   if (FldN >= Len()) { return false; }
-  int _Val = -1;
+  int64 _Val = -1;
   bool Minus=false;
   const char *c = GetFld(FldN);
   while (TCh::IsWs(*c)) { c++; }
@@ -456,11 +456,12 @@ bool TSsParser::GetInt(const int& FldN, int& Val) const {
   _Val = TCh::GetNum(*c);  c++;
   while (TCh::IsNum(*c)){ 
     _Val = 10 * _Val + TCh::GetNum(*c); 
+    if (_Val > int64(TInt::Mx)+1) { return false; }
     c++; 
   }
   if (Minus) { _Val = -_Val; }
-  if (*c != 0) { return false; }
-  Val = _Val;
+  if (*c != 0 || _Val > TInt::Mx) { return false; }
+  Val = int(_Val);
   return true;
 }
 
-- 
2.43.0


From dc29a450f77cdbfeb248d91c668479d68717562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:18:54 +0000
Subject: [PATCH 158/158] fix: a StringBuffer does not decompress a block
 beyond the end of its buffer

---
 src/trident/tree/stringbuffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index b7ae29e..a2712eb 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -380,7 +380,9 @@ void StringBuffer::uncompressBlock(int b) {
     char *uncompressedBuffer = factory.get();
     int sizeUncompressed = SB_BLOCK_SIZE;
     if (isLastBlock) {
-        sizeUncompressed = uncompressedSize - (int64_t) b * SB_BLOCK_SIZE;
+        //While writing, the blocks after this one may not be compressed yet
+        sizeUncompressed = std::min((int64_t) SB_BLOCK_SIZE,
+                                    uncompressedSize - (int64_t) b * SB_BLOCK_SIZE);
     }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
                             uncompressedBuffer,
-- 
2.43.0

