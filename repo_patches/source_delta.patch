From 21505c46dd3fec61b55cccc2274b340f63cded84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 01/96] fix: ART-OLC range lookup crashed or lost keys when a
 bound ended at a lazily expanded leaf, a missing child or inside a node
 prefix

---
 ARTOLC/Tree.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++++----
 ARTOLC/Tree.h   |  4 +++-
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..f958ed8 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -87,6 +87,12 @@ namespace ART_OLC {
         }
     }
 
+    // lexicographic order of whole keys; range bounds that end at a lazily expanded leaf need it
+    static bool keyLess(const Key &a, const Key &b) {
+        int cmp = memcmp(&a[0], &b[0], std::min(a.getKeyLen(), b.getKeyLen()));
+        return cmp != 0 ? cmp < 0 : a.getKeyLen() < b.getKeyLen();
+    }
+
     bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID result[],
                                 std::size_t resultSize, std::size_t &resultsFound, ThreadInfo &threadEpocheInfo) const {
         for (uint32_t i = 0; i < std::min(start.getKeyLen(), end.getKeyLen()); ++i) {
@@ -120,10 +126,21 @@ namespace ART_OLC {
                 }
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &start, &findStart, &toContinue, this](
+        // copy leaf if start <= key of leaf, respectively key of leaf < end
+        auto copyFrom = [&copy, &start, this](const N *leaf) {
+            Key key;
+            loadKey(N::getLeaf(leaf), key);
+            if (!keyLess(key, start)) copy(leaf);
+        };
+        auto copyBefore = [&copy, &end, this](const N *leaf) {
+            Key key;
+            loadKey(N::getLeaf(leaf), key);
+            if (keyLess(key, end)) copy(leaf);
+        };
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &copyFrom, &start, &findStart, &toContinue, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
-                copy(node);
+                copyFrom(node);
                 return;
             }
             uint64_t v;
@@ -154,7 +171,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
-                        copy(node);
+                        copyFrom(node);
                         return;
                     }
                     goto readAgain;
@@ -190,9 +207,10 @@ namespace ART_OLC {
                     break;
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &end, &toContinue, &findEnd, this](
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &copyBefore, &end, &toContinue, &findEnd, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
+                copyBefore(node);
                 return;
             }
             uint64_t v;
@@ -221,6 +239,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
+                        copyBefore(node);
                         return;
                     }
                     goto readAgain;
@@ -269,6 +288,7 @@ namespace ART_OLC {
         N *node = nullptr;
         N *nextNode = root;
         N *parentNode;
+        uint8_t nodeKey = 0;
         uint64_t v = 0;
         uint64_t vp;
 
@@ -277,6 +297,7 @@ namespace ART_OLC {
             vp = v;
             node = nextNode;
             PCEqualsResults prefixResult;
+            const uint32_t nodeLevel = level;
             v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
             prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
@@ -296,6 +317,14 @@ namespace ART_OLC {
                     copy(node);
                     break;
                 }
+                case PCEqualsResults::StartMatch: {
+                    findStart(node, nodeKey, nodeLevel, parentNode, vp);
+                    break;
+                }
+                case PCEqualsResults::EndMatch: {
+                    findEnd(node, nodeKey, nodeLevel, parentNode, vp);
+                    break;
+                }
                 case PCEqualsResults::BothMatch: {
                     uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
                     uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -321,6 +350,16 @@ namespace ART_OLC {
                         nextNode = N::getChild(startLevel, node);
                         node->readUnlockOrRestart(v, needRestart);
                         if (needRestart) goto restart;
+                        if (nextNode == nullptr) {
+                            return false;
+                        }
+                        if (N::isLeaf(nextNode)) {
+                            Key key;
+                            loadKey(N::getLeaf(nextNode), key);
+                            if (!keyLess(key, start) && keyLess(key, end)) copy(nextNode);
+                            break;
+                        }
+                        nodeKey = startLevel;
                         level++;
                         continue;
                     }
@@ -649,6 +688,9 @@ namespace ART_OLC {
                     return PCEqualsResults::Contained;
                 } else if (curKey < startLevel || curKey > endLevel) {
                     return PCEqualsResults::NoMatch;
+                } else if (startLevel != endLevel) {
+                    // only one of the bounds runs through this node
+                    return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
                 }
                 ++level;
             }
diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index c104314..0a64904 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -43,7 +43,9 @@ namespace ART_OLC {
         enum class PCEqualsResults : uint8_t {
             BothMatch,
             Contained,
-            NoMatch
+            NoMatch,
+            StartMatch,
+            EndMatch
         };
         static CheckPrefixResult checkPrefix(N* n, const Key &k, uint32_t &level);
 
-- 
2.43.0


From 68eb430f9b0caa32d09d6ce8731e13e213dde4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 02/96] fix: OptiQL ART range lookups crashed, lost keys or
 returned keys below the start at leaves, missing children and node prefixes

---
 OptiQL/Tree.cpp | 75 +++++++++++++++++++++++++++++++++++++++++++------
 OptiQL/Tree.h   |  2 +-
 2 files changed, 68 insertions(+), 9 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..565197f 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -75,6 +75,12 @@ restart:
   }
 }
 
+// lexicographic order of whole keys; range bounds that end at a lazily expanded leaf need it
+static bool keyLess(const Key &a, const Key &b) {
+  int cmp = memcmp(&a[0], &b[0], std::min(a.getKeyLen(), b.getKeyLen()));
+  return cmp != 0 ? cmp < 0 : a.getKeyLen() < b.getKeyLen();
+}
+
 bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID result[],
                        std::size_t resultSize, std::size_t &resultsFound) const {
   for (uint32_t i = 0; i < std::min(start.getKeyLen(), end.getKeyLen()); ++i) {
@@ -109,11 +115,17 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
       }
     }
   };
+  // copy leaf if start <= key of leaf
+  auto copyFrom = [&copy, &start, this](const N *leaf) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    if (!keyLess(key, start)) copy(leaf);
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
+      [&copy, &copyFrom, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
                                                      const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
+          copyFrom(node);
           return;
         }
         uint64_t v;
@@ -144,7 +156,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              copyFrom(node);
               return;
             }
             goto readAgain;
@@ -180,10 +192,17 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
             break;
         }
       };
+  // copy leaf if key of leaf < end
+  auto copyBefore = [&copy, &end, this](const N *leaf) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    if (keyLess(key, end)) copy(leaf);
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
+      [&copy, &copyBefore, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
                                                  const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
+          copyBefore(node);
           return;
         }
         uint64_t v;
@@ -213,6 +232,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
+              copyBefore(node);
               return;
             }
             goto readAgain;
@@ -257,6 +277,7 @@ restart:
   N *node = nullptr;
   N *nextNode = root;
   N *parentNode;
+  uint8_t nodeKey = 0;
   uint64_t v = 0;
   uint64_t vp;
 
@@ -265,6 +286,7 @@ restart:
     vp = v;
     node = nextNode;
     PCEqualsResults prefixResult;
+    const uint32_t nodeLevel = level;
     v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
     prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
@@ -284,6 +306,14 @@ restart:
         copy(node);
         break;
       }
+      case PCEqualsResults::StartMatch: {
+        findStart(node, nodeKey, nodeLevel, parentNode, vp);
+        break;
+      }
+      case PCEqualsResults::EndMatch: {
+        findEnd(node, nodeKey, nodeLevel, parentNode, vp);
+        break;
+      }
       case PCEqualsResults::BothMatch: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -309,6 +339,16 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            return false;
+          }
+          if (N::isLeaf(nextNode)) {
+            Key key;
+            loadKey(N::getLeaf(nextNode), key);
+            if (!keyLess(key, start) && keyLess(key, end)) copy(nextNode);
+            break;
+          }
+          nodeKey = startLevel;
           level++;
           continue;
         }
@@ -350,11 +390,17 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
       }
     }
   };
+  // copy leaf if start <= key of leaf
+  auto copyFrom = [&copy, &start, this](const N *leaf) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    if (!keyLess(key, start)) copy(leaf);
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
+      [&copy, &copyFrom, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
                                                      const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
+          copyFrom(node);
           return;
         }
         uint64_t v;
@@ -385,7 +431,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              copyFrom(node);
               return;
             }
             goto readAgain;
@@ -454,8 +500,11 @@ restart:
       case PCCompareResults::Smaller: {
         return false;
       }
-      case PCCompareResults::Equal:
       case PCCompareResults::Bigger: {
+        copy(node);
+        break;
+      }
+      case PCCompareResults::Equal: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = 255;
         if (startLevel != endLevel) {
@@ -478,6 +527,13 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            return false;
+          }
+          if (N::isLeaf(nextNode)) {
+            copyFrom(nextNode);
+            break;
+          }
           level++;
           continue;
         }
@@ -1427,6 +1483,9 @@ typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &lev
         return PCEqualsResults::Contained;
       } else if (curKey < startLevel || curKey > endLevel) {
         return PCEqualsResults::NoMatch;
+      } else if (startLevel != endLevel) {
+        // only one of the bounds runs through this node
+        return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
       }
       ++level;
     }
diff --git a/OptiQL/Tree.h b/OptiQL/Tree.h
index 1b2123c..0d0999f 100644
--- a/OptiQL/Tree.h
+++ b/OptiQL/Tree.h
@@ -42,7 +42,7 @@ class Tree {
     Equal,
     Bigger,
   };
-  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch };
+  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch, StartMatch, EndMatch };
   static CheckPrefixResult checkPrefix(N *n, const Key &k, uint32_t &level);
 
   static CheckPrefixPessimisticResult checkPrefixPessimistic(
-- 
2.43.0


From 6e00820cef15ad8681c2f5a1707e0df6b88d5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 03/96] fix: OptiQL ART remove aborted on a key whose node had
 been expanded by many updates

---
 OptiQL/Tree.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 565197f..f6abf43 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1311,6 +1311,26 @@ restart:
           if (N::getLeaf(nextNode) != tid) {
             return false;
           }
+          if (parentNode != nullptr && node->getCount() == 1) {
+            // A single-child node left by tryExpand(): fold it back into its leaf and retry
+            DEFINE_CONTEXT(parentQ, 1);
+            DEFINE_CONTEXT(q, 0);
+            UPGRADE_PARENT();
+            if (needRestart) goto restart;
+
+            UPGRADE_NODE(node);
+            if (needRestart) {
+              UNLOCK_PARENT();
+              goto restart;
+            }
+            N::change(parentNode, parentKey, nextNode);
+            UNLOCK_PARENT();
+
+            node->setObsolete();
+            UNLOCK_NODE(node);
+            this->removeNode(node);
+            goto restart;
+          }
           assert(parentNode == nullptr || node->getCount() != 1);
           if (node->getCount() == 2 && parentNode != nullptr) {
             DEFINE_CONTEXT(parentQ, 1);
-- 
2.43.0


From 1cb7649b4f41cca968fcbd79de0146cddc125cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 04/96] fix: ART-OLC insert crashed when a node prefix shrank
 while it was being compared

---
 ARTOLC/Tree.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index f958ed8..c850e2c 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -615,10 +615,12 @@ namespace ART_OLC {
                                                                         uint8_t &nonMatchingKey,
                                                                         Prefix &nonMatchingPrefix,
                                                                         LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
+        // read once: a writer may change it meanwhile, and the lengths below must not underflow
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
             uint32_t prevLevel = level;
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
@@ -627,16 +629,16 @@ namespace ART_OLC {
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
                     nonMatchingKey = curKey;
-                    if (n->getPrefixLength() > maxStoredPrefixLength) {
+                    if (prefixLength > maxStoredPrefixLength) {
                         if (i < maxStoredPrefixLength) {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
                         }
-                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((n->getPrefixLength() - (level - prevLevel) - 1),
+                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
                     } else {
-                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, n->getPrefixLength() - i - 1);
+                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, prefixLength - i - 1);
                     }
                     return CheckPrefixPessimisticResult::NoMatch;
                 }
-- 
2.43.0


From d41fb007730e7970eeb8fa8b61a986ab414bb9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 05/96] fix: ART-OLC remove could miss a present key when its
 node was split or folded meanwhile

---
 ARTOLC/Tree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index c850e2c..3705b24 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -517,6 +517,12 @@ namespace ART_OLC {
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
 
+            // the link to node was read before its version: it must still hold
+            if (parentNode != nullptr) {
+                parentNode->readUnlockOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
+
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
                     node->readUnlockOrRestart(v, needRestart);
-- 
2.43.0


From e5b5a76a013e4fdec1a962e50d9af6485c6d32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 06/96] fix: OptiQL ART update reported a present key as absent
 when its last node changed meanwhile

---
 OptiQL/Tree.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index f6abf43..9d52cb4 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -704,10 +704,8 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
-          parentNode->checkOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-        }
+        parentNode->checkOrRestart(v, needRestart);
+        if (needRestart) goto restart;
 
         if (node == nullptr) {
           if (lockAcquired) {
-- 
2.43.0


From 9d904b2fd9c956dd2fbb196e420222241be12071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 07/96] fix: OptiQL ART remove could miss a present key when
 its node was split or folded meanwhile

---
 OptiQL/Tree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 9d52cb4..1a607bb 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1286,6 +1286,12 @@ restart:
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
 
+    // the link to node was read before its version: it must still hold
+    if (parentNode != nullptr) {
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
+
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
         node->readUnlockOrRestart(v, needRestart);
-- 
2.43.0


From bf0a5fa776e70f30fbad9d39c6428955146df4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 08/96] fix: BTreeOLC lookup returned an uninitialised result
 for absent keys

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From a751e873b621548f831dba1be29e65f0b209d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 09/96] fix: HOT upsert of a second key reported the new record
 itself as the replaced one

The result of the insertion was dropped, so the loop ran again, found the
record just stored and replaced it by itself.
---
 HOT/include/hot/rowex/HOTRowex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..f2ff1b1 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -164,7 +164,7 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From 17a41a89cb01180a6af6c70c589578ab06612355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 10/96] fix: HOT lookup on an empty index dereferenced a null
 node

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index f2ff1b1..2c12c29 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(!current.isUsed()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From b2159e0b260bfddeef361690edbe8527c1f27942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 11/96] fix: HOT lower_bound and upper_bound ignored the only
 record unless its key was searched

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..48e0f61 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -57,11 +57,9 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		HOTRowexChildPointer const currentRoot = *rootPointer;
 
-		return (currentRoot.isLeaf()
-				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-			   ) || currentRoot.isAValidNode()
+		return currentRoot.isUsed()
 			   ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, searchKey, isLowerBound, memoryReclamationStrategy, guard)
 			   : END_ITERATOR;
 	}
@@ -208,7 +206,12 @@ private:
 
 		idx::contenthelpers::OptionalValue<hot::commons::DiscriminativeBit> mismatchingBit = hot::commons::getMismatchingBit(existingKeyBytes, searchKeyBytes, idx::contenthelpers::getMaxKeyLength<KeyType>());
 
-		if(mismatchingBit.mIsValid) {
+		if(mismatchingBit.mIsValid && currentStackEntry == currentStackRoot) {
+			//the only entry is a leaf: it is contained if its key is larger than the search key
+			return mismatchingBit.mValue.mValue
+				? HotRowexIteratorBufferState<KeyType>(bufferRoot)
+				: fillBuffer({ bufferRoot }, { currentStackRoot, ITERATOR_FILL_BUFFER_STATE_STORE, currentStackEntry }, guard);
+		} else if(mismatchingBit.mIsValid) {
 			HOTRowexChildPointer const * childPointerLocation = currentStackEntry->getCurrentPointerLocation();
 			--mMostSignificantBitIndex;
 			--currentStackEntry;
-- 
2.43.0


From 37abe027f99cd0637997ef036b1ca2576ec39a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 12/96] fix: HOT upsert of a present key lost updates and keys
 when its leaf changed before the lock was taken

---
 HOT/include/hot/rowex/HOTRowex.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 2c12c29..a632346 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -152,12 +152,15 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 			} else {
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
-				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+				if(parentEntry->tryLock()) {
+					//Check for consistency: the leaf may have been replaced or pushed down before the lock was acquired
+					if(leafEntry.isConsistent()) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From 3553df21e69642639beaaa9f7cc57e7f4b16b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 13/96] fix: HOT lower_bound could return smaller keys when a
 leaf was pushed down meanwhile

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 48e0f61..d141180 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -233,7 +233,11 @@ private:
 				if(nextEntryLocation >= existingNode.end()) {
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::ascendOrAdvance(currentStackEntry), currentStackEntry);
 				} else {
-					(++currentStackEntry)->init(nextEntryLocation, existingNode.end());
+					++currentStackEntry;
+					//the entry on the search path was examined as it was read: a smaller key may have been pushed down below it since
+					if(nextEntryIndex != entryIndex) {
+						currentStackEntry->init(nextEntryLocation, existingNode.end());
+					}
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::descendOrStore(currentStackEntry), currentStackEntry );
 				}
 			}), guard);
-- 
2.43.0


From c8d340758581df2b325d8a1395df0e8a01f0318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 14/96] fix: wormhole whunsafe_delr does nothing when end <=
 start

An end key in an earlier leaf than the start key made it delete everything
from start on.
---
 wormhole/wh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..a339917 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -3047,6 +3047,9 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && (kref_compare(start, end) >= 0)) // do nothing if end <= start
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
@@ -3057,9 +3060,6 @@ whunsafe_delr(struct wormhole * const map, const struct kref * const start,
   // select start/end on leafa
   const u32 ia = wormleaf_seek(leafa, start);
   const u32 iaz = end ? wormleaf_seek_end(leafa, end) : leafa->nr_keys;
-  if (iaz < ia)
-    return 0;
-
   wormleaf_delete_range(map, leafa, ia, iaz);
   u64 ndel = iaz - ia;
 
-- 
2.43.0


From 9e97d5e3776317e1bab23688f2a0f5c8864877af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 15/96] fix: wormhole kvref_dup2_key makes a record without
 value bytes

It kept vlen, so the new record claimed bytes it does not hold.
---
 wormhole/kv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wormhole/kv.c b/wormhole/kv.c
index a1720e8..fbaf805 100644
--- a/wormhole/kv.c
+++ b/wormhole/kv.c
@@ -735,6 +735,7 @@ kvref_dup2_key(struct kvref * const ref, struct kv * const to)
     return NULL;
 
   *new = ref->hdr;
+  new->vlen = 0;
   memcpy(new->kv, ref->kptr, new->klen);
   return new;
 }
-- 
2.43.0


From 1cb34d38ff6afbc8a415f706a2a10da6c42f778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 16/96] fix: wormhole strtoks keeps a slot for the final NULL

With a multiple of 32 tokens the NULL was written past the array.
---
 wormhole/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..adb9423 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2784,7 +2784,7 @@ strtoks(const char * const str, const char * const delim)
   char * tok = strtok_r(buf, delim, &saveptr);
   size_t ntoks = 0;
   while (tok) {
-    if (ntoks >= nptr_alloc) {
+    if ((ntoks + 1) >= nptr_alloc) { // keep a slot for the final NULL
       nptr_alloc += 32;
       char ** const r = realloc(tokens, sizeof(tokens[0]) * nptr_alloc);
       if (r == NULL)
-- 
2.43.0


From d05b4e290111e7c1ad835d9a4c04949b6be8c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 17/96] fix: wormhole qsbr_wait meets a slot that is being
 registered

A fresh slot held NULL between the bitmap update and the store of its
reference; a concurrent qsbr_wait dereferenced it.
---
 wormhole/lib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index adb9423..426b027 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2866,6 +2866,11 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // a free slot always refers to the target: qsbr_wait may see a slot before its new owner has filled it
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++) {
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      q->shards[i].ptrs[j] = (u64)(&q->target);
+  }
   return q;
 }
 
-- 
2.43.0


From d646e668c4b207f80506511bccd94927ed97f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 18/96] fix: MassTree json: integers beyond 64 bits are read as
 doubles instead of wrapping around

---
 MassTree/json.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 29ddfbc..a45eb50 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1195,12 +1195,17 @@ Json::streaming_parser::consume_number(const uint8_t* first,
             bool negative = *prev == '-';
             prev += int(negative);
             uint64_t x = 0;
-            while (prev != first) {
-                x = (x * 10) + *prev - '0';
-                ++prev;
+            bool overflow = false;
+            for (const uint8_t* s = prev; s != first; ++s) {
+                unsigned digit = *s - '0';
+                overflow = overflow || x > (UINT64_MAX - digit) / 10;
+                x = (x * 10) + digit;
             }
-            if (negative)
-                j = Json(-int64_t(x));
+            if (overflow || (negative && x > uint64_t(1) << 63)) {
+                double d = strtod(String(prev, first).c_str(), 0);
+                j = Json(negative ? -d : d);
+            } else if (negative)
+                j = Json(int64_t(0 - x));
             else
                 j = Json(x);
         } else {
-- 
2.43.0


From e9dd52d1c42bab838f81cf9d285809b104fa2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 19/96] fix: MassTree json: accept lower-case hex digits in the
 low surrogate of an escape

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index a45eb50..9427695 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1054,7 +1054,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
-- 
2.43.0


From 2e7252964a2392e51f20ec0d76f56221bc76cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 20/96] fix: MassTree json: do not look past the end of a piece
 that ends in a UTF-8 lead byte

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 9427695..f42b2ae 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -928,7 +928,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (*first >= 0xE0 && n > 1
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
-- 
2.43.0


From f9630f3aeafc738d7bd42cc5846930aa2189815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 21/96] fix: MassTree json: accept the \u0000 escape, which
 unparse() emits

---
 MassTree/json.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index f42b2ae..105bff5 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1064,9 +1064,12 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
             ch = 0x10000 + (ch - 0xD800) * 0x400 + (ch2 - 0xDC00);
             first += 6;
         }
-    }
+    } else
+        return error_at(&first[1]);
 
-    if (!ch || !sa.append_utf8(ch))
+    if (ch == 0)
+        sa.append('\0');
+    else if (!sa.append_utf8(ch))
         return error_at(&first[1]);
     return first + 2;
 
-- 
2.43.0


From 568c2ca80dc78d1337377dabdd8a5695d124c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 22/96] fix: MassTree json: accept any amount of white space
 after the document

---
 MassTree/json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 105bff5..8315ca0 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -682,8 +682,8 @@ Json::assign_parse(const char* first, const char* last, const String& str)
     using std::swap;
     Json::streaming_parser jsp;
     first = jsp.consume(first, last, str, true);
-    if (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
-                          || *first == '\t'))
+    while (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
+                             || *first == '\t'))
         ++first;
     if (first == last && jsp.success()) {
         swap(jsp.result(), *this);
-- 
2.43.0


From 7ab0bab57457d8289af295e7e3fc2148f0f69c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 23/96] fix: MassTree StringAccum: encode U+0800 to U+7FFF in
 three bytes

---
 MassTree/straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/straccum.cc b/MassTree/straccum.cc
index f82c153..3027765 100644
--- a/MassTree/straccum.cc
+++ b/MassTree/straccum.cc
@@ -203,7 +203,7 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-- 
2.43.0


From c664e47c454d8929d3984947e7f587726a7fc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 24/96] fix: MassTree json: erasing a key of an object that
 never had one finds nothing

---
 MassTree/json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 8315ca0..5a08e45 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From f0bb3f9f3b84fc9a1a6814e089d0f446ef41083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 25/96] fix: MassTree json: a repeated key whose first value
 was an array gets the later value

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 5a08e45..1b1416b 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -864,7 +864,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         value: {
             Json* jp = current();
-            if (state_ != st_initial && jp->is_a()) {
+            if (state_ == st_array_initial || state_ == st_array_value) {
                 jp->push_back(std::move(j));
                 jp = &jp->back();
             } else
-- 
2.43.0


From 31d85abc2d330628edf58c7b6522a0b02870d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 26/96] fix: MassTree json: arithmetic on unsigned numbers (all
 parsed ones) does not trip the precondition

---
 MassTree/json.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 9238ba3..c422a9c 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2053,13 +2053,13 @@ inline const String& Json::as_s(const String& default_value) const {
 }
 
 inline void Json::force_number() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || is_number());
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_int;
 }
 
 inline void Json::force_double() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || is_number());
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_double;
     else if (u_.x.type == j_int) {
-- 
2.43.0


From a21445eb46fc31c88635d5171af96af415a778b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 27/96] fix: MassTree json: adding or subtracting a Json uses
 its value, not the left operand's

---
 MassTree/json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index c422a9c..bc5ffdb 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -3093,18 +3093,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From 00c252289b462a7cf8933fd3d0e5b6c85d0d5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 28/96] fix: MassTree json: merging an empty object turns null
 into an empty object

---
 MassTree/json.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index bc5ffdb..86def32 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2410,8 +2410,9 @@ inline Json::size_type Json::erase(Str key) {
 inline Json& Json::merge(const Json& x) {
     precondition(is_object() || is_null());
     precondition(x.is_object() || x.is_null());
-    if (x.u_.o.x) {
+    if (x.is_object())
         uniqueify_object(false);
+    if (x.u_.o.x) {
         ObjectJson *oj = ojson(), *xoj = x.ojson();
         const ObjectItem *xb = xoj->os_, *xe = xb + xoj->n_;
         for (; xb != xe; ++xb)
-- 
2.43.0


From 629e28f7b27a7cb318f0d9e82014359be32f59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 29/96] fix: MassTree json: empty() does not take a string with
 static data for an array

---
 MassTree/json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 86def32..79d05f9 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -1746,7 +1746,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type > 0 && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From 0a110de3c870839b27ae537002b0259125bf6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 30/96] fix: MassTree msgpack: reading a vector compiles

---
 MassTree/msgpack.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 8b84e34..8a50e88 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -610,7 +610,7 @@ parser& parser::operator>>(::std::vector<T>& x) {
     }
     for (; sz != 0; --sz) {
         x.push_back(T());
-        parse(x.back());
+        *this >> x.back();
     }
     return *this;
 }
-- 
2.43.0


From b4bacc3c454c36e2b350ff3926e2d26f937f7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 31/96] fix: MassTree msgpack: skip_primitives skips 64-bit
 integers and doubles

---
 MassTree/msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 8a50e88..7380735 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From 9a6ceb1b4e7ab301db0eecf87aa2937baa59b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 32/96] fix: MassTree msgpack: lengths of 2^31 and more are
 refused, not taken as negative

---
 MassTree/msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MassTree/msgpack.cc b/MassTree/msgpack.cc
index 4b8859b..fd19c2e 100644
--- a/MassTree/msgpack.cc
+++ b/MassTree/msgpack.cc
@@ -69,6 +69,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixmap;
             ++first;
         map:
+            if (n < 0)
+                goto error;
             if (jx->is_o())
                 jx->clear();
             else
@@ -77,6 +79,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
+            if (n < 0)
+                goto error;
             if (!jx->is_a())
                 *jx = Json::make_array_reserve(n);
             jx->resize(n);
@@ -84,6 +88,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixstr;
             ++first;
         raw:
+            if (n < 0)
+                goto error;
             if (last - first < n) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
-- 
2.43.0


From 9f8203ead6b3a967bc0d4f10e7e42f545a9e2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 33/96] fix: MassTree StringAccum: snprintf(n, ...) writes no
 more than n characters

---
 MassTree/straccum.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/MassTree/straccum.cc b/MassTree/straccum.cc
index 3027765..9d36268 100644
--- a/MassTree/straccum.cc
+++ b/MassTree/straccum.cc
@@ -331,13 +331,8 @@ StringAccum &
 StringAccum::vsnprintf(int n, const char *format, va_list val)
 {
     if (char *x = reserve(n + 1)) {
-#if HAVE_VSNPRINTF
         int len = ::vsnprintf(x, n + 1, format, val);
-#else
-        int len = vsprintf(x, format, val);
-        assert(len <= n);
-#endif
-        adjust_length(len);
+        adjust_length(len < 0 ? 0 : (len > n ? n : len));
     }
     return *this;
 }
-- 
2.43.0


From 83f6617d089d766dcb778cdaf50638e1b6decaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 34/96] fix: MassTree String: find_right of a string does not
 compare past the end

---
 MassTree/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index e098f8b..bb45d05 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -375,7 +375,7 @@ int
 String_generic::find_right(const char *s, int len, int start,
                            const char *x, int x_len)
 {
-    if (start >= len)
+    if (start > len - x_len)
         start = len - x_len;
     if (x_len == 0)
         return start >= 0 ? start : -1;
-- 
2.43.0


From 95d44ebc7a6bdc42ae22813b15e8e1334956ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 35/96] fix: MassTree String: glob_match looks at every
 character of a class and at none past the pattern

---
 MassTree/string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index bb45d05..b6bbfa5 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -450,8 +450,9 @@ bool String_generic::glob_match(const char* sbegin, int slen,
 
                       bool found = false;
                       do {
-                          if (*++ec == *s)
+                          if (*ec == *s)
                               found = true;
+                          ++ec;
                       } while (ec != pend && *ec != ']');
                       if (ec == pend)
                           goto normal_char;
-- 
2.43.0


From 0292c2a5bc9f131fd22f2cf2f8ac10e51db68c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 36/96] fix: MassTree String: natural_compare of decimals looks
 at which one has more zeros

---
 MassTree/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index b6bbfa5..36b769f 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -200,7 +200,7 @@ int String_generic::natural_compare(const char* a, int a_len,
                     && !(bx + 1 < be && *bx == '.' && !isspace((unsigned char) bx[1]))) {
                     negative = aperiod_negative;
                     if (longer_zeros)
-                        return negative ? 1 : -1;
+                        return negative == (longer_zeros > 0) ? 1 : -1;
                     if (digit_compare)
                         a_good = b_good;
                 }
-- 
2.43.0


From d6155162c014f400dfa354b5843cec3373199966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 37/96] fix: MassTree String: align() keeps the offset of the
 reference count

---
 MassTree/string.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index 36b769f..b965481 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -1046,6 +1046,7 @@ String::align(int n)
         offset = reinterpret_cast<uintptr_t>(s._r.data) % n;
         memcpy((char *)s._r.data + n - offset, _r.data, _r.length);
         s._r.data += n - offset;
+        s._r.memo_offset -= n - offset;
         s._r.length = _r.length;
         *this = s;
     }
-- 
2.43.0


From 9e2ca367728eb2d09fc71014016154e32b507b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 38/96] fix: MassTree String: cesu8_to_utf8 heeds
 utf_replacement

---
 MassTree/string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index b965481..48d3547 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -1218,9 +1218,9 @@ String::cesu8_to_utf8(int flags) const
             ++s;
         else if (likely((t = skip_utf8_char(s, ends)) != s))
             s = t;
-        else if ((c = parse_cesu8_char(s, ends))) {
+        else if (int cesu = parse_cesu8_char(s, ends)) {
             sa.append(last, s);
-            sa.append_utf8(c);
+            sa.append_utf8(cesu);
             s += 6;
             last = s;
         } else {
-- 
2.43.0


From 0d1356552f3376e73b718694aef62ff7768fe809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 39/96] fix: MassTree String: Windows-1252 0x88 and 0x98 are
 U+02C6 and U+02DC

---
 MassTree/string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index 48d3547..c39924c 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -1103,9 +1103,9 @@ String::parse_cesu8_char(const unsigned char *s, const unsigned char *end)
 
 static const uint16_t windows1252_c1_mapping[] = {
     0x20AC, 0x0081, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021,
-    0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
+    0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
     0x0090, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014,
-    0x20DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
+    0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
 };
 
 String
-- 
2.43.0


From 6f49d2427f1467426c9de4fa3425f6cbf8f9e8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 40/96] fix: MassTree String: printable(2) escapes quotes and
 backslashes also when nothing else needs it

---
 MassTree/string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/string.cc b/MassTree/string.cc
index c39924c..c8353c6 100644
--- a/MassTree/string.cc
+++ b/MassTree/string.cc
@@ -999,7 +999,8 @@ String::printable(int type) const
     // avoid copies
     if (!out_of_memory())
         for (int i = 0; i < _r.length; i++)
-            if (_r.data[i] < 32 || _r.data[i] > 126)
+            if (_r.data[i] < 32 || _r.data[i] > 126
+                || (type == 2 && (_r.data[i] == '\\' || _r.data[i] == '\"')))
                 return hard_printable(*this, i, type);
     return *this;
 }
-- 
2.43.0


From bc1658074a16733b8abbd39be738528083a638b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 41/96] fix: STX btree: iterators and reverse iterators convert
 into each other at leaf boundaries

---
 STX/tlx/tlx/container/btree.hpp | 66 +++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index 098a286..b106566 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -402,8 +402,15 @@ public:
 
         //! Copy-constructor from a reverse iterator
         iterator(const reverse_iterator& it) // NOLINT
-            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot) {
+            // a reverse position after a leaf's last slot is the next leaf's
+            // first slot
+            if (curr_leaf != nullptr && curr_slot == curr_leaf->slotuse &&
+                curr_leaf->next_leaf != nullptr) {
+                curr_leaf = curr_leaf->next_leaf;
+                curr_slot = 0;
+            }
+        }
 
         //! Dereference the iterator.
         reference operator * () const {
@@ -569,13 +576,27 @@ public:
 
         //! Copy-constructor from a mutable reverse iterator
         const_iterator(const reverse_iterator& it) // NOLINT
-            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot) {
+            // a reverse position after a leaf's last slot is the next leaf's
+            // first slot
+            if (curr_leaf != nullptr && curr_slot == curr_leaf->slotuse &&
+                curr_leaf->next_leaf != nullptr) {
+                curr_leaf = curr_leaf->next_leaf;
+                curr_slot = 0;
+            }
+        }
 
         //! Copy-constructor from a const reverse iterator
         const_iterator(const const_reverse_iterator& it) // NOLINT
-            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot) {
+            // a reverse position after a leaf's last slot is the next leaf's
+            // first slot
+            if (curr_leaf != nullptr && curr_slot == curr_leaf->slotuse &&
+                curr_leaf->next_leaf != nullptr) {
+                curr_leaf = curr_leaf->next_leaf;
+                curr_slot = 0;
+            }
+        }
 
         //! Dereference the iterator.
         reference operator * () const {
@@ -744,8 +765,15 @@ public:
 
         //! Copy-constructor from a mutable iterator
         reverse_iterator(const iterator& it) // NOLINT
-            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot) {
+            // a leaf's first slot is the reverse position after the previous
+            // leaf's last slot
+            if (curr_slot == 0 && curr_leaf != nullptr &&
+                curr_leaf->prev_leaf != nullptr) {
+                curr_leaf = curr_leaf->prev_leaf;
+                curr_slot = curr_leaf->slotuse;
+            }
+        }
 
         //! Dereference the iterator.
         reference operator * () const {
@@ -910,13 +938,27 @@ public:
 
         //! Copy-constructor from a mutable iterator.
         const_reverse_iterator(const iterator& it) // NOLINT
-            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot) {
+            // a leaf's first slot is the reverse position after the previous
+            // leaf's last slot
+            if (curr_slot == 0 && curr_leaf != nullptr &&
+                curr_leaf->prev_leaf != nullptr) {
+                curr_leaf = curr_leaf->prev_leaf;
+                curr_slot = curr_leaf->slotuse;
+            }
+        }
 
         //! Copy-constructor from a const iterator.
         const_reverse_iterator(const const_iterator& it) // NOLINT
-            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+            : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot) {
+            // a leaf's first slot is the reverse position after the previous
+            // leaf's last slot
+            if (curr_slot == 0 && curr_leaf != nullptr &&
+                curr_leaf->prev_leaf != nullptr) {
+                curr_leaf = curr_leaf->prev_leaf;
+                curr_slot = curr_leaf->slotuse;
+            }
+        }
 
         //! Copy-constructor from a mutable reverse iterator.
         const_reverse_iterator(const reverse_iterator& it) // NOLINT
-- 
2.43.0


From c396f8b8137efacf4e4b844327f935ca8226f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 42/96] fix: tlx: build_heap of an addressable int heap forgets
 the keys it replaces

---
 STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
index 7329594..4f882e7 100644
--- a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
+++ b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
@@ -351,7 +351,8 @@ private:
                 heap_[cur] = std::move(value);
             }
         }
-        // initialize handles_ vector
+        // initialize handles_ vector, dropping the handles of a previous heap
+        std::fill(handles_.begin(), handles_.end(), not_present());
         handles_.resize(std::max(handles_.size(), static_cast<size_t>(max_key) + 1), not_present());
         for (size_t i = 0; i < heap_.size(); ++i)
             handles_[heap_[i]] = i;
-- 
2.43.0


From 54d0adfdc38e15bfea26dcea381bb214dc20bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 43/96] fix: tlx: a radix heap accepts the largest key without
 a failing assertion

---
 STX/tlx/tlx/container/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 05ba7f6..0b4f57f 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -621,6 +621,7 @@ protected:
             const ranked_key_type key = Encoder::rank_of_int(key_extract_(x));
             assert(key >= mins_[first_non_empty]);
             assert(first_non_empty == mins_.size() - 1
+                   || buckets_data_[first_non_empty + 1].empty()
                    || key < mins_[first_non_empty + 1]);
             const auto idx = bucket_map_(key, insertion_limit_);
             assert(idx < first_non_empty);
-- 
2.43.0


From 27f20ec3ca958a077061d7b860a4fe8e75dd8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 44/96] fix: tlx: a radix heap with 8 or 16 bit keys computes
 its buckets inside the bucket array

---
 STX/tlx/tlx/container/radix_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 0b4f57f..60381af 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -288,7 +288,8 @@ public:
         const auto diff = x ^ insertion_limit;
         if (!diff) return 0;
 
-        const auto diff_in_bit = (8 * sizeof(Int) - 1) - clz(diff);
+        // diff is wider than Int if Int is subject to integral promotion
+        const auto diff_in_bit = (8 * sizeof(diff) - 1) - clz(diff);
 
         const auto row = diff_in_bit / radix_bits;
         const auto bucket_in_row = ((x >> (radix_bits * row)) & mask) - row;
-- 
2.43.0


From 0c8dcb9671995adcb775fea29f4c424adced66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 45/96] fix: tlx: RingBuffer::pop_back destroys the element at
 the back

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 7eec7c1..5b8e6d2 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -219,8 +219,8 @@ public:
     //! remove element at the end
     void pop_back() {
         assert(!empty());
-        alloc_traits::destroy(alloc_, std::addressof(data_[begin_]));
         --end_ &= mask_;
+        alloc_traits::destroy(alloc_, std::addressof(data_[end_]));
     }
 
     //! reset buffer contents
-- 
2.43.0


From ce4d1bc0a0bd91f49b23d879797ec7dafb012949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 46/96] fix: tlx: a deallocated RingBuffer can be allocated or
 assigned to again

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 5b8e6d2..588aa1b 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -155,6 +155,8 @@ public:
             clear();
             alloc_.deallocate(data_, capacity_);
             data_ = nullptr;
+            begin_ = end_ = 0;
+            capacity_ = mask_ = 0;
         }
     }
 
-- 
2.43.0


From 96492a727f00c5b692305f5f23df100ef26e0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 47/96] fix: tlx: LruCacheMap::put accepts a value it already
 holds

---
 STX/tlx/tlx/container/lru_cache.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/STX/tlx/tlx/container/lru_cache.hpp b/STX/tlx/tlx/container/lru_cache.hpp
index 95cb643..82a87f4 100644
--- a/STX/tlx/tlx/container/lru_cache.hpp
+++ b/STX/tlx/tlx/container/lru_cache.hpp
@@ -187,17 +187,20 @@ public:
 
     //! put or replace/touch item in LRU cache
     void put(const Key& key, const Value& value) {
-        // first try to find an existing key
+        // insert key into linked list at the front (most recently used), before
+        // removing an existing entry: value may refer to it.
+        list_.push_front(KeyValuePair(key, value));
+
+        // try to find an existing key
         typename Map::iterator it = map_.find(key);
         if (it != map_.end()) {
             list_.erase(it->second);
-            map_.erase(it);
+            it->second = list_.begin();
+            return;
         }
 
-        // insert key into linked list at the front (most recently used)
-        list_.push_front(KeyValuePair(key, value));
         // store iterator to linked list entry in map
-        map_.insert(std::make_pair(key, list_.begin()));
+        map_.insert(std::make_pair(list_.front().first, list_.begin()));
     }
 
     //! touch pair in LRU cache for key. Throws if it is not in the map.
-- 
2.43.0


From 16874648d920cf4b4e2d8bd1ed46f88eef97c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 48/96] fix: tlx: SplayTree::exists on an empty tree is false

---
 STX/tlx/tlx/container/splay_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index a3fb8a3..323e107 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -277,7 +277,7 @@ public:
     //! check if key exists
     bool exists(const Key& k) {
         root_ = splay(k, root_, cmp_);
-        return !cmp_(root_->key, k) && !cmp_(k, root_->key);
+        return root_ != nullptr && !cmp_(root_->key, k) && !cmp_(k, root_->key);
     }
 
     //! return number of items in tree
-- 
2.43.0


From 79668d6cf0c1ab74ab3270aa245722d070bbdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 49/96] fix: tlx: SplayTree::clear leaves an empty tree behind

---
 STX/tlx/tlx/container/splay_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index 323e107..3a02731 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -272,6 +272,7 @@ public:
     //! free all nodes
     void clear() {
         splay_traverse_postorder([this](Node* n) { delete_node(n); }, root_);
+        root_ = nullptr;
     }
 
     //! check if key exists
-- 
2.43.0


From 2e2a07144bfa35587741e1f12954a6450f67962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 50/96] fix: tlx: erasing from a splay multiset keeps the other
 duplicates

---
 STX/tlx/tlx/container/splay_tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index 3a02731..2e69fb5 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -185,7 +185,10 @@ Tree * splay_erase(const Key& k, Tree*& t, const Compare& cmp) {
         }
         else {
             Tree* x = splay(k, t->left, cmp);
-            x->right = t->right;
+            // x has a right subtree if duplicates of k are among the keys
+            Tree* y = x;
+            while (y->right != nullptr) y = y->right;
+            y->right = t->right;
             t = x;
         }
         return r;
-- 
2.43.0


From fc794f9c179f948c1491f6eddc2608694b79671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 51/96] fix: tlx: StringView::copy starts at the given position

---
 STX/tlx/tlx/container/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index efe4614..54e68aa 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -181,7 +181,7 @@ public:
         if (pos > size())
             throw std::out_of_range("StringView::copy");
         size_type rsize = std::min(n, size_ - pos);
-        std::copy(data(), data() + rsize, s);
+        std::copy(data() + pos, data() + pos + rsize, s);
         return rsize;
     }
 
-- 
2.43.0


From f8f1fe7b5150394d42912f8b873810787bb91e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 52/96] fix: tlx: StringView::compare looks beyond NUL
 characters

---
 STX/tlx/tlx/container/string_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index 54e68aa..7c6d547 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -195,7 +195,8 @@ public:
     //! \{
 
     int compare(StringView x) const noexcept {
-        const int cmp = std::strncmp(ptr_, x.ptr_, std::min(size_, x.size_));
+        const int cmp = std::char_traits<char>::compare(
+            ptr_, x.ptr_, std::min(size_, x.size_));
         return cmp != 0 ? cmp
                : (size_ == x.size_ ? 0 : size_ < x.size_ ? -1 : 1);
     }
-- 
2.43.0


From f3710c0ee0645154562dc329cba6e60e9197b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 53/96] fix: tlx: StringView::rfind looks beyond NUL characters

---
 STX/tlx/tlx/container/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index 7c6d547..feaebbc 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -320,7 +320,7 @@ public:
         if (s.size_ == 0u) // an empty string is always found
             return pos;
         for (const char* cur = ptr_ + pos; ; --cur) {
-            if (std::strncmp(cur, s.ptr_, s.size_) == 0)
+            if (std::char_traits<char>::compare(cur, s.ptr_, s.size_) == 0)
                 return cur - ptr_;
             if (cur == ptr_)
                 return npos;
-- 
2.43.0


From 1a998c22c2669fcb56388ed9195282cae7f2f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 54/96] fix: tlx: StringView orders bytes above 0x7f like its
 compare() and std::string

---
 STX/tlx/tlx/container/string_view.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index feaebbc..5b16391 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -242,8 +242,7 @@ public:
     //! Less operator to compare a StringView with another StringView
     //! lexicographically
     bool operator < (const StringView& other) const noexcept {
-        return std::lexicographical_compare(
-            ptr_, ptr_ + size_, other.ptr_, other.ptr_ + other.size_);
+        return compare(other) < 0;
     }
 
     //! Greater than
@@ -506,16 +505,14 @@ bool operator != (const std::string& a, const StringView& b) noexcept {
 //! lexicographically
 static inline
 bool operator < (const StringView& a, const std::string& b) noexcept {
-    return std::lexicographical_compare(
-        a.begin(), a.end(), b.begin(), b.end());
+    return a < StringView(b);
 }
 
 //! less operator to compare a StringView with a std::string
 //! lexicographically
 static inline
 bool operator < (const std::string& a, const StringView& b) noexcept {
-    return std::lexicographical_compare(
-        a.begin(), a.end(), b.begin(), b.end());
+    return StringView(a) < b;
 }
 
 static inline
-- 
2.43.0


From 647ec7a7e4216230609969d098c569faf53508f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 55/96] fix: tlx: multisequence_partition splits equal elements
 in favour of the first sequences

---
 STX/tlx/tlx/algorithm/multisequence_partition.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/multisequence_partition.hpp b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
index 5d362b0..b0c2a24 100644
--- a/STX/tlx/tlx/algorithm/multisequence_partition.hpp
+++ b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
@@ -206,17 +206,22 @@ void multisequence_partition(
         n /= 2;
 
         const value_type* lmax = nullptr; // impossible to avoid the warning?
+        diff_type lmax_seq = 0;
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
-                if (!lmax)
+                if (!lmax) {
                     lmax = &(begin_seqs[i].first[a[i] - 1]);
+                    lmax_seq = i;
+                }
                 else
                 {
                     // max, favor rear sequences
-                    if (!comp(begin_seqs[i].first[a[i] - 1], *lmax))
+                    if (!comp(begin_seqs[i].first[a[i] - 1], *lmax)) {
                         lmax = &(begin_seqs[i].first[a[i] - 1]);
+                        lmax_seq = i;
+                    }
                 }
             }
         }
@@ -225,7 +230,8 @@ void multisequence_partition(
         {
             diff_type middle = (b[i] + a[i]) / 2;
             if (lmax && middle < seqlen[i] &&
-                comp(begin_seqs[i].first[middle], *lmax))
+                lcomp(SamplePair(begin_seqs[i].first[middle], i),
+                      SamplePair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From aca95ba84ebb726e714752efc0b2cf898622ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 56/96] fix: tlx: parallel_mergesort destroys its temporary
 copies

---
 STX/tlx/tlx/sort/parallel_mergesort.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/sort/parallel_mergesort.hpp b/STX/tlx/tlx/sort/parallel_mergesort.hpp
index da7c475..98f0c12 100644
--- a/STX/tlx/tlx/sort/parallel_mergesort.hpp
+++ b/STX/tlx/tlx/sort/parallel_mergesort.hpp
@@ -257,6 +257,8 @@ void parallel_sort_mwms_pu(PMWMSSortingData<RandomAccessIterator>* sd,
 
     barrier.wait();
 
+    for (DiffType i = 0; i < length_local; ++i)
+        sd->temporary[iam][i].~ValueType();
     operator delete (sd->temporary[iam]);
 }
 
-- 
2.43.0


From 495aef3baa4aefc084d1ceb21a64be9107905b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 57/96] fix: tlx: exact splitting for one thread when only a
 part is merged

---
 .../tlx/algorithm/multiway_merge_splitting.hpp    | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp b/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp
index 56244b7..b42c28d 100644
--- a/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp
+++ b/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp
@@ -226,13 +226,14 @@ void multiway_merge_exact_splitting(
             seqs_begin, seqs_end,
             ranks[static_cast<size_t>(s + 1)], offsets[s].begin(), comp);
 
-        if (!tight) // last one also needed and available
-        {
-            offsets[num_threads - 1].resize(num_seqs);
-            multisequence_partition(
-                seqs_begin, seqs_end,
-                size, offsets[num_threads - 1].begin(), comp);
-        }
+    }
+
+    if (!tight) // last one also needed and available
+    {
+        offsets[num_threads - 1].resize(num_seqs);
+        multisequence_partition(
+            seqs_begin, seqs_end,
+            size, offsets[num_threads - 1].begin(), comp);
     }
 
     // for each processor
-- 
2.43.0


From 6b61bff5d16bcbe0becaba2509bd8539b731f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 58/96] fix: tlx: a parallel merge of no elements returns at
 once

---
 STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
index 3b6916b..ab69422 100644
--- a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
+++ b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
@@ -101,7 +101,7 @@ RandomAccessIterator3 parallel_multiway_merge_base(
 
     size_t num_seqs = seqs_ne.size();
 
-    if (total_size == 0 || num_seqs == 0)
+    if (total_size == 0 || num_seqs == 0 || size == 0)
         return target;
 
     if (static_cast<DiffType>(num_threads) > total_size)
-- 
2.43.0


From 34fa9989be4bfe4479606447775d6067510a7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 59/96] fix: tlx: a parallel merge with sampling stops at its
 size and advances by what it took

---
 .../tlx/algorithm/parallel_multiway_merge.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
index ab69422..d4e38c6 100644
--- a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
+++ b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
@@ -146,7 +146,8 @@ RandomAccessIterator3 parallel_multiway_merge_base(
         multiway_merge_base<Stable, false>(
             chunks[iam].begin(), chunks[iam].end(),
             target + target_position,
-            std::min(local_size, static_cast<DiffType>(size) - target_position),
+            std::min(local_size, std::max(
+                         DiffType(0), static_cast<DiffType>(size) - target_position)),
             comp, mwma);
     }
 #else
@@ -166,7 +167,8 @@ RandomAccessIterator3 parallel_multiway_merge_base(
                 multiway_merge_base<Stable, false>(
                     chunks[iam].begin(), chunks[iam].end(),
                     target + target_position,
-                    std::min(local_size, static_cast<DiffType>(size) - target_position),
+                    std::min(local_size, std::max(
+                         DiffType(0), static_cast<DiffType>(size) - target_position)),
                     comp, mwma);
             });
     }
@@ -175,12 +177,19 @@ RandomAccessIterator3 parallel_multiway_merge_base(
         threads[i].join();
 #endif
 
-    // update ends of sequences
+    // update begins of sequences by what the threads took from their chunks
     size_t count_seqs = 0;
     for (RandomAccessIteratorIterator ii = seqs_begin; ii != seqs_end; ++ii)
     {
-        if (ii->first != ii->second)
-            ii->first = chunks[num_threads - 1][count_seqs++].second;
+        if (ii->first == ii->second) continue;
+
+        RandomAccessIterator chunk_begin = ii->first;
+        for (size_t iam = 0; iam < num_threads; ++iam)
+        {
+            ii->first += chunks[iam][count_seqs].first - chunk_begin;
+            chunk_begin = chunks[iam][count_seqs].second;
+        }
+        ++count_seqs;
     }
 
     return target + size;
-- 
2.43.0


From 2ccdfa25771d29cdcf588ad946c614c8e2e11d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 60/96] fix: tlx: bitdump of an empty string is empty

---
 STX/tlx/tlx/string/bitdump.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/string/bitdump.cpp b/STX/tlx/tlx/string/bitdump.cpp
index 8133e49..ab83e48 100644
--- a/STX/tlx/tlx/string/bitdump.cpp
+++ b/STX/tlx/tlx/string/bitdump.cpp
@@ -20,6 +20,7 @@ std::string bitdump_8_msb(const void* const data, size_t size) {
         static_cast<const unsigned char*>(data);
 
     std::string out;
+    if (size == 0) return out;
     out.resize(size * 9 - 1);
 
     std::string::iterator oi = out.begin();
@@ -61,6 +62,7 @@ std::string bitdump_8_lsb(const void* const data, size_t size) {
         static_cast<const unsigned char*>(data);
 
     std::string out;
+    if (size == 0) return out;
     out.resize(size * 9 - 1);
 
     std::string::iterator oi = out.begin();
-- 
2.43.0


From 1a5863cfc2230f8f5462e459b65a95dbe98a204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 61/96] fix: tlx: round_down_to_power_of_two keeps the highest
 power of two

---
 STX/tlx/tlx/math/round_to_power_of_two.hpp | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/math/round_to_power_of_two.hpp b/STX/tlx/tlx/math/round_to_power_of_two.hpp
index 6e59711..904e650 100644
--- a/STX/tlx/tlx/math/round_to_power_of_two.hpp
+++ b/STX/tlx/tlx/math/round_to_power_of_two.hpp
@@ -68,35 +68,46 @@ unsigned long long round_up_to_power_of_two(unsigned long long i) {
 /******************************************************************************/
 // round_down_to_power_of_two()
 
+//! does what it says: round down to next power of two
+template <typename Integral>
+static inline Integral round_down_to_power_of_two_template(Integral n) {
+    for (size_t k = 1; k != 8 * sizeof(n); k <<= 1) {
+        n |= n >> k;
+    }
+    return n - (n >> 1);
+}
+
+/******************************************************************************/
+
 //! does what it says: round down to next power of two
 static inline int round_down_to_power_of_two(int i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline unsigned int round_down_to_power_of_two(unsigned int i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline long round_down_to_power_of_two(long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline unsigned long round_down_to_power_of_two(unsigned long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline long long round_down_to_power_of_two(long long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline
 unsigned long long round_down_to_power_of_two(unsigned long long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! \}
-- 
2.43.0


From aa0ed1b79709930c460d11442d43ca80d2e60dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 62/96] fix: tlx: combining empty Aggregates leaves the
 variance a number

---
 STX/tlx/tlx/math/aggregate.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/STX/tlx/tlx/math/aggregate.hpp b/STX/tlx/tlx/math/aggregate.hpp
index 3c760fc..a9c91e9 100644
--- a/STX/tlx/tlx/math/aggregate.hpp
+++ b/STX/tlx/tlx/math/aggregate.hpp
@@ -157,6 +157,10 @@ private:
     //! T. Chan et al 1979, "Updating Formulae and a Pairwise Algorithm for
     //! Computing Sample Variances"
     double combine_variance(const Aggregate& other) const noexcept {
+        if (count_ == 0)
+            return other.nvar_;
+        if (other.count_ == 0)
+            return nvar_;
         double delta = mean_ - other.mean_;
         return nvar_ + other.nvar_ + (delta * delta) *
                (count_ * other.count_) / (count_ + other.count_);
-- 
2.43.0


From 4b94beb91c5465098c9e9bb06b9f3373d8208873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 63/96] fix: tlx: Aggregate::operator += combines the variance
 before it changes the mean

---
 STX/tlx/tlx/math/aggregate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/math/aggregate.hpp b/STX/tlx/tlx/math/aggregate.hpp
index a9c91e9..253872c 100644
--- a/STX/tlx/tlx/math/aggregate.hpp
+++ b/STX/tlx/tlx/math/aggregate.hpp
@@ -130,10 +130,10 @@ public:
 
     //! operator += to combine two Aggregate<>
     Aggregate& operator += (const Aggregate& a) noexcept {
+        nvar_ = combine_variance(a);
         mean_ = combine_means(a);
         min_ = std::min(min_, a.min_);
         max_ = std::max(max_, a.max_);
-        nvar_ = combine_variance(a);
         count_ += a.count_;
         return *this;
     }
-- 
2.43.0


From 009e8e7eea328f49e1bda5ddff9efc1dae493abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 64/96] fix: tlx: Aggregate::sum of integers is not truncated
 below the sum

---
 STX/tlx/tlx/math/aggregate.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/math/aggregate.hpp b/STX/tlx/tlx/math/aggregate.hpp
index 253872c..ddd2098 100644
--- a/STX/tlx/tlx/math/aggregate.hpp
+++ b/STX/tlx/tlx/math/aggregate.hpp
@@ -61,7 +61,12 @@ public:
 
     //! return sum over all values aggregated
     // can't make noexcept since Type_'s conversion is allowed to throw
-    const Type sum() const { return static_cast<Type>(count_ * mean_); }
+    const Type sum() const {
+        double sum = count_ * mean_;
+        // the mean is rounded, hence a sum of integers is the nearest one
+        return static_cast<Type>(
+            std::numeric_limits<Type>::is_integer ? std::round(sum) : sum);
+    }
 
     //! return sum over all values aggregated
     const Type total() const { return sum(); }
-- 
2.43.0


From 33f92e2877e5e05e93c2c28b613fba0ebdfeef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 65/96] fix: tlx: PolynomialRegression picks pivots during the
 elimination

---
 STX/tlx/tlx/math/polynomial_regression.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/STX/tlx/tlx/math/polynomial_regression.hpp b/STX/tlx/tlx/math/polynomial_regression.hpp
index b5894cc..9cf1065 100644
--- a/STX/tlx/tlx/math/polynomial_regression.hpp
+++ b/STX/tlx/tlx/math/polynomial_regression.hpp
@@ -174,19 +174,16 @@ protected:
             B[i * np2 + np1] = Y_[i];
         }
 
-        // pivotization of the B matrix.
-        for (size_t i = 0; i < order_ + 1; ++i) {
+        // perform Gaussian elimination.
+        for (size_t i = 0; i < order_; ++i) {
+            // pivotization of the remaining B matrix.
             for (size_t k = i + 1; k < order_ + 1; ++k) {
-                if (B[i * np2 + i] < B[k * np2 + i]) {
+                if (std::abs(B[i * np2 + i]) < std::abs(B[k * np2 + i])) {
                     for (size_t j = 0; j <= order_ + 1; ++j) {
                         std::swap(B[i * np2 + j], B[k * np2 + j]);
                     }
                 }
             }
-        }
-
-        // perform Gaussian elimination.
-        for (size_t i = 0; i < order_; ++i) {
             for (size_t k = i + 1; k < order_ + 1; ++k) {
                 Type t = B[k * np2 + i] / B[i * np2 + i];
                 for (size_t j = 0; j <= order_ + 1; ++j) {
-- 
2.43.0


From 73d9b7d3af37f0ef5823811158910ef1a7dd7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 66/96] fix: tlx: parallel string sample sort computes the LCPs
 of nested steps from the sorted strings

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index f89eba5..c723981 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -207,9 +207,9 @@ template <size_t bktnum, typename Context, typename Classify,
 void ps5_sample_sort_lcp(const Context& ctx, const Classify& classifier,
                          const StringPtr& strptr, size_t depth,
                          const BktSizeType* bkt) {
-    assert(!strptr.flipped());
-
-    const typename StringPtr::StringSet& strset = strptr.active();
+    // the sorted strings are back in the original array
+    const typename StringPtr::StringSet& strset =
+        strptr.flipped() ? strptr.shadow() : strptr.active();
     typedef typename Context::key_type key_type;
 
     size_t b = 0;         // current bucket number
-- 
2.43.0


From a54547c2d0d3ab6e63f4f857a3aba518ff4ebc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 67/96] fix: tlx: SSClassifyEqualUnroll::get_splitter counts
 splitters from zero

---
 STX/tlx/tlx/sort/strings/sample_sort_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp b/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
index 9278235..5e55a85 100644
--- a/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
+++ b/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
@@ -562,7 +562,7 @@ public:
     //! return a splitter
     key_type get_splitter(unsigned int i) const {
         return splitter_tree_[
-            PerfectTreeCalculations<treebits>::pre_to_levelorder(i)];
+            PerfectTreeCalculations<treebits>::pre_to_levelorder(i + 1)];
     }
 
 private:
-- 
2.43.0


From 976464ba9b970a0a4df42d2bc578ae89c639854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 68/96] fix: tlx: string radix sort does not read behind the
 bucket sizes when all strings have ended

---
 STX/tlx/tlx/sort/strings/radix_sort.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/radix_sort.hpp b/STX/tlx/tlx/sort/strings/radix_sort.hpp
index 537e9ae..c3ee892 100644
--- a/STX/tlx/tlx/sort/strings/radix_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/radix_sort.hpp
@@ -92,7 +92,7 @@ struct RadixStep_CE0 {
             size_t bkt = bkt_size[0], i = 1;
             if (bkt > 0 && bkt < size)
                 strptr.set_lcp(bkt, depth);
-            while (i < 256) {
+            while (i < 256 && bkt < size) {
                 while (i < 256 && bkt_size[i] == 0)
                     ++i;
                 bkt += bkt_size[i];
@@ -242,7 +242,7 @@ struct RadixStep_CE2 {
             size_t bkt = bkt_size[0], i = 1;
             if (bkt > 0 && bkt < size)
                 strptr.set_lcp(bkt, depth);
-            while (i < 256) {
+            while (i < 256 && bkt < size) {
                 while (i < 256 && bkt_size[i] == 0)
                     ++i;
                 bkt += bkt_size[i];
@@ -596,7 +596,7 @@ struct RadixStep_CI2 {
             size_t lbkt = bkt_size[0], i = 1;
             if (lbkt > 0 && lbkt < size)
                 strptr.set_lcp(lbkt, depth);
-            while (i < 256) {
+            while (i < 256 && lbkt < size) {
                 while (i < 256 && bkt_size[i] == 0)
                     ++i;
                 lbkt += bkt_size[i];
-- 
2.43.0


From b710d8a4205be74cda14fd85b802c76aed83fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 69/96] fix: tlx: parallel string sample sort does not touch a
 step after its last notification

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index c723981..67be3a9 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -1362,10 +1362,11 @@ public:
             ctx_.enqueue(this, strptr_.flip(bkt[i], bktsize), depth_);
         }
 
-        this->substep_notify_done(); // release anonymous subjob handle
-
         if (!strptr_.with_lcp)
             bkt_[0].destroy();
+
+        // release anonymous subjob handle, this may delete the step
+        this->substep_notify_done();
     }
 
     /*------------------------------------------------------------------------*/
-- 
2.43.0


From cb8afc351ae81139d6b6bcbee070cfe54c2b69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 70/96] fix: tlx: parallel string sample sort does not look at
 a step after enqueuing its last job

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index 67be3a9..519635f 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -1184,9 +1184,10 @@ public:
 
         classifier_.build(samples.data(), sample_size, splitter_lcp_);
 
-        // create new jobs
-        pwork_ = parts_;
-        for (unsigned int p = 0; p < parts_; ++p) {
+        // create new jobs, the last one may delete this step
+        const size_t parts = parts_;
+        pwork_ = parts;
+        for (unsigned int p = 0; p < parts; ++p) {
             ctx_.threads_.enqueue([this, p]() { count(p); });
         }
     }
@@ -1236,9 +1237,10 @@ public:
         }
         assert(sum == strptr_.size());
 
-        // create new jobs
-        pwork_ = parts_;
-        for (unsigned int p = 0; p < parts_; ++p) {
+        // create new jobs, the last one may delete this step
+        const size_t parts = parts_;
+        pwork_ = parts;
+        for (unsigned int p = 0; p < parts; ++p) {
             ctx_.threads_.enqueue([this, p]() { distribute(p); });
         }
     }
-- 
2.43.0


From e37b342b97ca35cef21b778e1a00a51751f704d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 71/96] fix: tlx: sequential string sample sort uses the bucket
 cache where it is after a multikey quicksort

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index 519635f..870a39b 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -457,6 +457,9 @@ public:
 
         while (ss_stack_.size() > ss_front_)
         {
+            // sort_mkqs_cache() may have enlarged the cache
+            bktcache = reinterpret_cast<std::uint16_t*>(bktcache_.data());
+
             Step& s = ss_stack_.back();
             size_t i = s.idx_++; // process the bucket s.idx_
 
-- 
2.43.0


From f4c9d6ad5659aba03c56129e1db5f146098061df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 72/96] fix: FBTree::begin() compiles

---
 FBTree/fbtree.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index 93811cb..aeb4962 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -465,11 +465,11 @@ class alignas(64) FBTree {
     assert(epoch_->guarded());
     LeafNode* node = leaf(root_track_[0]);
     assert(node != nullptr);
-    iterator it(node, 0, nullptr, 0);
-    it.version_ = control(node)->begin_read();
-    std::tie(it.kv_, it.pos_, it.version_) =
-      node->access(nullptr, 0, it.version_);
-    return it;
+    uint64_t version = control(node)->begin_read();
+    KVPair* kv;
+    int pos;
+    std::tie(kv, pos, version) = node->access(nullptr, 0, version);
+    return iterator(node, version, kv, pos);
   }
 
   iterator lower_bound(K key) {
@@ -1001,11 +1001,11 @@ class alignas(64) FBTree<String, V> {
     assert(epoch_->guarded());
     LeafNode* node = leaf(root_track_[0]);
     assert(node != nullptr);
-    iterator it(node, 0, nullptr, 0);
-    it.version_ = control(node)->begin_read();
-    std::tie(it.kv_, it.pos_, it.version_) =
-      node->access(nullptr, 0, it.version_);
-    return it;
+    uint64_t version = control(node)->begin_read();
+    KVPair* kv;
+    int pos;
+    std::tie(kv, pos, version) = node->access(nullptr, 0, version);
+    return iterator(node, version, kv, pos);
   }
 
   iterator lower_bound(String& key) {
-- 
2.43.0


From ffeb2b47dba85d05b59a99649962253fc9618094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 73/96] fix: FBTree: the embedded prefix holds the head of a
 longer prefix

---
 FBTree/inode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index 55dcd66..2cd2bdf 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -865,7 +865,8 @@ class alignas(Config::kAlignSize) InnerNode<String> {
     plen_ = common_prefix(fk, fs, lk, ls);
     if(!kExtentOpt) huge_ = anchors_[0];
     else extent_->huge(anchors_[0]);
-    if(plen_ <= kEmbedPrSize) { memcpy(tiny_, fk, plen_); }
+    // keys shorter than a prefix that can't be embedded are compared with its head
+    memcpy(tiny_, fk, plen_ <= kEmbedPrSize ? plen_ : kEmbedPrSize);
 
     for(int kid = 0; kid < knum_; kid++) {
       for(int fid = 0; fid < kFeatureSize; fid++) {
-- 
2.43.0


From 0929b16079add26a108949f5370606807058dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 74/96] fix: FBTree leaf access does not read slots that hold
 no pair

---
 FBTree/lnode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FBTree/lnode.h b/FBTree/lnode.h
index eaa7425..9eb4abf 100644
--- a/FBTree/lnode.h
+++ b/FBTree/lnode.h
@@ -137,7 +137,7 @@ class alignas(Config::kAlignSize) LeafNode {
   KVPair* access(int pos) {
     if(pos < 0 || pos >= kNodeSize) return nullptr;
     uint64_t mask = 0x01ul << pos;
-    if(mask & bitmap_ == 0) return nullptr;
+    if((mask & bitmap_) == 0) return nullptr;
     return kvs_[pos].load(load_order);
   }
 
@@ -596,7 +596,7 @@ class alignas(Config::kAlignSize) LeafNode<String, V> {
   KVPair* access(int pos) {
     if(pos < 0 || pos >= kNodeSize) return nullptr;
     uint64_t mask = 0x01ul << pos;
-    if(mask & bitmap_ == 0) return nullptr;
+    if((mask & bitmap_) == 0) return nullptr;
     return kvs_[pos].load(load_order);
   }
 
-- 
2.43.0


From 7375d2e3ca7b537939376e0fcd10dc1bb974e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 75/96] fix: FBTree leaf bound stays inside the leaf when the
 key is its last

---
 FBTree/lnode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FBTree/lnode.h b/FBTree/lnode.h
index 9eb4abf..8a565f8 100644
--- a/FBTree/lnode.h
+++ b/FBTree/lnode.h
@@ -441,7 +441,7 @@ class alignas(Config::kAlignSize) LeafNode {
       if(kv != nullptr && key == kv->key) {
         // find the key in current node
         if(upper) {
-          if(idx + 1 >= nkey) std::make_pair(nullptr, 0);
+          if(idx + 1 >= nkey) return std::make_pair(nullptr, 0);
           kv = kvs_[idx + 1].load(load_order);
           return std::make_pair(kv, idx + 1);
         }
@@ -921,7 +921,7 @@ class alignas(Config::kAlignSize) LeafNode<String, V> {
       if(kv != nullptr && key == kv->key) {
         // find the key in current node
         if(upper) {
-          if(idx + 1 >= nkey) std::make_pair(nullptr, 0);
+          if(idx + 1 >= nkey) return std::make_pair(nullptr, 0);
           kv = kvs_[idx + 1].load(load_order);
           return std::make_pair(kv, idx + 1);
         }
-- 
2.43.0


From fc841bd73c7b0c759f3589d1e0494e849c92992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 76/96] fix: FBTree inner node: no prefix when the last key is
 merged with an empty node

---
 FBTree/inode.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index 2cd2bdf..b52aa6e 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -446,7 +446,8 @@ class alignas(Config::kAlignSize) InnerNode {
         src = rnode->children_ + 1, dst = children_ + knum_;
         memmove64(src, dst, rnkey ? rnkey - 1 : 0, true);
         knum_ += rnkey - 1, rnode->knum_ = 0;
-        memory_shrink();
+        if(knum_ == 0) plen_ = 0;
+        else memory_shrink();
 
         // set meta information
         if(rnkey != 0) next_ = rnode->next_;
@@ -1064,7 +1065,8 @@ class alignas(Config::kAlignSize) InnerNode<String> {
           memmove64(src, dst, rnkey ? rnkey - 1 : 0, true);
           knum_ += rnkey - 1, rnode->knum_ = 0;
         }
-        content_rebuild();
+        if(knum_ == 0) plen_ = 0;
+        else content_rebuild();
 
         // set meta information
         if(rnkey != 0) next_ = rnode->next_;
-- 
2.43.0


From 140af386f141de22861b7814100d5573f6c47f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 77/96] fix: FBTree suffix search orders a key with zero bytes
 behind a shorter anchor

---
 FBTree/inode.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index b52aa6e..a672532 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -795,8 +795,9 @@ class alignas(Config::kAlignSize) InnerNode<String> {
       sep = anchors_[mid]->str + cmps;
       seps = anchors_[mid]->len - cmps;
 
-      if(seps < 0) return mid;
-      // current node has been modified, retry
+      // the missing bytes of a shorter anchor equal zero bytes of the key, so the key is greater
+      // (or current node has been modified, retry)
+      if(seps < 0) { lid = mid + 1; continue; }
 
       cmp = compare(kstr, ks, sep, seps);
       if(cmp < 0) { hid = mid; }
-- 
2.43.0


From 64464744638c5c249bd939a2fe678a644572e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 78/96] fix: FBTree string bound checks the version of the
 parent of the leaf it reached

---
 FBTree/fbtree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index aeb4962..ed41044 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -582,6 +582,7 @@ class alignas(64) FBTree<String, V> {
     Control* parent = control(node);
     uint64_t pversion = 0;
     while(!is_leaf(node)) {
+      parent = control(node);
       inner(node)->to_next(key, node, pversion);
       node_prefetch(node);
     }
-- 
2.43.0


From 230d75191df133fc0b998d3af54bf94eb378ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 79/96] fix: FBTree scans do not step over a sibling merged
 into the current leaf

---
 FBTree/fbtree.h | 68 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index ed41044..06ec4d8 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -70,19 +70,29 @@ class alignas(64) FBTree {
       // first, try to get the next kv in current node
       std::tie(next, pos, version) = node->access(kv_, pos_ + 1, version_);
 
+      // the pairs that were next to kv_ may have been moved to other nodes
+      bool moved = version != version_;
+
       // if we can't get the next kv in current node, go to its sibling node
       while(next == nullptr) {
-        node = (LeafNode*) (node->sibling());
-        if(node == nullptr) break;
-
-        // first try to optimistically access the first kv in sibling
-        version = ((Control*) node)->begin_read();
-        std::tie(next, pos, version) = node->access(nullptr, 0, version);
-        // left node in a consistent state, succeed to get next kv
-        if(((Control*) node_)->end_read(version_)) break;
+        LeafNode* right = (LeafNode*) (node->sibling());
+        uint64_t rversion = 0;
+        if(right != nullptr) {
+          // first try to optimistically access the first kv in sibling,
+          // enforce using bound to get next kv if pairs have been moved
+          if(!moved) rversion = ((Control*) right)->begin_read();
+          std::tie(next, pos, rversion) = right->access(moved ? kv_ : nullptr, 0, rversion);
+        }
 
-        // enforce using bound to get next kv
-        std::tie(next, pos, version) = node->access(kv_, 0, 0);
+        if(((Control*) node)->end_read(version)) {
+          // left node in a consistent state, succeed to go to its sibling
+          node = right, version = rversion;
+          if(node == nullptr) break;
+        } else {
+          // the kvs of the sibling may have been merged into left node
+          moved = true;
+          std::tie(next, pos, version) = node->access(kv_, 0, 0);
+        }
       }
 
       node_ = node, version_ = version, kv_ = next, pos_ = pos;
@@ -171,7 +181,9 @@ class alignas(64) FBTree {
     // because high_key is never removed unless merge,
     // so the boundary kv may be on the sibling node
     while(kv == nullptr) {
-      node = leaf(node)->sibling();
+      void* right = leaf(node)->sibling();
+      // the kvs of the sibling may have been merged into current node since
+      if(control(node)->end_read(version)) node = right;
       if(node == nullptr) break;
       // if kv is null, however node has sibling
       get_bound();
@@ -525,19 +537,29 @@ class alignas(64) FBTree<String, V> {
       // first, try to get the next kv in current node
       std::tie(next, pos, version) = node->access(kv_, pos_ + 1, version_);
 
+      // the pairs that were next to kv_ may have been moved to other nodes
+      bool moved = version != version_;
+
       // if we can't get the next kv in current node, go to its sibling node
       while(next == nullptr) {
-        node = (LeafNode*) (node->sibling());
-        if(node == nullptr) break;
-
-        // first try to optimistically access the first kv in sibling
-        version = ((Control*) node)->begin_read();
-        std::tie(next, pos, version) = node->access(nullptr, 0, version);
-        // left node in a consistent state, succeed to get next kv
-        if(((Control*) node_)->end_read(version_)) break;
+        LeafNode* right = (LeafNode*) (node->sibling());
+        uint64_t rversion = 0;
+        if(right != nullptr) {
+          // first try to optimistically access the first kv in sibling,
+          // enforce using bound to get next kv if pairs have been moved
+          if(!moved) rversion = ((Control*) right)->begin_read();
+          std::tie(next, pos, rversion) = right->access(moved ? kv_ : nullptr, 0, rversion);
+        }
 
-        // enforce using bound to get next kv
-        std::tie(next, pos, version) = node->access(kv_, 0, 0);
+        if(((Control*) node)->end_read(version)) {
+          // left node in a consistent state, succeed to go to its sibling
+          node = right, version = rversion;
+          if(node == nullptr) break;
+        } else {
+          // the kvs of the sibling may have been merged into left node
+          moved = true;
+          std::tie(next, pos, version) = node->access(kv_, 0, 0);
+        }
       }
 
       node_ = node, version_ = version, kv_ = next, pos_ = pos;
@@ -628,7 +650,9 @@ class alignas(64) FBTree<String, V> {
     // because high_key is never removed unless merge,
     // so the boundary kv may be on the sibling node
     while(kv == nullptr) {
-      node = leaf(node)->sibling();
+      void* right = leaf(node)->sibling();
+      // the kvs of the sibling may have been merged into current node since
+      if(control(node)->end_read(version)) node = right;
       if(node == nullptr) break;
       // if kv is null, however node has sibling
       get_bound();
-- 
2.43.0


From 0b9f358fff1cbca9669c664959303160af5e02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 80/96] Revert "fix: FBTree string bound checks the version of
 the parent of the leaf it reached"

The bound walks to the right on its own, so nothing could go wrong.
---
 FBTree/fbtree.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index 06ec4d8..f074d11 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -604,7 +604,6 @@ class alignas(64) FBTree<String, V> {
     Control* parent = control(node);
     uint64_t pversion = 0;
     while(!is_leaf(node)) {
-      parent = control(node);
       inner(node)->to_next(key, node, pversion);
       node_prefetch(node);
     }
-- 
2.43.0


From 6d06861c7227d3fea9a3e6abe37d8dd85bd00983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 81/96] fix: wormhmap_cuckoo must not recurse forever between
 full buckets

---
 wormhole/wh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index a339917..90ab618 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -993,9 +993,9 @@ wormhmap_cuckoo(struct wormhmap * const hmap, const u32 mid0,
     const u32 midy = wormhole_bswap(hash32) & hmap->mask;
     const u32 midt = (midx != mid0) ? midx : midy;
     if (midt != mid0) { // possible
-      // no penalty if moving someone back to its 1st hash location
-      const u32 depth1 = (midt == midx) ? depth : (depth - 1);
-      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth1)) {
+      // every move is charged: two full buckets that hold each other's entries
+      // would otherwise keep sending them home forever
+      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth - 1)) {
         bkt->e[i] = e0;
         sv[i] = s0;
         return true;
-- 
2.43.0


From d41b602f42088aac50147ad909060d03cf29ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 82/96] fix: btree insert must not read an element of its own
 tree after moving it

Inserting a copy of a stored element into a multiset or multimap
(s.insert(*s.begin())) passes a reference into a node.  When that node is
full, growing the root frees it and rebalancing or splitting moves another
element to the referenced place, so the insertion read freed memory or
inserted a different element.
---
 GoogleBTree/btree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GoogleBTree/btree.h b/GoogleBTree/btree.h
index 49310a2..20a4df2 100644
--- a/GoogleBTree/btree.h
+++ b/GoogleBTree/btree.h
@@ -2204,6 +2204,8 @@ btree<P>::internal_insert(iterator iter, const value_type &v) {
     ++iter.position;
   }
   if (iter.node->count() == iter.node->max_count()) {
+    // v may refer to an element of this tree, which making room moves or frees.
+    const value_type copy(v);
     // Make room in the leaf for the new item.
     if (iter.node->max_count() < kNodeValues) {
       // Insertion into the root where the root is smaller that the full node
@@ -2218,6 +2220,8 @@ btree<P>::internal_insert(iterator iter, const value_type &v) {
       rebalance_or_split(&iter);
       ++*mutable_size();
     }
+    iter.node->insert_value(iter.position, copy);
+    return iter;
   } else if (!root()->leaf()) {
     ++*mutable_size();
   }
-- 
2.43.0


From 9c100e36004341783dfb7e9b9568d6ff994aeda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 83/96] fix: B+ tree erase must not read the key from the tree
 while it erases

erase(it->first) on a multimap or multiset passes a reference into a leaf.
Each erase_one() shifts the leaf, so the next round compared against
whatever element had moved there and erased elements of other keys.
---
 STX/tlx/tlx/container/btree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index b106566..b8b675c 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -2434,10 +2434,15 @@ public:
     size_type erase(const key_type& key) {
         size_type c = 0;
 
-        while (erase_one(key))
+        if (!allow_duplicates)
+            return erase_one(key) ? 1 : 0;
+
+        // key may refer to a stored key, which the first erase_one() overwrites
+        const key_type erase_key(key);
+
+        while (erase_one(erase_key))
         {
             ++c;
-            if (!allow_duplicates) break;
         }
 
         return c;
-- 
2.43.0


From a7b32b96ec49cbd4d72a34f7f0f50afa544dc1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 84/96] fix: B+ tree insert must not read an element it has
 already moved

Inserting a copy of a stored element into a multimap or multiset
(s.insert(*s.begin())) passes a reference into a leaf.  Splitting or
shifting that leaf puts another element there before it is copied, so the
tree received a different element, possibly out of order.
---
 STX/tlx/tlx/container/btree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index b8b675c..541037c 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -1886,13 +1886,18 @@ public:
     //! Attempt to insert a key/data pair into the B+ tree. If the tree does not
     //! allow duplicate keys, then the insert may fail if it is already present.
     std::pair<iterator, bool> insert(const value_type& x) {
+        if (allow_duplicates) {
+            // x may refer to a stored element, which inserting moves
+            const value_type copy(x);
+            return insert_start(key_of_value::get(copy), copy);
+        }
         return insert_start(key_of_value::get(x), x);
     }
 
     //! Attempt to insert a key/data pair into the B+ tree. The iterator hint is
     //! currently ignored by the B+ tree insertion routine.
     iterator insert(iterator /* hint */, const value_type& x) {
-        return insert_start(key_of_value::get(x), x).first;
+        return insert(x).first;
     }
 
     //! Attempt to insert the range [first,last) of value_type pairs into the B+
-- 
2.43.0


From fe83bfe65c51d51e655cfbf08061202f9c152e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 85/96] fix: split at a string must find a last separator and
 skip the ones it splits at

---
 STX/tlx/tlx/string/split.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/string/split.cpp b/STX/tlx/tlx/string/split.cpp
index a8edf88..4799b73 100644
--- a/STX/tlx/tlx/string/split.cpp
+++ b/STX/tlx/tlx/string/split.cpp
@@ -116,6 +116,11 @@ std::vector<std::string>& split(
     {
         std::string::const_iterator it = str.begin();
         while (it != str.end()) {
+            if (into->size() + 1 >= limit)
+            {
+                into->emplace_back(it, str.end());
+                return *into;
+            }
             into->emplace_back(it, it + 1);
             ++it;
         }
@@ -124,7 +129,7 @@ std::vector<std::string>& split(
 
     std::string::const_iterator it = str.begin(), last = it;
 
-    for ( ; it + sep_size < str.end(); ++it)
+    while (static_cast<size_t>(str.end() - it) >= sep_size)
     {
         if (std::equal(sep, sep + sep_size, it))
         {
@@ -135,7 +140,11 @@ std::vector<std::string>& split(
             }
 
             into->emplace_back(last, it);
-            last = it + sep_size;
+            last = it += sep_size;
+        }
+        else
+        {
+            ++it;
         }
     }
 
-- 
2.43.0


From 2fdf3b89ab39a11be5e7a03632711c9e34e893a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 86/96] fix: equal_icase of a string and a C string must
 compare the ends

---
 STX/tlx/tlx/string/equal_icase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/equal_icase.cpp b/STX/tlx/tlx/string/equal_icase.cpp
index a45f44c..a9db162 100644
--- a/STX/tlx/tlx/string/equal_icase.cpp
+++ b/STX/tlx/tlx/string/equal_icase.cpp
@@ -38,7 +38,7 @@ bool equal_icase(const std::string& a, const char* b) {
     while (ai != a.end() && *b != 0 && to_lower(*ai) == to_lower(*b))
         ++ai, ++b;
 
-    return ai == a.end() && *b != 0;
+    return ai == a.end() && *b == 0;
 }
 
 bool equal_icase(const std::string& a, const std::string& b) {
-- 
2.43.0


From 2988987b91b455b183f7dd84add13c045348bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 87/96] fix: compare_icase must order a prefix before the
 longer string, like strcmp

---
 STX/tlx/tlx/string/compare_icase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/STX/tlx/tlx/string/compare_icase.cpp b/STX/tlx/tlx/string/compare_icase.cpp
index 881bcd5..2dce6ca 100644
--- a/STX/tlx/tlx/string/compare_icase.cpp
+++ b/STX/tlx/tlx/string/compare_icase.cpp
@@ -27,8 +27,8 @@ int compare_icase(const char* a, const char* b) {
         else return +1;
     }
 
-    if (*a == 0 && *b != 0) return +1;
-    else if (*a != 0 && *b == 0) return -1;
+    if (*a == 0 && *b != 0) return -1;
+    else if (*a != 0 && *b == 0) return +1;
     else return 0;
 }
 
@@ -46,8 +46,8 @@ int compare_icase(const char* a, const std::string& b) {
         else return +1;
     }
 
-    if (*a == 0 && bi != b.end()) return +1;
-    else if (*a != 0 && bi == b.end()) return -1;
+    if (*a == 0 && bi != b.end()) return -1;
+    else if (*a != 0 && bi == b.end()) return +1;
     else return 0;
 }
 
@@ -64,8 +64,8 @@ int compare_icase(const std::string& a, const char* b) {
         else return +1;
     }
 
-    if (ai == a.end() && *b != 0) return +1;
-    else if (ai != a.end() && *b == 0) return -1;
+    if (ai == a.end() && *b != 0) return -1;
+    else if (ai != a.end() && *b == 0) return +1;
     else return 0;
 }
 
@@ -83,8 +83,8 @@ int compare_icase(const std::string& a, const std::string& b) {
         else return +1;
     }
 
-    if (ai == a.end() && bi != b.end()) return +1;
-    else if (ai != a.end() && bi == b.end()) return -1;
+    if (ai == a.end() && bi != b.end()) return -1;
+    else if (ai != a.end() && bi == b.end()) return +1;
     else return 0;
 }
 
-- 
2.43.0


From e660deb5940669749c521b9309241f46ca5255a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 88/96] fix: less_icase_desc must be a strict order

---
 STX/tlx/tlx/string/less_icase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/less_icase.hpp b/STX/tlx/tlx/string/less_icase.hpp
index 64d4d9b..25ef147 100644
--- a/STX/tlx/tlx/string/less_icase.hpp
+++ b/STX/tlx/tlx/string/less_icase.hpp
@@ -47,7 +47,7 @@ struct less_icase_asc {
 //! std::map, etc.
 struct less_icase_desc {
     inline bool operator () (const std::string& a, const std::string& b) const {
-        return !less_icase(a, b);
+        return less_icase(b, a);
     }
 };
 
-- 
2.43.0


From 347853752fb8b2f82b762f078c3dd1dd5de10d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 89/96] fix: join_quoted must quote what split_quoted would not
 read back

---
 STX/tlx/tlx/string/join_quoted.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/join_quoted.cpp b/STX/tlx/tlx/string/join_quoted.cpp
index 7dd037c..e955851 100644
--- a/STX/tlx/tlx/string/join_quoted.cpp
+++ b/STX/tlx/tlx/string/join_quoted.cpp
@@ -22,7 +22,8 @@ std::string join_quoted(
         if (i != 0)
             out += sep;
 
-        if (vec[i].find(sep) != std::string::npos) {
+        if (vec[i].empty() || vec[i][0] == quote ||
+            vec[i].find(sep) != std::string::npos) {
             out += quote;
             for (std::string::const_iterator it = vec[i].begin();
                  it != vec[i].end(); ++it) {
-- 
2.43.0


From 7eca5402a97bfe187def05a79cfc31744465475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 90/96] fix: parse_si_iec_units must not accept a string
 without a number

---
 STX/tlx/tlx/string/parse_si_iec_units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/parse_si_iec_units.cpp b/STX/tlx/tlx/string/parse_si_iec_units.cpp
index 26a8e3a..06f7f01 100644
--- a/STX/tlx/tlx/string/parse_si_iec_units.cpp
+++ b/STX/tlx/tlx/string/parse_si_iec_units.cpp
@@ -20,7 +20,7 @@ bool parse_si_iec_units(
 
     char* endptr;
     *out_size = strtoul(str, &endptr, 10);
-    if (endptr == nullptr) return false;        // parse failed, no number
+    if (endptr == str) return false;            // parse failed, no number
 
     while (*endptr == ' ') ++endptr;            // skip over spaces
 
-- 
2.43.0


From def0e72ed299ce61a49606e1ef39f336ece27ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 91/96] fix: expand_environment_variables must not skip a
 character after ${...}

---
 STX/tlx/tlx/string/expand_environment_variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/expand_environment_variables.cpp b/STX/tlx/tlx/string/expand_environment_variables.cpp
index d06b6cd..96804ae 100644
--- a/STX/tlx/tlx/string/expand_environment_variables.cpp
+++ b/STX/tlx/tlx/string/expand_environment_variables.cpp
@@ -46,7 +46,7 @@ std::string& expand_environment_variables(std::string* sp) {
             // replace with value
             s.replace(dp, de - dp + 1, v);
 
-            p = dp + vlen + 1;
+            p = dp + vlen;
         }
         else if (dp + 1 < s.size() &&
                  (std::isalpha(s[dp + 1]) || s[dp + 1] == '_')) {
-- 
2.43.0


From 4ae3e00b0e4d190289c88be0912310efb0b84bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 92/96] fix: split_view must not return more parts than its
 limit

---
 STX/tlx/tlx/string/split_view.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/STX/tlx/tlx/string/split_view.hpp b/STX/tlx/tlx/string/split_view.hpp
index b456e44..e844eb0 100644
--- a/STX/tlx/tlx/string/split_view.hpp
+++ b/STX/tlx/tlx/string/split_view.hpp
@@ -39,10 +39,7 @@ void split_view(
     char sep, const std::string& str, Functor&& callback,
     std::string::size_type limit = std::string::npos) {
 
-    if (limit == 0) {
-        callback(StringView(str.begin(), str.end()));
-        return;
-    }
+    if (limit == 0) return;
 
     std::string::size_type count = 0;
     auto it = str.begin(), last = it;
@@ -51,7 +48,7 @@ void split_view(
     {
         if (*it == sep)
         {
-            if (count == limit)
+            if (count + 1 >= limit)
             {
                 callback(StringView(last, str.end()));
                 return;
-- 
2.43.0


From f9565b7e3a94f871db8f4dcbcb4988309771d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 93/96] fix: ssprintf must restart its arguments before
 formatting again

---
 STX/tlx/tlx/string/ssprintf.cpp         | 2 ++
 STX/tlx/tlx/string/ssprintf_generic.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/STX/tlx/tlx/string/ssprintf.cpp b/STX/tlx/tlx/string/ssprintf.cpp
index cb08f80..483d495 100644
--- a/STX/tlx/tlx/string/ssprintf.cpp
+++ b/STX/tlx/tlx/string/ssprintf.cpp
@@ -27,6 +27,8 @@ std::string ssprintf(const char* fmt, ...) {
 
     if (size >= static_cast<int>(out.size())) {
         // error, grow buffer and try again.
+        va_end(args);
+        va_start(args, fmt);
         out.resize(size);
         size = std::vsnprintf(
             const_cast<char*>(out.data()), out.size() + 1, fmt, args);
diff --git a/STX/tlx/tlx/string/ssprintf_generic.hpp b/STX/tlx/tlx/string/ssprintf_generic.hpp
index e8cd1e9..deec199 100644
--- a/STX/tlx/tlx/string/ssprintf_generic.hpp
+++ b/STX/tlx/tlx/string/ssprintf_generic.hpp
@@ -44,6 +44,8 @@ String ssprintf_generic(const char* fmt, ...) {
 
     if (size >= static_cast<int>(out.size())) {
         // error, grow buffer and try again.
+        va_end(args);
+        va_start(args, fmt);
         out.resize(size);
         size = std::vsnprintf(
             const_cast<char*>(out.data()), out.size() + 1, fmt, args);
-- 
2.43.0


From 83c08c37b40a9e9923f57a7dca0a62857b96202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 94/96] fix: levenshtein_algorithm must charge the given cost
 for leading insertions

---
 STX/tlx/tlx/string/levenshtein.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/string/levenshtein.hpp b/STX/tlx/tlx/string/levenshtein.hpp
index 2f6a732..a487367 100644
--- a/STX/tlx/tlx/string/levenshtein.hpp
+++ b/STX/tlx/tlx/string/levenshtein.hpp
@@ -83,7 +83,7 @@ size_t levenshtein_algorithm(const char* a, size_t a_size,
 
     // fill this row with ascending ordinals.
     for (size_t i = 0; i < a_size + 1; i++) {
-        thisrow[i] = i;
+        thisrow[i] = i * Param::cost_insert_delete;
     }
 
     // compute distance
@@ -93,7 +93,7 @@ size_t levenshtein_algorithm(const char* a, size_t a_size,
         std::swap(lastrow, thisrow);
 
         // compute new row
-        thisrow[0] = j;
+        thisrow[0] = j * Param::cost_insert_delete;
 
         for (size_t i = 1; i < a_size + 1; i++)
         {
-- 
2.43.0


From 4368a4182e25e9426dd9c6ee430a2b0bd46e6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 95/96] fix: parse_uri_form_data_decode must not read beyond
 its end

---
 STX/tlx/tlx/string/parse_uri_form_data.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/string/parse_uri_form_data.hpp b/STX/tlx/tlx/string/parse_uri_form_data.hpp
index 35aa334..781f4bb 100644
--- a/STX/tlx/tlx/string/parse_uri_form_data.hpp
+++ b/STX/tlx/tlx/string/parse_uri_form_data.hpp
@@ -34,8 +34,9 @@ std::string parse_uri_form_data_decode(
         out.reserve(end - str);
     char a, b;
 
-    while (*str && str != end) {
-        if (*str == '%' && (a = str[1]) != 0 && (b = str[2]) != 0) {
+    while (str != end && *str) {
+        if (*str == '%' && (end == nullptr || end - str > 2) &&
+            (a = str[1]) != 0 && (b = str[2]) != 0) {
             if (a >= '0' && a <= '9')
                 a -= '0';
             else if (a >= 'a' && a <= 'f')
-- 
2.43.0


From 5ff73e15cd1f8b3151e6525ada9c848c5d1b75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 96/96] fix: appendline must not clear the state of a stream
 that already failed

---
 STX/tlx/tlx/string/appendline.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/STX/tlx/tlx/string/appendline.cpp b/STX/tlx/tlx/string/appendline.cpp
index fb1c7d3..a9e1208 100644
--- a/STX/tlx/tlx/string/appendline.cpp
+++ b/STX/tlx/tlx/string/appendline.cpp
@@ -15,6 +15,12 @@
 namespace tlx {
 
 std::istream& appendline(std::istream& is, std::string& str, char delim) {
+    // like getline, extract nothing from a stream that already failed
+    if (!is.good()) {
+        is.setstate(std::ios_base::failbit);
+        return is;
+    }
+
     size_t size = str.size();
     size_t capacity = str.capacity();
     std::streamsize rest = capacity - size;
-- 
2.43.0

