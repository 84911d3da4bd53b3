From bcc5dea5202779043e8f01739e6032e4b001752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:50 +0000
Subject: [PATCH 01/49] fix: SegmentTree keeps min/max/sum of partially updated
 nodes correct

Ancestors of a partially covered node kept stale aggregates, a negative factor
did not exchange minimum and maximum, and leaves pushed their tags to children
that do not exist (out-of-bounds write).
---
 src/include/graph/SegmentTree.h | 70 +++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..2442f02 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void pullUp(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -80,21 +81,25 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
-    if (hasMulFlag[ls]) {
-      mulFlag[ls] *= mulFlag[o];
-    } else {
-      hasMulFlag[ls] = true;
-      mulFlag[ls] = mulFlag[o];
+    // multiplying by a negative value exchanges the extremes
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
+    if (l != r) {
+      if (hasMulFlag[ls]) {
+        mulFlag[ls] *= mulFlag[o];
+      } else {
+        hasMulFlag[ls] = true;
+        mulFlag[ls] = mulFlag[o];
+      }
+      if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
+
+      if (hasMulFlag[rs]) {
+        mulFlag[rs] *= mulFlag[o];
+      } else {
+        hasMulFlag[rs] = true;
+        mulFlag[rs] = mulFlag[o];
+      }
+      if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
     }
-    if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
-
-    if (hasMulFlag[rs]) {
-      mulFlag[rs] *= mulFlag[o];
-    } else {
-      hasMulFlag[rs] = true;
-      mulFlag[rs] = mulFlag[o];
-    }
-    if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
   }
 
   if (hasAddFlag[o]) {
@@ -102,21 +107,34 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] += addFlag[o];
     maxVal[o] += addFlag[o];
     sumVal[o] += addFlag[o] * (r - l + 1);
-    if (hasAddFlag[ls]) {
-      addFlag[ls] += addFlag[o];
-    } else {
-      hasAddFlag[ls] = true;
-      addFlag[ls] = addFlag[o];
-    }
-    if (hasAddFlag[rs]) {
-      addFlag[rs] += addFlag[o];
-    } else {
-      hasAddFlag[rs] = true;
-      addFlag[rs] = addFlag[o];
+    if (l != r) {
+      if (hasAddFlag[ls]) {
+        addFlag[ls] += addFlag[o];
+      } else {
+        hasAddFlag[ls] = true;
+        addFlag[ls] = addFlag[o];
+      }
+      if (hasAddFlag[rs]) {
+        addFlag[rs] += addFlag[o];
+      } else {
+        hasAddFlag[rs] = true;
+        addFlag[rs] = addFlag[o];
+      }
     }
   }
 }
 
+template <typename ValueType>
+void SegmentTree<ValueType>::pullUp(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -188,6 +206,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 template <typename ValueType>
@@ -208,6 +227,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From a1e90cc0b3cc67df22d4040152484a4bee3da60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:19 +0000
Subject: [PATCH 02/49] fix: Queue::first and Queue::last report an empty queue

They read through front()/back() of an empty std::queue (undefined behaviour)
while every other accessor of the containers reports the error.
---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From 415d7b24d17944607145dea36ed0917ab6d2f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:21 +0000
Subject: [PATCH 03/49] fix: reading a Vector rejects text that is not a value

"{1,}" or "{1,x}" left the stream failed, so the last separator was seen again
and again and the loop pushed values for ever.
---
 src/include/containers/Vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..9d68328 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -413,7 +413,9 @@ std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
     is.unget();
     while (true) {
       ValueType value;
-      is >> value;
+      if (!(is >> value)) {
+        error("A vector should contain valid values");
+      }
       vec.push(value);
       is >> ch;
       if (is.eof()) {
-- 
2.43.0


From 5a804da25e14e8781e0841bb25511f5b6dd8afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:16 +0000
Subject: [PATCH 04/49] fix: BST::pre and BST::suf find the neighbour of any
 node

They looked only below the node itself, so the answer was wrong (usually null)
unless the node happened to be the root.
---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..0f3fd55 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From 16dd90ccc6bd87095cbd31cf31902ed3bbfd2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:17 +0000
Subject: [PATCH 05/49] fix: BST::erase keeps the remaining tree and the
 removed node consistent

Removing the largest node followed a null child, removing an inner node left
the parent links of its children on the removed node, and the removed node kept
stale links so that it could not be inserted again.
---
 src/graph/BST.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 0f3fd55..6504222 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -88,7 +88,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
@@ -100,7 +100,10 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
+  x->ch[0] = x->ch[1] = x->fa = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From 2c909bec2f042be0259289885ce8e033c1955312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:14 +0000
Subject: [PATCH 06/49] fix: Tree::LCA no longer reads ancestors a lifted node
 does not have

---
 src/graph/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..3481abb 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -43,7 +43,7 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
-    if (x->ancestor[i] != y->ancestor[i]) {
+    if (i < (int)x->ancestor.size() && x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
   }
-- 
2.43.0


From ca8d869943b59629b3f077baab812adae2e915c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:43 +0000
Subject: [PATCH 07/49] fix: destroying a Vertex unlinks its edges from its
 neighbours

---
 src/graph/Vertex.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index 26e068e..d203812 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -38,9 +38,19 @@ Vertex::Vertex(const Vertex& src) {
 }
 
 Vertex::~Vertex() {
+  // a vertex takes all its edges with it, so no neighbour keeps a dangling one
   for (std::list<Edge*>::iterator it = outEdges.begin(); it != outEdges.end();
-       ++it)
-    if (*it != nullptr) delete *it;
+       ++it) {
+    if (*it == nullptr) continue;
+    (*it)->getTo()->inEdges.remove(*it);
+    delete *it;
+  }
+  for (std::list<Edge*>::iterator it = inEdges.begin(); it != inEdges.end();
+       ++it) {
+    if (*it == nullptr) continue;
+    (*it)->getFrom()->outEdges.remove(*it);
+    delete *it;
+  }
   inEdges.clear();
   outEdges.clear();
 }
-- 
2.43.0


From bc5b8c5ef8773a453bc20d550d22b04b306b817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:19 +0000
Subject: [PATCH 08/49] fix: Trie iteration backtracks to the parent's next arc

---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..e73383a 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -95,11 +95,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From 9c1030af9e258b96684cc30ec928ffc43e85fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:20 +0000
Subject: [PATCH 09/49] fix: each Trie uses its own character mapping

---
 src/include/string_utils/Trie.h | 24 +++++++++++++++---------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..811d4c1 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -155,23 +155,26 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, int (*mapChar)(char))
+          : iterator(str, mapChar, 0) {}
+      iterator(const std::string* str, int (*mapChar)(char), std::size_t index)
+          : index_(index), str_(str), mapChar_(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar_(iter.mapChar_) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
-        return mapChar(ch);
+        return mapChar_(ch);
       }
 
       iterator& operator++() {
@@ -188,9 +191,12 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar_)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, mapChar); }
+    iterator end() {
+      return iterator(&underlying, mapChar, underlying.size());
+    }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index e73383a..a84e99c 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From b19014d02224a5635cbbf78c932e1310824828ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:59 +0000
Subject: [PATCH 10/49] fix: Trie::remove of an absent word stays inside the
 arrays

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index a84e99c..ed53e03 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -209,7 +209,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From adadec0398b163ddc08c456c3bbcb430cc82f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:52 +0000
Subject: [PATCH 11/49] fix: Trie supports mappings of more than 26 characters

---
 src/include/string_utils/Trie.h | 1 +
 src/string_utils/Trie.cpp       | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 811d4c1..ddbbdf3 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -139,6 +139,7 @@ class Trie {
   char (*mapInt)(int);
   std::queue<int> tailList;
   int size_;
+  int maxCode;  // the largest code of an arc so far
 
   bool retrieve(const std::string&);
   void insert_(const std::string&);
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ed53e03..ffb0dc7 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -1,5 +1,6 @@
 #include "string_utils/Trie.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include "utils/error.h"
@@ -55,6 +56,7 @@ Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   this->mapChar = mapChar;
   this->mapInt = mapInt;
   size_ = 0;
+  maxCode = 1;
 }
 
 bool Trie::retrieve(const std::string& word) {
@@ -73,7 +75,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; *offset <= maxCode; (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -107,6 +109,7 @@ void Trie::insert_(const std::string& word) {
   int ind = 0;
   for (int i : adapter) {
     ind++;
+    if (i > maxCode) maxCode = i;
     int next = base.get(n) + i;
     if (check.getWithCheck(next) == -1) {
       setTail(n, next, word.substr(ind));
@@ -118,6 +121,7 @@ void Trie::insert_(const std::string& word) {
       int prefix_length = prefix.size();
 
       for (int j : StringAdapter(prefix, mapChar)) {
+        if (j > maxCode) maxCode = j;
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -126,6 +130,7 @@ void Trie::insert_(const std::string& word) {
 
       int char_val_tail = mapChar(tail_temp[prefix_length]);
       int char_val_new = mapChar(word[ind + prefix_length]);
+      maxCode = std::max(maxCode, std::max(char_val_tail, char_val_new));
 
       int q = checkAvailable(char_val_tail, char_val_new);
       base.set(next, q);
@@ -254,7 +259,7 @@ inline int Trie::checkAvailable(int i) {
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
+  for (int i = 1; i <= maxCode; i++) {
     if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
-- 
2.43.0


From 08941d86702ac8d9a1a149abb750da1c158ec17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:19 +0000
Subject: [PATCH 12/49] fix: JSON object keys are kept verbatim and escaped
 only when dumped

---
 src/json/Json.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..09e7999 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -11,6 +11,7 @@
 namespace cuhksz {
 namespace {
 JSONObject parse_next(const std::string &str, size_t &offset);
+std::string parse_raw_string(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
@@ -27,7 +28,12 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    JSONObject Key = parse_next(str, offset);
+    skip_whitespaces(str, offset);
+    if (str[offset] != '\"') {
+      error("Object: Expected string key, found '" +
+            std::string(1, str[offset]) + "'");
+    }
+    std::string Key = parse_raw_string(str, offset);
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -36,7 +42,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[Key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -85,8 +91,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_raw_string(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
     if (c == '\\') {
@@ -139,7 +144,12 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     }
   }
   ++offset;
-  String = val;
+  return val;
+}
+
+JSONObject parse_string(const std::string &str, size_t &offset) {
+  JSONObject String;
+  String = parse_raw_string(str, offset);
   return String;
 }
 
@@ -246,7 +256,8 @@ JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : std::string()) =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -439,7 +450,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) +
+              "\" : " + p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 51acf2490290a6a8f62a74ac2014a7f11bdf04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:55 +0000
Subject: [PATCH 13/49] fix: loadJSON reports unterminated strings instead of
 reading past the text

---
 src/json/Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 09e7999..3e7ce0d 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -94,6 +94,9 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
 std::string parse_raw_string(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+    if (offset >= str.length()) {
+      error("String: Expected closing quote, nothing remaining.");
+    }
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
-- 
2.43.0


From 2a4f87f32e82ebfe20f90d98414a9e92827976e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:57 +0000
Subject: [PATCH 14/49] fix: loadJSON reads exponents completely and stops
 after the number

---
 src/json/Json.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 3e7ce0d..2655983 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -163,7 +163,7 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   bool isDouble = false;
   int exp = 0;
   while (true) {
-    c = str[offset++];
+    c = str[offset];
     if ((c == '-') || (c >= '0' && c <= '9')) {
       val += c;
     } else if (c == '.') {
@@ -172,14 +172,20 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
     } else {
       break;
     }
+    offset++;
   }
   if (c == 'E' || c == 'e') {
-    if (offset == str.length()) {
+    c = str[++offset];
+    if (c == '-' || c == '+') {
+      if (c == '-') exp_str += '-';
+      offset++;
+    }
+    if (offset >= str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
-    if (c == '-') {
-      exp_str += '-';
+    if (!isdigit((unsigned char)str[offset])) {
+      error("Number: Expected a number for exponent, found '" +
+            std::string(1, str[offset]) + "'");
     }
     while (true) {
       c = str[offset];
@@ -198,8 +204,6 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
   }
-  if (c != 0) --offset;
-
   if (isDouble)
     Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
   else if (!exp_str.empty())
-- 
2.43.0


From 6cee065ab72dbffe576ac4634fa51915ad3b5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 15/49] fix: loadJSON reports a string that ends after a
 backslash

---
 src/json/Json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 2655983..d34d33a 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -94,7 +94,8 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
 std::string parse_raw_string(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
-    if (offset >= str.length()) {
+    // a backslash needs another character, everything else the closing quote
+    if (offset + (c == '\\') >= str.length()) {
       error("String: Expected closing quote, nothing remaining.");
     }
     if (c == '\\') {
-- 
2.43.0


From c9b95a3a9debd9a3509d04043bf873518fa4c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:39 +0000
Subject: [PATCH 16/49] fix: const JSON ranges iterate instead of recursing
 forever

---
 src/include/json/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 64967c3..39b5e76 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -28,8 +28,12 @@ class JSONIterator {
   typename Container::iterator end() {
     return object ? object->end() : typename Container::iterator();
   }
-  typename Container::const_iterator begin() const { return begin(); }
-  typename Container::const_iterator end() const { return end(); }
+  typename Container::const_iterator begin() const {
+    return object ? object->begin() : typename Container::const_iterator();
+  }
+  typename Container::const_iterator end() const {
+    return object ? object->end() : typename Container::const_iterator();
+  }
 };
 
 /**
-- 
2.43.0


From 88d770d05eeb71607b5f915baba67be4352130b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 17/49] fix: assigning a JSONObject itself or one of its
 elements keeps the value

---
 src/json/Json.cpp | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index d34d33a..e7f3617 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -4,6 +4,7 @@
 #include <deque>
 #include <map>
 #include <string>
+#include <utility>
 
 #include "string_utils/StringCast.h"
 #include "utils/error.h"
@@ -342,33 +343,15 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
-  Data = src.Data;
-  objType = src.objType;
-  src.Data.Map = nullptr;
-  src.objType = Type::Null;
+  // src may be this object or one of its elements: take its value first
+  JSONObject value(std::move(src));
+  std::swap(Data, value.Data);
+  std::swap(objType, value.objType);
   return *this;
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
-  return *this;
+  return *this = JSONObject(src);
 }
 
 JSONObject &JSONObject::operator[](const char key[]) {
-- 
2.43.0


From a19715f4cd3ae08b49b687f9a32788c4c04f9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:42 +0000
Subject: [PATCH 18/49] fix: const JSONObject::at reports a missing key instead
 of adding it

---
 src/json/Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index e7f3617..55c68ee 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -374,7 +374,7 @@ JSONObject &JSONObject::operator[](int index) {
 JSONObject &JSONObject::at(const std::string &key) { return operator[](key); }
 
 const JSONObject &JSONObject::at(const std::string &key) const {
-  return Data.Map->operator[](key);
+  return Data.Map->at(key);
 }
 
 JSONObject &JSONObject::at(unsigned index) { return operator[](index); }
-- 
2.43.0


From ab7ac4f6436a721b3a9d66f039ca2ca9cdf19fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:44 +0000
Subject: [PATCH 19/49] fix: assigning nullptr to a JSONObject makes it null

---
 src/include/json/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 39b5e76..78182e0 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -249,8 +249,10 @@ class JSONObject {
    * @param value Value of the string
    * @return *this
    */
-  template <typename T, typename std::enable_if<std::is_convertible<
-                            T, std::string>::value>::type * = nullptr>
+  template <typename T,
+            typename std::enable_if<
+                std::is_convertible<T, std::string>::value &&
+                !std::is_same<T, std::nullptr_t>::value>::type * = nullptr>
   JSONObject operator=(T value) {
     setType(Type::String);
     *Data.String = std::string(value);
-- 
2.43.0


From b76a96a723280e135b5cb98fcaa5ef85adadef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:53 +0000
Subject: [PATCH 20/49] fix: base64Decode keeps NUL bytes

---
 src/base64/base64_functions.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..2ca4ae9 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,11 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
-  for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
+  // bits that do not fill a byte are padding
+  for (std::size_t i = 0; i + 8 <= binaryDecodeStr.length(); i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From 0402fb43486fa686c57bff7e98c6d8fef02b5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 21/49] fix: urlDecode does not read past a truncated escape

---
 src/network/network_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..6b16847 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -51,7 +51,7 @@ std::string urlDecode(const std::string str) {
   for (size_t i = 0; i < length; i++) {
     if (str[i] == '+') {
       escaped << ' ';
-    } else if (str[i] == '%') {
+    } else if (str[i] == '%' && i + 2 < length) {
       int high = hexToInt(str[++i]);
       int low = hexToInt(str[++i]);
 
-- 
2.43.0


From 591b1e3277d0448af3e314052422dcdca30c873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:32 +0000
Subject: [PATCH 22/49] fix: BigNum *=, abs and postfix ++/-- compile and
 return values

---
 src/include/math_utils/BigNum.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..df0e149 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -196,7 +196,7 @@ class BigNum {
     return ret;
   }
 
-  BigNum& operator*=(const BigNum& other) const {
+  BigNum& operator*=(const BigNum& other) {
     *this = mul(*this, other);
     return *this;
   }
@@ -219,7 +219,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator++(int) {  // postfix ++
+  BigNum operator++(int) {  // postfix ++
     BigNum ret = *this;
     ++(*this);
     return ret;
@@ -230,7 +230,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator--(int) {
+  BigNum operator--(int) {
     BigNum ret = *this;
     --(*this);
     return ret;
@@ -295,12 +295,13 @@ class BigNum {
     return ret;
   }
 
-  BigNum& abs() const {
-    sign = 1;
-    return *this;
+  BigNum abs() const {
+    BigNum ret = *this;
+    ret.sign = 1;
+    return ret;
   }
 
-  friend BigNum& abs(const BigNum& a) { return a.abs(); }
+  friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
     std::string s;
-- 
2.43.0


From 2abd1b454af8b5333040f2da5690830e359ffa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:58 +0000
Subject: [PATCH 23/49] fix: copying a BigNum copies its unused digits too

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index df0e149..bb384b2 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -43,7 +43,7 @@ class BigNum {
   BigNum(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
   }
 
   ~BigNum() {}
@@ -52,7 +52,7 @@ class BigNum {
   BigNum& operator=(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memmove(elem, src.elem, MAX_SIZE * sizeof(int));
     return *this;
   }
 
-- 
2.43.0


From db691f17a40f8ac0979b42b99e89aedac65e5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:39 +0000
Subject: [PATCH 24/49] fix: BigNum compares magnitudes regardless of sign when
 subtracting

---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index bb384b2..508b7e4 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -238,9 +238,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int greater = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? greater : -greater;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? greater : -greater;
     return 0;
   }
 
-- 
2.43.0


From e6a01bc54ee17a73f55b85c71468b65310133a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:02 +0000
Subject: [PATCH 25/49] fix: BigNum keeps zero and leading zeros canonical

---
 src/include/math_utils/BigNum.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 508b7e4..2f27ae7 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -24,8 +24,8 @@ class BigNum {
     len = 0;
     sign = x < 0 ? -1 : 1;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int64_t i = std::abs(x); i; i /= BigNum::base)
-      elem[len++] = i % BigNum::base;
+    for (int64_t i = x; i; i /= BigNum::base)
+      elem[len++] = std::abs((int)(i % BigNum::base));
   }
 
   BigNum(const std::string& s) {
@@ -38,6 +38,8 @@ class BigNum {
     if ((s.size() - (s[0] == '-')) % BigNum::order)
       elem[len++] = std::stoi(
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    while (len > 0 && !elem[len - 1]) len--;
+    if (len == 0) sign = 1;
   }
 
   BigNum(const BigNum& src) {
@@ -210,7 +212,7 @@ class BigNum {
   // other
   BigNum operator-() const {
     BigNum ret = *this;
-    ret.sign = -ret.sign;
+    if (ret.len > 0) ret.sign = -ret.sign;
     return ret;
   }
 
@@ -308,6 +310,7 @@ class BigNum {
     std::string s;
     if (sign < 0) s += "-";
     for (int i = len - 1; i >= 0; i--) s += std::to_string(elem[i]);
+    if (len == 0) s += "0";
     return s;
   }
 
-- 
2.43.0


From 302510f03ec3e39df04f29692ca001266a422ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 26/49] fix: BigNum products have the sign of both factors and
 stay inside the array

---
 src/include/math_utils/BigNum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 2f27ae7..a1b20db 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -256,7 +256,7 @@ class BigNum {
         ret[i] -= BigNum::base;
         ret[i + 1]++;
       }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
@@ -290,11 +290,11 @@ class BigNum {
         ret[i + j] += a[i] * b[j];
       }
     for (int i = 0; i < ret.len; i++) {
-      ret[i + 1] += ret[i] / BigNum::base;
+      if (i + 1 < MAX_SIZE) ret[i + 1] += ret[i] / BigNum::base;
       ret[i] %= BigNum::base;
     }
-    if (ret[ret.len]) ret.len++;
-    ret.sign = a.sign;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
+    ret.sign = a.sign * b.sign;
     return ret;
   }
 
-- 
2.43.0


From 27ee32d444077016507f6b01cd34b057810b2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:46 +0000
Subject: [PATCH 27/49] fix: Fraction /= divides

---
 src/include/math_utils/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..a31bf50 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -91,7 +91,7 @@ class Fraction {
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From ca3bb222840c0ee899cc7dddb18fba1ed93f11d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 28/49] fix: int - Fraction and int / Fraction use the int as
 left operand

---
 src/include/math_utils/Fraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index a31bf50..05d5912 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -56,7 +56,7 @@ class Fraction {
   }
 
   friend Fraction operator-(int value, Fraction const &self) {
-    return self - value;
+    return Fraction(value) - self;
   }
 
   void operator-=(Fraction const &other) {
@@ -87,7 +87,7 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-- 
2.43.0


From 7b32c79133a9b432870a897a78f5b03e71a485cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:14 +0000
Subject: [PATCH 29/49] fix: Matrix *= frees its storage once and products are
 not leaked

---
 src/include/math_utils/Matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..fb63d50 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -69,12 +69,12 @@ class Matrix {
 
   Matrix operator*(const Matrix& other) const {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    return *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    return ret;
   }
 
   Matrix& operator*=(const Matrix& other) {
@@ -84,8 +84,8 @@ class Matrix {
       for (int j = 0; j < ret->col; j++)
         for (int k = 0; k < col; k++)
           (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
     *this = *ret;
+    delete ret;
     return *this;
   }
 
-- 
2.43.0


From e9fa244e9202372372e812b5ebe2208219484c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:16 +0000
Subject: [PATCH 30/49] fix: Matrix pow squares, handles exponent 0 and idMat
 is usable

---
 src/include/math_utils/Matrix.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index fb63d50..0d2ffe9 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -133,19 +133,18 @@ class Matrix {
     }
   }
 
-  friend Matrix& idMat(int n) {
-    Matrix* ret = new Matrix(n);
-    for (int i = 0; i < n; i++) (*ret)[i][i] = 1;
-    return *ret;
+  static Matrix idMat(int n) {
+    Matrix ret(n);
+    for (int i = 0; i < n; i++) ret[i][i] = 1;
+    return ret;
   }
 
-  friend Matrix& pow(const Matrix& src, unsigned int n) {
-    if (n == 1) {
-      Matrix* ret = new Matrix(src);
-      return *ret;
-    }
+  friend Matrix pow(const Matrix& src, unsigned int n) {
+    if (n == 0) return idMat(src.row);
+    if (n == 1) return src;
 
-    Matrix& ret = pow(src, n >> 1);
+    Matrix ret = pow(src, n >> 1);
+    ret *= ret;
     if (n & 1) ret *= src;
     return ret;
   }
-- 
2.43.0


From 0c4762ae25aec99b5e84d59b0570c6df78dd3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:21 +0000
Subject: [PATCH 31/49] fix: a cleared Matrix can be assigned to and destroyed

---
 src/include/math_utils/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 0d2ffe9..801a4d0 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -122,6 +122,8 @@ class Matrix {
   void clear() {
     for (int i = 0; i < row; i++) delete[] elem[i];
     delete[] elem;
+    elem = nullptr;
+    row = col = 0;
   }
 
   void deepCopy(const Matrix& src) {
-- 
2.43.0


From dbab5f9f192ca2ea643de0197bc867e902222efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 32/49] fix: genericBinaryPow squares the base once more than
 the exponent needs

The superfluous square can leave the range of the type although the result
fits: genericBinaryPow(Fraction(1, 2), 17) ended with a divide by zero error.
---
 src/include/math_utils/math_functions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 918a454..026e318 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -422,8 +422,9 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    // one square too many could leave the range of BaseType
+    if (exp != 0) base *= base;
   }
   return result;
 }
@@ -443,8 +444,9 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    // one square too many could leave the range of BaseType
+    if (exp != 0) base *= base;
   }
   return result;
 }
-- 
2.43.0


From 4bd2983791869bc1100a305646c8180c8f23863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:20 +0000
Subject: [PATCH 33/49] fix: permutation(n, 0) is 1

---
 src/include/math_utils/math_functions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 026e318..87040b3 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -478,9 +478,8 @@ IntType factorial(IntType n) {
 template <typename IntType>
 IntType permutation(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for permutation.");
-  IntType result = n;
-  n--;
-  for (; r > 1; r--, n--) {
+  IntType result = 1;
+  for (; r > 0; r--, n--) {
     result *= n;
   }
   return result;
-- 
2.43.0


From 07f514d7d807f02d541ac5f1468acbe0f501c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 34/49] fix: variance of an int array overflows and cancels

The squares were computed in int (wrong from 46341 on) and the difference
of the two large terms lost the result; use the two-pass formula of the
other overloads.
---
 src/math_utils/statistics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math_utils/statistics.cpp b/src/math_utils/statistics.cpp
index cb50fad..51ffb88 100644
--- a/src/math_utils/statistics.cpp
+++ b/src/math_utils/statistics.cpp
@@ -15,11 +15,12 @@ double variance(const double* arr, int size) {
 
 double variance(const int* arr, int size) {
   double sum_square = 0.0;
+  double means = mean(arr, size);
   for (int i = 0; i < size; i++) {
-    sum_square += arr[i] * arr[i];
+    double mean_diff = arr[i] - means;
+    sum_square += mean_diff * mean_diff;
   }
-  double means = mean(arr, size);
-  return sum_square / size - means * means;
+  return sum_square / size;
 }
 
 double stddev(const double* arr, int size) {
-- 
2.43.0


From a91ed3eba4079e2f7567eee51872fb78026ff355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:04 +0000
Subject: [PATCH 35/49] fix: Random::nextInt leaves the range when max - min
 exceeds INT_MAX

nextInt(-2000000000, 2000000000) computed the span, and nextInt() the sum,
in int; both overflow.
---
 src/random/Random.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..af0123f 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -11,12 +11,15 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  // the span of two ints does not always fit an int
+  std::int64_t span = std::int64_t(max) - min;
+  return (int)(std::int64_t(randomGenerator() % std::uint64_t(span)) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  return (int)(std::int64_t(randomGenerator() %
+                            (std::uint64_t(intMax) + 1 - intMin)) +
+               intMin);
 }
 
 int Random::nextInt(int max) {
-- 
2.43.0


From ea1f48e82a616df643512c7aee43ecc6e6cbf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:29 +0000
Subject: [PATCH 36/49] fix: Random::nextDouble can return the excluded upper
 bound

The engine outputs close to 2^64 are rounded to 1.0 times the span.
---
 src/random/Random.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index af0123f..b7cad14 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,6 @@
 #include "random/Random.h"
 
+#include <cmath>
 #include <cstdlib>
 #include <ctime>
 
@@ -29,7 +30,10 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  double result = (double)randomGenerator() / int64Max * (max - min) + min;
+  // rounding may reach `max`, which is excluded
+  if (min < max && result >= max) result = std::nextafter(max, min);
+  return result;
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From 99fdc2594d21be89d0db4704383401197d97c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:14 +0000
Subject: [PATCH 37/49] fix: BinomialDistribution had a wrong table for n >= 34
 (overflow of the binomial coefficient, underflow of the powers)

---
 src/random/BinomialDistribution.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index db9727a..60c4770 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -1,7 +1,6 @@
 #include "random/BinomialDistribution.h"
 
 #include <cmath>
-#include "math_utils/math_functions.h"
 #include "utils/error.h"
 
 namespace cuhksz {
@@ -17,8 +16,12 @@ void BinomialDistribution::init(int n, double p) {
   double threshold = 0;
   double p_complement = 1 - p_;
   for (int i = 0; i < n_; i++) {
-    threshold +=
-        binomial(n_, i) * std::pow(p_, i) * std::pow(p_complement, n_ - i);
+    // in logarithms: the coefficient and the powers soon leave their ranges
+    double logProbability = std::lgamma(n_ + 1.0) - std::lgamma(i + 1.0) -
+                            std::lgamma(n_ - i + 1.0) +
+                            (n_ - i) * std::log(p_complement);
+    if (i > 0) logProbability += i * std::log(p_);
+    threshold += std::exp(logProbability);
     lookup_table[i] = threshold;
   }
   lookup_table[n_] = 1;
-- 
2.43.0


From 049c02f0f306291a9bd18fbf51da2961fdf802b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:38 +0000
Subject: [PATCH 38/49] fix: PoissonDistribution::next did not terminate for
 lambda above 745 nor for random numbers above the rounded sum

---
 src/include/random/PoissonDistribution.h |  2 ++
 src/random/PoissonDistribution.cpp       | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/include/random/PoissonDistribution.h b/src/include/random/PoissonDistribution.h
index 26a6e82..48640fc 100644
--- a/src/include/random/PoissonDistribution.h
+++ b/src/include/random/PoissonDistribution.h
@@ -53,8 +53,10 @@ class PoissonDistribution : public Distribution<int> {
  private:
   double lambda_;
   double expLambda;
+  int parts;
 
   void init(double lambda);
+  int nextPart();
 };
 }  // namespace cuhksz
 
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index a1c518a..6139b51 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -9,17 +9,28 @@ void PoissonDistribution::init(double lambda) {
     error("Invalid parameter for PoissonDistribution");
   }
   lambda_ = lambda;
-  expLambda = std::exp(-lambda_);
+  // exp(-lambda) vanishes for a large lambda, so sum up several variables
+  parts = (int)std::ceil(lambda_ / 500);
+  expLambda = std::exp(-lambda_ / parts);
 }
 
 int PoissonDistribution::next() {
+  int sum = 0;
+  for (int i = 0; i < parts; i++) sum += nextPart();
+  return sum;
+}
+
+int PoissonDistribution::nextPart() {
   double rnd = randomGenerator->nextDouble();
+  double lambda = lambda_ / parts;
   int result = 0;
   double probability = expLambda;
   double threshold = expLambda;
   while (rnd >= threshold) {
     result += 1;
-    probability *= lambda_ / result;
+    probability *= lambda / result;
+    // rounding may keep the sum of all probabilities below `rnd`
+    if (result > lambda && threshold + probability <= threshold) break;
     threshold += probability;
   }
   return result;
-- 
2.43.0


From ffb05ec6190e133bc3a705835dafa03a15407cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:40 +0000
Subject: [PATCH 39/49] fix: NegativeBinomialDistribution::next did not
 terminate when p^r underflows nor for random numbers above the rounded sum

---
 .../random/NegativeBinomialDistribution.h     |  2 ++
 src/random/NegativeBinomialDistribution.cpp   | 22 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/include/random/NegativeBinomialDistribution.h b/src/include/random/NegativeBinomialDistribution.h
index c3927f8..24ea8be 100644
--- a/src/include/random/NegativeBinomialDistribution.h
+++ b/src/include/random/NegativeBinomialDistribution.h
@@ -69,8 +69,10 @@ class NegativeBinomialDistribution : public Distribution<int> {
   double p_;
 
   double pPowr;
+  int rPart;
 
   void init(int r, double p);
+  int nextPart(int r, double pPowr);
 };
 }  // namespace cuhksz
 
diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 6adf7e5..ad8a82d 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -1,5 +1,6 @@
 #include "random/NegativeBinomialDistribution.h"
 
+#include <algorithm>
 #include <cmath>
 #include "math_utils/math_functions.h"
 #include "utils/error.h"
@@ -11,10 +12,22 @@ void NegativeBinomialDistribution::init(int r, double p) {
   }
   r_ = r;
   p_ = p;
-  pPowr = genericBinaryPow(p, r);
+  // p^r vanishes for a large r, so sum up variables with smaller ones
+  rPart = r;
+  if (r * std::log(p) < -600) {
+    rPart = std::max(1, (int)(-600 / std::log(p)));
+  }
+  pPowr = genericBinaryPow(p, rPart);
 }
 
 int NegativeBinomialDistribution::next() {
+  int sum = 0;
+  int r = r_;
+  for (; r > rPart; r -= rPart) sum += nextPart(rPart, pPowr);
+  return sum + nextPart(r, r == rPart ? pPowr : genericBinaryPow(p_, r));
+}
+
+int NegativeBinomialDistribution::nextPart(int r, double pPowr) {
   double rnd = randomGenerator->nextDouble();
 
   int result = 0;
@@ -23,7 +36,12 @@ int NegativeBinomialDistribution::next() {
   double threshold = pPowr;
   while (rnd >= threshold) {
     result += 1;
-    probability *= p_complement * (r_ + result - 1) / result;
+    probability *= p_complement * (r + result - 1) / result;
+    // rounding may keep the sum of all probabilities below `rnd`
+    if (result * p_ > r * p_complement &&
+        threshold + probability <= threshold) {
+      break;
+    }
     threshold += probability;
   }
   return result;
-- 
2.43.0


From e9cc8501ce915013f8dd6f5c2b2fcd3c50f1fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:46 +0000
Subject: [PATCH 40/49] fix: disToSegment of a segment without length was not a
 number

---
 src/geometry/Line.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/Line.cpp b/src/geometry/Line.cpp
index 9611d3d..34bf66c 100644
--- a/src/geometry/Line.cpp
+++ b/src/geometry/Line.cpp
@@ -43,7 +43,8 @@ double disToLine(Point<2> P, Line l) {
 
 double disToSegment(Point<2> P, Line l) {
   GVector<2> v1 = l.v, v2 = P - l.A, v3 = P - l.A - l.v;
-  if (dcmp(v1 * v2) < 0)
+  // the second case: a segment without length is a point
+  if (dcmp(v1 * v2) < 0 || !(v1.len() > 0))
     return v2.len();
   else if (dcmp(v1 * v3) > 0)
     return v3.len();
-- 
2.43.0


From 7799bafff175ef18f4157eed71c00855b5901a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 41/49] fix: kmpSearch wrote outside its table for an empty
 pattern and read outside the text for a huge start

---
 src/algorithm/kmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..0c55f15 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -6,6 +6,9 @@
 namespace cuhksz {
 int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
+  if (start > base.size()) return -1;
+  if (pattern.empty()) return start;
+
   // generate next table
   int psize = pattern.size();
   std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
-- 
2.43.0


From c47867a05cada96b6d695a87629c09ef97e9ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:50 +0000
Subject: [PATCH 42/49] fix: stringCast returned an uninitialised value for
 text without a value

---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..52a35ce 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -21,7 +21,7 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    T casted = T();
     try {
       strStream >> casted;
     } catch (std::exception &e) {
-- 
2.43.0


From 77c8a632b57c8cf61b427f0cb5aee429978b403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 43/49] fix: stringCast kept a reference to a string that may
 be gone when it is converted

---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 52a35ce..fb823a5 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -33,7 +33,7 @@ class stringCast {
   T operator()() const { return static_cast<T>(*this); }
 
  private:
-  const std::string &m_from;
+  const std::string m_from;
 };
 }  // namespace cuhksz
 #endif  // CUHKSZ_STRINGUTILS_STRINGCAST
-- 
2.43.0


From 13b92381579ab4a666e4d892a8c3503aaf4e2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:05 +0000
Subject: [PATCH 44/49] fix: StudentTDistribution::next returned infinity or
 NaN when the chi-squared value rounds to zero

---
 src/random/StudentTDistribution.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/random/StudentTDistribution.cpp b/src/random/StudentTDistribution.cpp
index 74a9745..f5f551d 100644
--- a/src/random/StudentTDistribution.cpp
+++ b/src/random/StudentTDistribution.cpp
@@ -17,6 +17,11 @@ void StudentTDistribution::init(double r) {
 double StudentTDistribution::next() {
   NormalDistribution normal(*randomGenerator);
   ChiSquaredDistribution chi2(*randomGenerator, r_);
-  return normal.next() * std::sqrt(r_ / chi2.next());
+  double numerator = normal.next();
+  double denominator;
+  do {
+    denominator = chi2.next();
+  } while (denominator <= 0);  // rounded to zero
+  return numerator * std::sqrt(r_ / denominator);
 }
 }  // namespace cuhksz
-- 
2.43.0


From 713d696548c989049cac41faf2e1f0135fd03d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:34 +0000
Subject: [PATCH 45/49] fix: Point +, -, * and / leaked their result

---
 src/include/geometry/Point.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..6e83f34 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -44,15 +44,14 @@ class Point {
 
   double operator[](int const index) const { return elem[index]; }
 
-  // TODO: what about init a null Point then assign to elem[i] + other.elem[i]
   Point operator+(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] + other.elem[i];
     return ret;
   }
 
   Point operator-(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] - other.elem[i];
     return ret;
   }
@@ -75,7 +74,7 @@ class Point {
   }
 
   Point operator*(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] * constant;
     return ret;
   }
@@ -90,7 +89,7 @@ class Point {
   }
 
   Point operator/(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] / constant;
     return ret;
   }
-- 
2.43.0


From 8bb6644e2eeba76ed9a02e98309b7e0f100a2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:36 +0000
Subject: [PATCH 46/49] fix: const JSONObject::at on a value of another type
 dereferenced a garbage pointer

---
 src/json/Json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 55c68ee..130e059 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <deque>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -374,12 +375,16 @@ JSONObject &JSONObject::operator[](int index) {
 JSONObject &JSONObject::at(const std::string &key) { return operator[](key); }
 
 const JSONObject &JSONObject::at(const std::string &key) const {
+  if (objType != Type::Object)
+    throw std::out_of_range("JSONObject::at: not an object");
   return Data.Map->at(key);
 }
 
 JSONObject &JSONObject::at(unsigned index) { return operator[](index); }
 
 const JSONObject &JSONObject::at(unsigned index) const {
+  if (objType != Type::Array)
+    throw std::out_of_range("JSONObject::at: not an array");
   return Data.List->at(index);
 }
 
-- 
2.43.0


From ee93f275ed9548f80fc25bb5d920d6670d1bf3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:39 +0000
Subject: [PATCH 47/49] fix: the root of an empty Tree and the height of a new
 Node were uninitialised

---
 src/include/graph/Tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/graph/Tree.h b/src/include/graph/Tree.h
index 4ead6d6..8964692 100644
--- a/src/include/graph/Tree.h
+++ b/src/include/graph/Tree.h
@@ -30,7 +30,7 @@ class Node {
   std::vector<Node*> son;
   int id;
   int val;
-  int height;
+  int height = 0;
 };
 
 class Tree {
@@ -43,7 +43,7 @@ class Tree {
   int getDistance(Node* x, Node* y);
 
  private:
-  Node* root;
+  Node* root = nullptr;
   std::vector<Node*> nodes;
 };
 
-- 
2.43.0


From 41c8ccee0ffe6eb2703bf500f1844c066355c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:01 +0000
Subject: [PATCH 48/49] fix: disToSegment measures to the end of a short
 segment

The projections on the direction vector were compared with an absolute
tolerance; with a direction of length 1e-7 a point nine units behind the
segment was taken to be beside it and its distance reported as 0.
---
 src/geometry/Line.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/geometry/Line.cpp b/src/geometry/Line.cpp
index 34bf66c..8673f9d 100644
--- a/src/geometry/Line.cpp
+++ b/src/geometry/Line.cpp
@@ -2,17 +2,6 @@
 
 #include "geometry/Line.h"
 
-#define EPS 1e-6
-
-namespace {
-
-int dcmp(double x) {
-  if (std::fabs(x) < EPS) return 0;
-  return x > 0 ? 1 : -1;
-}
-
-}  // namespace
-
 namespace cuhksz {
 
 Line::Line(Point<2> A, GVector<2> v) : A(A), v(v) {}
@@ -44,14 +33,12 @@ double disToLine(Point<2> P, Line l) {
 double disToSegment(Point<2> P, Line l) {
   GVector<2> v1 = l.v, v2 = P - l.A, v3 = P - l.A - l.v;
   // the second case: a segment without length is a point
-  if (dcmp(v1 * v2) < 0 || !(v1.len() > 0))
+  if (v1 * v2 < 0 || !(v1.len() > 0))
     return v2.len();
-  else if (dcmp(v1 * v3) > 0)
+  else if (v1 * v3 > 0)
     return v3.len();
   else
     return std::fabs(cross(v1, v2) / v1.len());
 }
 
 }  // namespace cuhksz
-
-#undef EPS
-- 
2.43.0


From 3896d962a5c8045e9099259904e661c102d83577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:08 +0000
Subject: [PATCH 49/49] fix: Point *= and /= by one of the point's own
 coordinates

The factor was taken by reference, so p /= p[0] changed it half way.
---
 src/include/geometry/Point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index 6e83f34..b1c659e 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -83,7 +83,7 @@ class Point {
     return self * constant;
   }
 
-  Point& operator*=(double const& constant) {
+  Point& operator*=(double const constant) {
     for (int i = 0; i < N; i++) elem[i] *= constant;
     return *this;
   }
@@ -94,7 +94,7 @@ class Point {
     return ret;
   }
 
-  Point& operator/=(double const& constant) {
+  Point& operator/=(double const constant) {
     for (int i = 0; i < N; i++) elem[i] /= constant;
     return *this;
   }
-- 
2.43.0

