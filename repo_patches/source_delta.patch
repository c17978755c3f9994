From dfb6ca0f92a4295b8d38efca2b1efb6f768448aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 001/109] fix: StringFrag::find looks only inside the fragment

---
 common/string_frag.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..7d1b0f3 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -95,7 +95,14 @@ size_t StringFrag::find(char c, size_t pos) const {
     if (stored_()) {
         return contents_.find(c, pos);
     }
-    return src_.find(c, begin_ + pos) - begin_;
+    if (pos >= len_) {
+        return std::string::npos;
+    }
+    size_t found = src_.find(c, begin_ + pos);
+    if (found == std::string::npos || found >= begin_ + len_) {
+        return std::string::npos;
+    }
+    return found - begin_;
 }
 
 
-- 
2.43.0


From 5bdcc3b2e8ccbd0c0c3600b0e0aafffcecf7da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 002/109] fix: StringFrag::append keeps the contents of a
 fragment that refers to its source

---
 common/string_frag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 7d1b0f3..2f970b4 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
-- 
2.43.0


From c4273a269bd8b63f3529897b9b0bbd054bb07cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 003/109] fix: a fragment of a StringFrag that stores its
 contents is that part of the contents

---
 common/string_frag.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..2559a16 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,13 +56,17 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(
+            sf.stored_()
+            ? sf.contents_.substr(begin, len)
+            : sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))
+        ),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
-        src_(sf.src_),
-        begin_(sf.begin_ + begin),
-        len_(len)
+        src_(sf.stored_() ? contents_ : sf.src_),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
+        len_(sf.stored_() ? std::string::npos : len)
     {
 #if STRING_FRAG_VALIDATION
         if (len == std::string::npos) {
-- 
2.43.0


From c1065f84cb1226bb15a305ec648cf3634f754b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 004/109] fix: an edge that gains tags is found by the tag
 masks already used on the lattice

---
 common/lattice.cpp | 44 ++++++++++++++++++++++++++++++++++++++++++++
 common/lattice.hpp | 11 +++++++++++
 2 files changed, 55 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..395fc3a 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -210,6 +210,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+                updateTagMaskIndexes_(edge.descriptor, oldTags);
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
@@ -942,6 +943,49 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     }
 }
 
+template <typename EdgeRange>
+void Lattice::insertIntoTagMaskIndex_(
+    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& index,
+    const EdgeRange& allEdges,
+    Graph::edge_descriptor edge
+) {
+    // the index is kept in the order of all the edges of the vertex
+    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>::iterator iter = index.begin();
+    BOOST_FOREACH(Graph::edge_descriptor otherEdge, allEdges) {
+        if (otherEdge == edge) {
+            index.insert(iter, edge);
+            return;
+        }
+        if (iter != index.end() && *iter == otherEdge) {
+            ++iter;
+        }
+    }
+}
+
+void Lattice::updateTagMaskIndexes_(
+    Graph::edge_descriptor edge,
+    const LayerTagCollection& oldTags
+) {
+    Graph::vertex_descriptor source = boost::source(edge, graph_);
+    Graph::vertex_descriptor target = boost::target(edge, graph_);
+    for (
+        TagMasksHash::iterator iter = indexedTagMasks_.begin();
+        iter != indexedTagMasks_.end();
+        ++iter
+    ) {
+        if (matches(graph_[edge].tagList, iter->first) && !matches(oldTags, iter->first)) {
+            insertIntoTagMaskIndex_(
+                graph_[source].outEdgesIndex[iter->second],
+                boost::out_edges(source, graph_),
+                edge);
+            insertIntoTagMaskIndex_(
+                graph_[target].inEdgesIndex[iter->second],
+                boost::in_edges(target, graph_),
+                edge);
+        }
+    }
+}
+
 void Lattice::resizeImplicitEdgesStructures_() {
     implicitOutEdges_.resize(allText_.length()+1);
     hiddenImplicitOutEdges_.resize(allText_.length()+1);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..c1195f5 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -742,6 +742,17 @@ private:
      */
     int nLooseVertices_;
 
+    /**
+     * Inserts an edge that has just gained tags to the indexes of the masks it has started to match.
+     */
+    void updateTagMaskIndexes_(Graph::edge_descriptor edge, const LayerTagCollection& oldTags);
+
+    template <typename EdgeRange>
+    void insertIntoTagMaskIndex_(
+        std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& index,
+        const EdgeRange& allEdges,
+        Graph::edge_descriptor edge);
+
     void resizeImplicitEdgesStructures_();
 
     VertexDescriptor priorVertex_(VertexDescriptor vertex);
-- 
2.43.0


From d9439f091664ac47ba403c579ecda423dc6448fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 005/109] fix: Lattice::getPathWithSkipping follows the skipped
 edge, not the one after it

---
 common/lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.hpp b/common/lattice.hpp
index c1195f5..9675524 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -924,7 +924,7 @@ Lattice::EdgeSequence Lattice::getPathWithSkipping(
                 while (iter.hasNext()) {
                     EdgeDescriptor currentOne = iter.next();
                     if (skippingPredicate(*this, currentOne)) {
-                        bestOne = iter.next();
+                        bestOne = currentOne;
                     }
                 }
                 pathBuilder.addEdge(bestOne);
-- 
2.43.0


From c9304ceb370663fafb1e46e98bf8e62611144f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 006/109] fix: Lattice::correctionInsert works at the end of
 the text and with no text

---
 common/lattice.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 395fc3a..d5244ad 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -824,8 +824,18 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 }
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
+    if (text.empty()) {
+        return;
+    }
     VertexDescriptor from = here;
     VertexDescriptor to;
+    // the inserted symbols must not be taken for the symbols that follow
+    InOutEdgesIterator nextEdges(outEdges(here, symbolMask_));
+    bool nextEdgeFound = nextEdges.hasNext();
+    EdgeDescriptor nextEdge;
+    if (nextEdgeFound) {
+        nextEdge = nextEdges.next();
+    }
     std::string::iterator iter = text.begin();
     std::string::iterator end = text.end();
     while (iter != end) {
@@ -840,11 +850,8 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
         );
         from = to;
     }
-    try {
-        EdgeDescriptor nextEdge
-            = firstOutEdge(here, symbolMask_);
+    if (nextEdgeFound) {
         addEdge(to, getEdgeTarget(nextEdge), getEdgeAnnotationItem(nextEdge), getSymbolTag());
-    } catch (NoEdgeException) {
     }
 }
 
-- 
2.43.0


From 26904919d9e985eb3c23819020a797aebe5e5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 007/109] fix: Lattice::correctionReplace inserts only the rest
 of a longer text

---
 common/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index d5244ad..6ef9a80 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -889,7 +889,7 @@ void Lattice::correctionReplace(VertexDescriptor from, VertexDescriptor to, std:
         std::string::iterator end = text.end();
         while (iter != end) {
             if (from == to) {
-                return correctionInsert(from, text);
+                return correctionInsert(from, std::string(iter, end));
             }
             std::string symbol;
             utf8::append(utf8::next(iter, end), std::back_inserter(symbol));
-- 
2.43.0


From 53f95ee4b3c020904fd3268477d3fd11620ced01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 008/109] fix: symbol edges added again or with other data are
 neither doubled nor lose that data

---
 common/lattice.cpp | 47 +++++++++++++++++++++++++++++++++++++++++-----
 common/lattice.hpp | 14 ++++++++++++++
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 6ef9a80..54c4ac9 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -217,9 +217,21 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             }
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
+        } else if (
+            tags == oldTags
+            && canBeImplicitEdge_(from, to, annotationItem, tags, sequence, score, ruleId, treeChoice)
+        ) {
+            // the same symbol edge has been added again
+            return edge;
         } else {
+            // the implicit edge is replaced with an explicit one
             implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
+            std::vector<EdgeDescriptor> & sameEdges = (insertResult.first)->second;
+            sameEdges.erase(std::find(sameEdges.begin(), sameEdges.end(), edge));
+            --edgeCounterHash_[vpair];
+            if (oldScore > score) {
+                score = oldScore;
+            }
             needToAddEdge = true;
         }
     }
@@ -247,10 +259,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
 
         // updating implicit edges, where applicable
         if (
-            !isLooseVertex(from)
-            && !isLooseVertex(to)
-            && tags == getSymbolTag()
-            && from + (int) symbolLength_(from) == to
+            canBeImplicitEdge_(from, to, annotationItem, tags, sequence, score, ruleId, treeChoice)
             && !implicitOutEdges_[from]
         ) {
             implicitOutEdges_.set(from, true);
@@ -339,6 +348,34 @@ Lattice::EdgeDescriptor Lattice::addEdge(
 
 }
 
+bool Lattice::canBeImplicitEdge_(
+    VertexDescriptor from,
+    VertexDescriptor to,
+    const AnnotationItem& annotationItem,
+    const LayerTagCollection& tags,
+    const EdgeSequence& sequence,
+    Score score,
+    int ruleId,
+    int treeChoice
+) {
+    if (
+        isLooseVertex(from)
+        || isLooseVertex(to)
+        || tags != getSymbolTag()
+        || from >= (int) allText_.length()
+        || from + (int) symbolLength_(from) != to
+        || !sequence.empty()
+        || score != 0.0
+        || ruleId != -1
+        || treeChoice != -1
+    ) {
+        return false;
+    }
+    const std::string symbol(allText_, from, to - from);
+    return annotationItem == AnnotationItem("'" + symbol)
+        || annotationItem == AnnotationItem("'" + symbol, StringFrag(symbol));
+}
+
 Lattice::EdgeDescriptor Lattice::addPartitionToEdge(
     EdgeDescriptor edge,
     LayerTagCollection tags,
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 9675524..91d3bc8 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -742,6 +742,20 @@ private:
      */
     int nLooseVertices_;
 
+    /**
+     * Checks if the edge carries nothing more than the symbol edge of the text, so that
+     * it can be stored as an implicit edge.
+     */
+    bool canBeImplicitEdge_(
+        VertexDescriptor from,
+        VertexDescriptor to,
+        const AnnotationItem& annotationItem,
+        const LayerTagCollection& tags,
+        const EdgeSequence& sequence,
+        Score score,
+        int ruleId,
+        int treeChoice);
+
     /**
      * Inserts an edge that has just gained tags to the indexes of the masks it has started to match.
      */
-- 
2.43.0


From 15de29aed09e938796f9b2e028448952f5a28f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 009/109] fix: parallel symbol edges of loose vertices do not
 write outside the visibility flags

---
 common/lattice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 54c4ac9..c1c9647 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -250,9 +250,13 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
                 EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                if (!isLooseVertex(getEdgeSource(ed))) {
+                    visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
-- 
2.43.0


From 27068d7a2e64f36f55e954b8325666de515ceaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 010/109] fix: an edge sequence that goes back to the beginning
 of the text keeps all its edges

---
 common/lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index c1c9647..9f5482b 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1240,6 +1240,7 @@ Lattice::EdgeSequence::Builder& Lattice::EdgeSequence::Builder::addEdge(
         } else if (lattice_.getEdgeBeginIndex(edge) == end) {
             end = lattice_.getEdgeEndIndex(edge);
         } else {
+            begin = 1;
             end = 0;
         }
     } else {
-- 
2.43.0


From 43680411499038d5cfc52bdf793bc6d113ee309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 011/109] fix: default symbol edges are found again by the
 annotation they report

A default symbol edge reports its character as its text, but was registered
without it: discarding it, or adding a partition to it, made another edge.
---
 common/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 9f5482b..8306d80 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -58,7 +58,7 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
         addEdge(
             vd,
             vd + symbol.length(),
-            AnnotationItem("'" + symbol),
+            AnnotationItem("'" + symbol, StringFrag(symbol)),
             getSymbolTag());
         vd += symbol.length();
     }
-- 
2.43.0


From 64ac01185e80ce7fe959d7eaeb553e1bdd9e5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 012/109] fix: annotation items with an empty or failed
 attribute are not equal to items without it

---
 common/annotation_item.cpp | 27 ++-------------------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index d13c08f..84f1d7f 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -43,29 +43,6 @@ size_t AnnotationItem::resize_(size_t size) {
 }
 
 bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
-    size_t smallerSize = values_.size();
-    size_t largerSize  = other.values_.size();
-    const std::vector<zvalue>* largerVector = &(other.values_);
-
-    if (smallerSize > largerSize) {
-        smallerSize = other.values_.size();
-        largerSize  = values_.size();
-        largerVector = &values_;
-    }
-
-   for (size_t i = 0; i < smallerSize; ++i) {
-       if (values_[i] != other.values_[i]) {
-           return false;
-       }
-   }
-
-   for (size_t i = smallerSize; i < largerSize; ++i) {
-       char * valStr = zvalue_to_string((*largerVector)[i]);
-       if (strcmp(valStr, "") != 0) {
-           delete [] valStr;
-           return false;
-       }
-   }
-
-   return true;
+    return attributes_ == other.attributes_
+        && values_ == other.values_;
 }
-- 
2.43.0


From c2a12d5441412fed6a4486d1fcf6bf637aaaaf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 013/109] fix: attribute values are integers of the whole int
 range

---
 common/zvalue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/zvalue.hpp b/common/zvalue.hpp
index 0ab36ce..a512e40 100644
--- a/common/zvalue.hpp
+++ b/common/zvalue.hpp
@@ -34,7 +34,7 @@ class zobject;
 #define TRUEP(z)    ( !( NULLP((z)) || ZEROP((z)) ) )
 
 #define ZVALUE_TO_INTEGER(z) ( reinterpret_cast<zint_t>(z) >> 1 )
-#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>(((i) << 1) | 1) )
+#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>((static_cast<zint_t>(i) * 2) | 1) )
 #define INTEGERP(z)          ( reinterpret_cast<zint_t>(z) & 1 )
 
 #define ZVALUE_TO_ZOBJECT(z) ( reinterpret_cast<zobject*>(z) )
-- 
2.43.0


From d01a22825b7e7c017bfecfd88cf2646d35ce97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 014/109] fix: too many layer tags or attributes are reported,
 not asserted

---
 common/annotation_item.cpp         | 6 +++++-
 common/annotation_item_manager.cpp | 5 +++--
 common/layer_tag_collection.cpp    | 6 ++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index 84f1d7f..0da5c35 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -1,5 +1,7 @@
 #include "annotation_item.hpp"
 
+#include "psi_exception.hpp"
+
 bool AnnotationItem::operator==(const AnnotationItem& other) const {
     return getCategory() == other.getCategory()
         && getText() == other.getText()
@@ -35,10 +37,12 @@ long AnnotationItem::getHash() const {
 }
 
 size_t AnnotationItem::resize_(size_t size) {
+    if (size > attributes_.size()) {
+        throw PsiException("Too many different attributes of annotations.");
+    }
     if (size > values_.size()) {
         values_.resize(size);
     }
-    assert (size <= attributes_.size()); // TODO resize if size > 64
     return attributes_.size();
 }
 
diff --git a/common/annotation_item_manager.cpp b/common/annotation_item_manager.cpp
index 87def98..2fe7512 100644
--- a/common/annotation_item_manager.cpp
+++ b/common/annotation_item_manager.cpp
@@ -69,11 +69,12 @@ void AnnotationItemManager::setValue(
     std::string attribute,
     zvalue value
 ) {
-    m_.insert(StringBimapItem(attribute, m_.size()));
-    size_t ix = m_.left.at(attribute);
+    StringBimap::left_const_iterator iter = m_.left.find(attribute);
+    size_t ix = iter == m_.left.end() ? m_.size() : iter->second;
     if (ix >= annotationItem.values_.size()) {
         annotationItem.resize_(ix + 1);
     }
+    m_.insert(StringBimapItem(attribute, ix));
     annotationItem.values_[ix] = value;
     annotationItem.attributes_[ix] = true;
 }
diff --git a/common/layer_tag_collection.cpp b/common/layer_tag_collection.cpp
index 248c1b9..0743496 100644
--- a/common/layer_tag_collection.cpp
+++ b/common/layer_tag_collection.cpp
@@ -1,6 +1,6 @@
 #include "layer_tag_collection.hpp"
 
-#include <cassert>
+#include "psi_exception.hpp"
 
 
 bool LayerTagCollection::isEmpty() {
@@ -28,7 +28,9 @@ unsigned long LayerTagCollection::getHash() const {
 }
 
 size_t LayerTagCollection::resize_(size_t size) {
-    assert (size <= v_.size()); // TODO resize if size > 64
+    if (size > v_.size()) {
+        throw PsiException("Too many different layer tags.");
+    }
     return v_.size();
 }
 
-- 
2.43.0


From 1b089ce4b928e7cbed683350f2e3d03d3aab175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 015/109] fix: the least integer and strings hashing to it are
 handled as attribute values

---
 common/zvalue.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/common/zvalue.cpp b/common/zvalue.cpp
index f0d6895..b87d067 100644
--- a/common/zvalue.cpp
+++ b/common/zvalue.cpp
@@ -358,11 +358,12 @@ char* itoa(int i)
     char buf[16];
     char *s = buf;
     int neg = 0;
-    if (i<0) { i*=-1; neg=1; }
-    if (0==i) { *s++ = '0'; }
-    while (i>0) {
-        *s++ = '0' + i%10;
-        i/=10;
+    unsigned int u = i;
+    if (i<0) { u = -u; neg=1; }
+    if (0==u) { *s++ = '0'; }
+    while (u>0) {
+        *s++ = '0' + u%10;
+        u/=10;
     }
     char* result = new char[s-buf+1+neg];
     char* r = result;
@@ -404,7 +405,7 @@ int string_hash_function(const char* s)
     int h = 29830;
     while (*s) h = (h << 1) ^ ((int) *(s++));
 
-    return (h < 0 ? -h : h);
+    return (h < 0 ? -(h + 1) : h);
 }
 
 
-- 
2.43.0


From e788a9beae73d55d52d24807102b4396ab2b2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 016/109] fix: the PSI writer writes all the text between
 edges, also when it has escaped or multi-byte characters

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 150 +++++++++---------
 formats/psi/psi_writer/psi_lattice_writer.hpp |  10 +-
 2 files changed, 81 insertions(+), 79 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..df96443 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -6,6 +6,7 @@
 #include <boost/assign/list_of.hpp>
 
 #include "logging.hpp"
+#include "string_helpers.hpp"
 
 std::string PsiLatticeWriter::getFormatName() {
     return "PSI";
@@ -56,7 +57,7 @@ void PsiLatticeWriter::Worker::doRun() {
     PsiQuoter quoter;
     std::map<Lattice::EdgeDescriptor, int> edgeOrdinalMap;
     int ordinal = 0;
-    std::string latticeTextCovered;
+    size_t latticeTextCovered = 0;
 
     setAlignments_(boost::assign::list_of(2)(7)(13)(26)(48)(60));
 
@@ -89,97 +90,94 @@ void PsiLatticeWriter::Worker::doRun() {
 }
 
 
-void PsiLatticeWriter::Worker::printEdge(
-    Lattice::EdgeDescriptor edge,
+void PsiLatticeWriter::Worker::printText_(
+    size_t end,
     PsiQuoter &quoter,
     std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
     int &ordinal,
-    std::string &latticeTextCovered
+    size_t &latticeTextCovered
 ) {
-    Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
-    Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
-
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        size_t i = latticeTextCovered.length();
-        while (i < lattice_.getVertexRawCharIndex(source)) {
-            try {
-
-                std::vector<std::string> outputCells;
-
-                Lattice::EdgeDescriptor rawEdge = lattice_.firstOutEdge(
-                    lattice_.getVertexForRawCharIndex(i),
-                    lattice_.getSymbolMask()
-                );
-
-                ++ordinal;
-                edgeOrdinalMap[rawEdge] = ordinal;
-                std::stringstream ordinalSs;
-                ordinalSs << std::right << std::setfill('0') << std::setw(2);
-                ordinalSs << ordinal;
-                outputCells.push_back(ordinalSs.str());
-
-                std::stringstream beginningSs;
-                beginningSs << std::right << std::setfill('0') << std::setw(4);
-                beginningSs << i;
-                outputCells.push_back(beginningSs.str());
-
-                std::stringstream lengthSs;
-                lengthSs << std::right << std::setfill('0') << std::setw(2);
-                lengthSs << lattice_.getEdgeLength(rawEdge);
-                outputCells.push_back(lengthSs.str());
-
-                std::string edgeText = quoter.escape(lattice_.getEdgeText(rawEdge));
-                outputCells.push_back(edgeText);
-
-                outputCells.push_back("symbol");
-
-                const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(rawEdge);
-                outputCells.push_back(quoter.escape(annotationItem.getText()));
-
-                outputCells.push_back(quoter.escape(annotationItem.getCategory()));
+    while (latticeTextCovered < end) {
+
+        size_t i = latticeTextCovered;
+
+        Lattice::InOutEdgesIterator symbolIter = lattice_.outEdges(
+            lattice_.getVertexForRawCharIndex(i),
+            lattice_.getSymbolMask()
+        );
+
+        bool symbolFound = false;
+        while (symbolIter.hasNext() && !symbolFound) {
+            Lattice::EdgeDescriptor rawEdge = symbolIter.next();
+            if (
+                !lattice_.isLooseVertex(lattice_.getEdgeTarget(rawEdge))
+                && !edgeOrdinalMap.count(rawEdge)
+            ) {
+                symbolFound = true;
+                printEdge(rawEdge, quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
+            }
+        }
 
-                printTableRow_(outputCells);
+        if (!symbolFound) {
 
-                latticeTextCovered += edgeText;
+            // Lattice contains some text not covered by any edge.
 
-                i = lattice_.getEdgeEndIndex(rawEdge);
+            std::vector<std::string> outputCells;
 
-            } catch (NoEdgeException) {
+            std::string uncoveredSymbol
+                = lattice_.getAllText().substr(i, symbolLength(lattice_.getAllText(), i));
 
-                // Lattice contains some text not covered by any edge.
+            ++ordinal;
+            std::stringstream ordinalSs;
+            ordinalSs << std::right << std::setfill('0') << std::setw(2);
+            ordinalSs << ordinal;
+            outputCells.push_back(ordinalSs.str());
 
-                std::vector<std::string> outputCells;
+            std::stringstream beginningSs;
+            beginningSs << std::right << std::setfill('0') << std::setw(4);
+            beginningSs << i;
+            outputCells.push_back(beginningSs.str());
 
-                char uncoveredSymbol = lattice_.getAllText()[i];
+            std::stringstream lengthSs;
+            lengthSs << std::right << std::setfill('0') << std::setw(2);
+            lengthSs << uncoveredSymbol.length();
+            outputCells.push_back(lengthSs.str());
 
-                ++ordinal;
-                std::stringstream ordinalSs;
-                ordinalSs << std::right << std::setfill('0') << std::setw(2);
-                ordinalSs << ordinal;
-                outputCells.push_back(ordinalSs.str());
+            outputCells.push_back(quoter.escape(uncoveredSymbol));
 
-                std::stringstream beginningSs;
-                beginningSs << std::right << std::setfill('0') << std::setw(4);
-                beginningSs << i;
-                outputCells.push_back(beginningSs.str());
+            outputCells.push_back("∅");
 
-                outputCells.push_back("01");
+            outputCells.push_back("∅");
 
-                outputCells.push_back(quoter.escape(std::string(1, uncoveredSymbol)));
+            outputCells.push_back("∅");
 
-                outputCells.push_back("∅");
+            printTableRow_(outputCells);
 
-                outputCells.push_back("∅");
+            latticeTextCovered += uncoveredSymbol.length();
 
-                outputCells.push_back("∅");
+        }
+    }
+}
 
-                printTableRow_(outputCells);
 
-                latticeTextCovered += uncoveredSymbol;
-                i++;
+void PsiLatticeWriter::Worker::printEdge(
+    Lattice::EdgeDescriptor edge,
+    PsiQuoter &quoter,
+    std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
+    int &ordinal,
+    size_t &latticeTextCovered
+) {
+    Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
+    Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
 
-            }
-        }
+    if (!lattice_.isLooseVertex(source)) {
+        printText_(
+            lattice_.getVertexRawCharIndex(source),
+            quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
+    } else if (!lattice_.isLooseVertex(target)) {
+        printText_(
+            lattice_.getVertexRawCharIndex(target),
+            quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
     }
 
     std::vector<std::string> outputCells;
@@ -229,7 +227,7 @@ void PsiLatticeWriter::Worker::printEdge(
     if (
         !lattice_.isLooseVertex(source) &&
         !lattice_.isLooseVertex(target) &&
-        latticeTextCovered.length() < lattice_.getVertexRawCharIndex(target)
+        latticeTextCovered < lattice_.getVertexRawCharIndex(target)
     ) {
         writeWholeText = true;
     }
@@ -254,12 +252,8 @@ void PsiLatticeWriter::Worker::printEdge(
     } else {
         edgeTextPrinted = edgeText;
     }
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        try {
-            latticeTextCovered +=
-                edgeTextPrinted.substr(latticeTextCovered.length()
-                    - lattice_.getVertexRawCharIndex(source));
-        } catch (std::out_of_range) { }
+    if (writeWholeText) {
+        latticeTextCovered = lattice_.getVertexRawCharIndex(target);
     }
     edgeTextSs << edgeTextPrinted;
     outputCells.push_back(edgeTextSs.str());
diff --git a/formats/psi/psi_writer/psi_lattice_writer.hpp b/formats/psi/psi_writer/psi_lattice_writer.hpp
index 5bcf929..bac50b1 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.hpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.hpp
@@ -48,10 +48,18 @@ private:
             PsiQuoter &quoter,
             std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
             int &ordinal,
-            std::string &latticeTextCovered);
+            size_t &latticeTextCovered);
 
         virtual ~Worker();
     private:
+        // prints symbols (or pseudo-edges) for the lattice text up to `end` not printed yet
+        void printText_(
+            size_t end,
+            PsiQuoter &quoter,
+            std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
+            int &ordinal,
+            size_t &latticeTextCovered);
+
         PsiLatticeWriter& processor_;
     };
 
-- 
2.43.0


From bc404f50030f7ccad68306a49ec2c780885e05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 017/109] fix: partitions of edges in the PSI format are
 written and read back as they are

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 13 ++-
 formats/psi/psi_reader/psi_lattice_reader.hpp |  4 +-
 formats/psi/psi_writer/psi_lattice_writer.cpp | 94 +++++++++++--------
 formats/psi/psi_writer/psi_lattice_writer.hpp |  4 +
 4 files changed, 75 insertions(+), 40 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index caeeac1..71f30b2 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -239,10 +239,14 @@ void PsiLatticeReader::Worker::doRun() {
 
                     BOOST_FOREACH(std::string part, partsItem) {
                         Lattice::EdgeSequence::Builder seqBuilder(lattice_);
+                        currentVertex = from;
                         PsiLRPartitionItem partItem;
                         std::string::const_iterator partBegin = part.begin();
                         std::string::const_iterator partEnd = part.end();
                         if (parse(partBegin, partEnd, partGrammar, partItem)) {
+                            if (part.empty() || part.at(0) == '(' || part.at(0) == '<') {
+                                partItem.edgeNumbersWithRoles.clear();
+                            }
                             BOOST_FOREACH(
                                 PsiLREdgeNumberWithRole edgeNumberWithRole,
                                 partItem.edgeNumbersWithRoles
@@ -256,7 +260,14 @@ void PsiLatticeReader::Worker::doRun() {
                                             << " (too many sub-edges)";
                                         throw FileFormatException(errorSs.str());
                                     }
-                                    currentEdge = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    try {
+                                        currentEdge
+                                            = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    } catch (NoEdgeException) {
+                                        lattice_.addSymbols(currentVertex, to);
+                                        currentEdge
+                                            = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    }
                                 } else if (edgeOrdinalMap.find(edgeNumberWithRole.edgeNumber)
                                            == edgeOrdinalMap.end()) {
                                     std::stringstream errorSs;
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..2c87ed8 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -84,7 +84,7 @@ struct PsiLRItem {
 
     void unescape(Quoter & quoter) {
         text = quoter.unescape(text);
-        BOOST_FOREACH(std::string tag, tags) {
+        BOOST_FOREACH(std::string & tag, tags) {
             tag = quoter.unescape(tag);
         }
         annotationText = quoter.unescape(annotationText);
@@ -231,7 +231,7 @@ struct PsiLRPartitionsGrammar : public qi::grammar<
 
         partition
             = qi::eps[qi::_val = ""]
-            >> +(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
+            >> *(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
             >> -(
                 qi::char_('(')[qi::_val += qi::_1]
                 >> +(qi::char_ - ')')[qi::_val += qi::_1]
diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index df96443..abb4d69 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -298,12 +298,8 @@ void PsiLatticeWriter::Worker::printEdge(
     }
     aiSs << quoter.escape(avStr);
 
-    bool isDefaultPartition = (
-        lattice_.getEdgeLayerTags(edge)
-            == lattice_.getLayerTagManager().createSingletonTagCollection("symbol")
-    );
+    bool isDefaultPartition = isDefaultPartition_(edge, partitions);
     bool firstPartition = true;
-    bool partitionBeginning = false;
     std::stringstream partSs;
     BOOST_FOREACH(Lattice::Partition partition, partitions) {
         if (firstPartition) {
@@ -312,49 +308,35 @@ void PsiLatticeWriter::Worker::printEdge(
             partSs << ",";
         }
         std::stringstream linkSs;
-        partitionBeginning = true;
+        bool partitionBeginning = true;
         Lattice::Partition::Iterator ei(lattice_, partition);
         while (ei.hasNext()) {
             Lattice::EdgeUsage ed = ei.nextUsage();
+            bool isRoleGiven = !NULLP(ed.getRole());
             if (partitionBeginning) {
-                if (
-                    lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = true;
-                }
                 partitionBeginning = false;
             } else {
-                if (
-                    !lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = false;
-                }
                 linkSs << "-";
             }
+            if (!edgeOrdinalMap.count(ed.getEdge())) {
+                // a partition of one hidden symbol cannot be given without its number
+                bool isNumberNeeded = !lattice_.isEdgeHidden(ed.getEdge())
+                    || (!isDefaultPartition && !isRoleGiven && linkSs.str().empty()
+                        && !ei.hasNext());
+                if (isNumberNeeded) {
+                    printEdge(ed.getEdge(), quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
+                }
+            }
             std::map<Lattice::EdgeDescriptor, int>::iterator mi
                 = edgeOrdinalMap.find(ed.getEdge());
             if (mi != edgeOrdinalMap.end()) {
                 linkSs << mi->second;
-                if (!NULLP(ed.getRole())) {
-                    linkSs << '$'
-                        << quoter.escape(
-                            lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
-                        << '$';
-                }
-            } else if (!lattice_.getLayerTagManager().isThere(
-                    "symbol", lattice_.getEdgeLayerTags(ed.getEdge()))) {
-                printEdge(ed.getEdge(), quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
-                std::map<Lattice::EdgeDescriptor, int>::iterator mi2
-                    = edgeOrdinalMap.find(ed.getEdge());
-                if (mi2 != edgeOrdinalMap.end()) {
-                    linkSs << mi2->second;
-                    if (!NULLP(ed.getRole())) {
-                        linkSs << '$'
-                            << quoter.escape(
-                                lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
-                            << '$';
-                    }
-                }
+            }
+            if (isRoleGiven) {
+                linkSs << '$'
+                    << quoter.escape(
+                        lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
+                    << '$';
             }
         }
         partSs << linkSs.str();
@@ -368,7 +350,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
                 partitionTagStr += partitionTagName;
             }
-            partSs << "(" << partitionTagStr << ")";
+            partSs << "(" << quoter.escape(partitionTagStr) << ")";
         }
         Lattice::Score partitionScore = partition.getScore();
         if (partitionScore != score) {
@@ -394,5 +376,43 @@ void PsiLatticeWriter::Worker::printEdge(
 }
 
 
+bool PsiLatticeWriter::Worker::isDefaultPartition_(
+    Lattice::EdgeDescriptor edge,
+    const std::list<Lattice::Partition> &partitions
+) {
+    bool isSymbol = lattice_.getLayerTagManager().isThere(
+        "symbol", lattice_.getEdgeLayerTags(edge));
+
+    if (isSymbol && partitions.empty()) {
+        return true;
+    }
+
+    if (partitions.size() != 1) {
+        return false;
+    }
+
+    Lattice::Partition::Iterator ei(lattice_, partitions.front());
+
+    if (isSymbol) {
+        return !ei.hasNext();
+    }
+
+    // The reader builds the edge of the symbols between its vertices.
+    Lattice::VertexDescriptor currentVertex = lattice_.getEdgeSource(edge);
+    while (ei.hasNext()) {
+        Lattice::EdgeUsage usage = ei.nextUsage();
+        if (
+            !lattice_.isEdgeHidden(usage.getEdge())
+            || !NULLP(usage.getRole())
+            || lattice_.getEdgeSource(usage.getEdge()) != currentVertex
+        ) {
+            return false;
+        }
+        currentVertex = lattice_.getEdgeTarget(usage.getEdge());
+    }
+    return currentVertex == lattice_.getEdgeTarget(edge);
+}
+
+
 PsiLatticeWriter::Worker::~Worker() {
 }
diff --git a/formats/psi/psi_writer/psi_lattice_writer.hpp b/formats/psi/psi_writer/psi_lattice_writer.hpp
index bac50b1..ff58d55 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.hpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.hpp
@@ -52,6 +52,10 @@ private:
 
         virtual ~Worker();
     private:
+        bool isDefaultPartition_(
+            Lattice::EdgeDescriptor edge,
+            const std::list<Lattice::Partition> &partitions);
+
         // prints symbols (or pseudo-edges) for the lattice text up to `end` not printed yet
         void printText_(
             size_t end,
-- 
2.43.0


From c1a324dfc62e479e2ec22c5f76ed2c467f2ae6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 018/109] fix: categories, attributes and values with the
 separators of the PSI format are read back as they were

---
 common/psi_quoter.cpp                         | 36 +++++++++++++
 common/psi_quoter.hpp                         | 52 +++++++++++++++++++
 common/utt_like_quoter.hpp                    |  5 +-
 formats/psi/psi_reader/psi_lattice_reader.cpp | 16 ++++--
 formats/psi/psi_reader/psi_lattice_reader.hpp | 41 ++++++++++++---
 formats/psi/psi_writer/psi_lattice_writer.cpp |  8 +--
 6 files changed, 141 insertions(+), 17 deletions(-)

diff --git a/common/psi_quoter.cpp b/common/psi_quoter.cpp
index 9c4b12e..51c5eb3 100644
--- a/common/psi_quoter.cpp
+++ b/common/psi_quoter.cpp
@@ -1,8 +1,44 @@
 #include "psi_quoter.hpp"
 
+#include <algorithm>
+
 
 PsiQuoter::PsiQuoter() : UTTLikeQuoter("#") {
 }
 
 PsiQuoter::~PsiQuoter() {
 }
+
+
+PsiCategoryQuoter::PsiCategoryQuoter() : UTTLikeQuoter("#,[<") {
+}
+
+PsiCategoryQuoter::~PsiCategoryQuoter() {
+}
+
+std::string PsiCategoryQuoter::doEscape(std::string str) {
+    if (!str.empty() && str[0] == '<') {
+        return "<" + UTTLikeQuoter::doEscape(str.substr(1));
+    }
+    return UTTLikeQuoter::doEscape(str);
+}
+
+
+PsiAttributeQuoter::PsiAttributeQuoter() : UTTLikeQuoter("#,[=") {
+}
+
+PsiAttributeQuoter::~PsiAttributeQuoter() {
+}
+
+
+PsiValueQuoter::PsiValueQuoter() : UTTLikeQuoter("#[=") {
+}
+
+PsiValueQuoter::~PsiValueQuoter() {
+}
+
+std::string PsiValueQuoter::doEscape(std::string str) {
+    size_t comma = std::min(str.find(','), str.size());
+    return UTTLikeQuoter("#[").escape(str.substr(0, comma))
+        + UTTLikeQuoter::doEscape(str.substr(comma));
+}
diff --git a/common/psi_quoter.hpp b/common/psi_quoter.hpp
index a2da528..9e362b0 100644
--- a/common/psi_quoter.hpp
+++ b/common/psi_quoter.hpp
@@ -18,4 +18,56 @@ public:
 };
 
 
+/**
+ * For categories: also the characters that end a category are escaped
+ * (a category may begin with '<').
+ */
+class PsiCategoryQuoter : public UTTLikeQuoter {
+
+public:
+
+    PsiCategoryQuoter();
+
+    virtual ~PsiCategoryQuoter();
+
+protected:
+
+    virtual std::string doEscape(std::string str);
+
+};
+
+
+/**
+ * For names of attributes: also the characters that end a name are escaped.
+ */
+class PsiAttributeQuoter : public UTTLikeQuoter {
+
+public:
+
+    PsiAttributeQuoter();
+
+    virtual ~PsiAttributeQuoter();
+
+};
+
+
+/**
+ * For values of attributes. A comma is not escaped: what follows it
+ * belongs to the value unless it has got an unescaped equality sign.
+ */
+class PsiValueQuoter : public UTTLikeQuoter {
+
+public:
+
+    PsiValueQuoter();
+
+    virtual ~PsiValueQuoter();
+
+protected:
+
+    virtual std::string doEscape(std::string str);
+
+};
+
+
 #endif
diff --git a/common/utt_like_quoter.hpp b/common/utt_like_quoter.hpp
index 477ec32..9a922e1 100644
--- a/common/utt_like_quoter.hpp
+++ b/common/utt_like_quoter.hpp
@@ -27,11 +27,14 @@ public:
 
     virtual ~UTTLikeQuoter();
 
+protected:
+
+    virtual std::string doEscape(std::string str);
+
 private:
 
     std::string additionalQuotations_;
 
-    virtual std::string doEscape(std::string str);
     virtual std::string doUnescape(std::string str);
 
 };
diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 71f30b2..9456f5f 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -187,18 +187,24 @@ void PsiLatticeReader::Worker::doRun() {
             std::string::const_iterator avBegin = item.annotationItem.avVector.begin();
             std::string::const_iterator avEnd = item.annotationItem.avVector.end();
             if (parse(avBegin, avEnd, avGrammar, avItem)) {
+                std::vector<PsiLRAVPairItem> avPairItems;
                 BOOST_FOREACH(std::string av, avItem) {
                     PsiLRAVPairItem avPairItem;
                     std::string::const_iterator avPairBegin = av.begin();
                     std::string::const_iterator avPairEnd = av.end();
                     if (parse(avPairBegin, avPairEnd, avPairGrammar, avPairItem)) {
-                        lattice_.getAnnotationItemManager().setValue(
-                            annotationItem,
-                            avPairItem.arg,
-                            avPairItem.val
-                        );
+                        avPairItems.push_back(avPairItem);
+                    } else if (!avPairItems.empty()) {
+                        avPairItems.back().val += "," + av;
                     }
                 }
+                BOOST_FOREACH(PsiLRAVPairItem avPairItem, avPairItems) {
+                    lattice_.getAnnotationItemManager().setValue(
+                        annotationItem,
+                        PsiAttributeQuoter().unescape(avPairItem.arg),
+                        PsiValueQuoter().unescape(avPairItem.val)
+                    );
+                }
             }
 
 
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 2c87ed8..932931c 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -54,9 +54,9 @@ struct PsiLRAnnotation {
     std::string avVector;
     std::string partitions;
 
+    // avVector is unescaped after it has been split
     void unescape(Quoter & quoter) {
-        category = quoter.unescape(category);
-        avVector = quoter.unescape(avVector);
+        category = PsiCategoryQuoter().unescape(category);
         partitions = quoter.unescape(partitions);
     }
 };
@@ -146,11 +146,23 @@ struct PsiLRGrammar : public qi::grammar<
             %= +(qi::char_ - ' ' - ',') % ',';
 
         annotation
-            %= +(qi::char_ - ' ' - ',' - '[' - '<')                         //category
+            %= category                                                     //category
             >> score                                                        //score
-            >> -(',' >> +(qi::char_ - '['))                                 //av
+            >> -(',' >> av)                                                 //av
             >> -(qi::char_("[") >> *(qi::char_ - ']') >> qi::char_("]"));   //partitions
 
+        category
+            %= qi::raw[
+                (qi::char_('<') | categoryChar)
+                >> *categoryChar
+            ];
+
+        categoryChar
+            = ('\\' >> qi::char_) | (qi::char_ - ' ' - ',' - '[' - '<');
+
+        av
+            %= qi::raw[+(('\\' >> qi::char_) | (qi::char_ - '['))];
+
         score
             = qi::eps[qi::_val = 0.0]
             >> -('<' >> qi::double_[qi::_val = qi::_1] >> '>');
@@ -163,6 +175,9 @@ struct PsiLRGrammar : public qi::grammar<
     qi::rule<std::string::const_iterator, bool()> point;
     qi::rule<std::string::const_iterator, std::vector<std::string>()> tags;
     qi::rule<std::string::const_iterator, PsiLRAnnotation()> annotation;
+    qi::rule<std::string::const_iterator, std::string()> category;
+    qi::rule<std::string::const_iterator, qi::unused_type()> categoryChar;
+    qi::rule<std::string::const_iterator, std::string()> av;
     qi::rule<std::string::const_iterator, double()> score;
 
 };
@@ -176,11 +191,15 @@ struct PsiLRAVGrammar : public qi::grammar<
     PsiLRAVGrammar() : PsiLRAVGrammar::base_type(start) {
 
         start
-            %= +(qi::char_ - ',') % ',';
+            %= av % ',';
+
+        av
+            %= qi::raw[*(('\\' >> qi::char_) | (qi::char_ - ','))];
 
     }
 
     qi::rule<std::string::const_iterator, std::vector<std::string>()> start;
+    qi::rule<std::string::const_iterator, std::string()> av;
 
 };
 
@@ -206,13 +225,21 @@ struct PsiLRAVPairGrammar : public qi::grammar<
     PsiLRAVPairGrammar() : PsiLRAVPairGrammar::base_type(start) {
 
         start
-            %= +(qi::char_ - ',' - '=')
+            %= item
             >> '='
-            >> +(qi::char_ - ',' - '=');
+            >> value;
+
+        item
+            %= qi::raw[+(('\\' >> qi::char_) | (qi::char_ - '='))];
+
+        value
+            %= +qi::char_;
 
     }
 
     qi::rule<std::string::const_iterator, PsiLRAVPairItem()> start;
+    qi::rule<std::string::const_iterator, std::string()> item;
+    qi::rule<std::string::const_iterator, std::string()> value;
 
 };
 
diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index abb4d69..cadf4bd 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -279,7 +279,7 @@ void PsiLatticeWriter::Worker::printEdge(
 
     std::stringstream aiSs;
 
-    aiSs << quoter.escape(annotationItem.getCategory());
+    aiSs << PsiCategoryQuoter().escape(annotationItem.getCategory());
 
     Lattice::Score score = lattice_.getEdgeScore(edge);
     if (score != 0.0) {
@@ -292,11 +292,11 @@ void PsiLatticeWriter::Worker::printEdge(
         = lattice_.getAnnotationItemManager().getValues(annotationItem);
     BOOST_FOREACH(StrStrPair av, avPairs) {
         avStr += ",";
-        avStr += av.first;
+        avStr += PsiAttributeQuoter().escape(av.first);
         avStr += "=";
-        avStr += av.second;
+        avStr += PsiValueQuoter().escape(av.second);
     }
-    aiSs << quoter.escape(avStr);
+    aiSs << avStr;
 
     bool isDefaultPartition = isDefaultPartition_(edge, partitions);
     bool firstPartition = true;
-- 
2.43.0


From 1edfe962dc302cda9d515b3f41e19d7a24114857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 019/109] fix: the PSI reader takes the text from edges that
 end in loose vertices only if no other edge has it

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 158 ++++++++++++------
 formats/psi/psi_reader/psi_lattice_reader.hpp |   3 +
 2 files changed, 106 insertions(+), 55 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 9456f5f..aa27043 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -51,6 +51,8 @@ void PsiLatticeReader::Worker::doRun() {
     PsiLRPartitionGrammar partGrammar;
     std::map<int, Lattice::VertexDescriptor> looseVertices;
     std::map<int, Lattice::EdgeDescriptor> edgeOrdinalMap;
+    std::vector<std::pair<int, PsiLRItem> > items;
+    std::vector<std::string> itemLines;
     std::string line;
     int lineno = 0;
     while (std::getline(inputStream_, line)) {
@@ -81,59 +83,57 @@ void PsiLatticeReader::Worker::doRun() {
 
             item.unescape(quoter);
 
-            LayerTagCollection tags = lattice_.getLayerTagManager().createTagCollection(item.tags);
-            std::stringstream formSs;
-            formSs << std::setw(item.length) << item.text;
-            std::string form = formSs.str();
-
-
-            // Appending lattice.
-
-            if (!item.beginningLoose) {
-                try {
-                    if (
-                        (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <
-                            item.beginning
-                    ) {
-                        // throw FileFormatException(
-                            // "PSI reader: lattice text cannot be reconstructed "
-                            // "due to insufficient edge data"
-                        // );
-                        WARN(
-                            "Some lattice text cannot be reconstructed: " <<
-                            "the placeholder will be put instead ('" <<
-                            std::string(1, PLACEHOLDER) << "' at " <<
-                            (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <<
-                            ")."
-                        );
-                        lattice_.appendStringWithSymbols(std::string(
-                            item.beginning
-                                - lattice_.getVertexRawCharIndex(lattice_.getLastVertex()),
-                            PLACEHOLDER
-                        ));
-                    }
-                    if (
-                        lattice_.getLayerTagManager().isThere("symbol", tags) ||
-                        lattice_.getLayerTagManager().isThere("∅", tags) ||
-                        item.annotationItem.partitions == "[]"
-                    ) {
-                        lattice_.appendString(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
-                                - item.beginning
-                        ));
-                    } else {
-                        lattice_.appendStringWithSymbols(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
-                                - item.beginning
-                        ));
-                    }
-                } catch (std::out_of_range) {
-                    // Don't need to append lattice.
-                }
+            items.push_back(std::make_pair(lineno, item));
+            itemLines.push_back(line);
+
+        } else {
+
+            std::stringstream errorSs;
+            errorSs << "PSI reader: syntax error in line " << lineno << ": " << line;
+            throw FileFormatException(errorSs.str());
+
+        }
+    }
+
+    // The text is taken from the edges that span it. An edge that ends in a loose vertex
+    // is not obliged to have the text of the lattice: it is used only if there is no other.
+    std::list<PsiLRItem> looseItems;
+    int textNeeded = 0;
+    for (size_t i = 0; i < items.size(); ++i) {
+        const PsiLRItem & item = items[i].second;
+        if (item.lengthPoint && !item.lengthLoose) {
+            textNeeded = std::max(textNeeded, item.length);
+        }
+        if (item.beginningLoose) {
+            continue;
+        }
+        textNeeded = std::max(textNeeded, item.beginning);
+        if (item.lengthLoose) {
+            looseItems.push_back(item);
+            continue;
+        }
+        if (getTextLength_() < item.beginning) {
+            BOOST_FOREACH(const PsiLRItem & looseItem, looseItems) {
+                appendText_(looseItem);
             }
+            looseItems.clear();
+        }
+        appendText_(item);
+    }
+    BOOST_FOREACH(const PsiLRItem & looseItem, looseItems) {
+        if (getTextLength_() < textNeeded) {
+            appendText_(looseItem);
+        }
+    }
+
+    for (size_t itemIndex = 0; itemIndex < items.size(); ++itemIndex) {
+        PsiLRItem & item = items[itemIndex].second;
+        lineno = items[itemIndex].first;
+        line = itemLines[itemIndex];
 
-            if (lattice_.getLayerTagManager().isThere("∅", tags)) continue;
+        LayerTagCollection tags = lattice_.getLayerTagManager().createTagCollection(item.tags);
 
+        if (!lattice_.getLayerTagManager().isThere("∅", tags)) {
 
             // Defining source vertex.
 
@@ -331,13 +331,61 @@ void PsiLatticeReader::Worker::doRun() {
                 );
             }
 
-        } else {
+        }
+    }
+
+}
 
-            std::stringstream errorSs;
-            errorSs << "PSI reader: syntax error in line " << lineno << ": " << line;
-            throw FileFormatException(errorSs.str());
 
+int PsiLatticeReader::Worker::getTextLength_() {
+    return (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
+}
+
+
+void PsiLatticeReader::Worker::appendText_(const PsiLRItem & item) {
+    LayerTagCollection tags = lattice_.getLayerTagManager().createTagCollection(item.tags);
+    std::stringstream formSs;
+    formSs << std::setw(item.length) << item.text;
+    std::string form = formSs.str();
+
+    try {
+        if (
+            getTextLength_() <
+                item.beginning
+        ) {
+            // throw FileFormatException(
+                // "PSI reader: lattice text cannot be reconstructed "
+                // "due to insufficient edge data"
+            // );
+            WARN(
+                "Some lattice text cannot be reconstructed: " <<
+                "the placeholder will be put instead ('" <<
+                std::string(1, PLACEHOLDER) << "' at " <<
+                getTextLength_() <<
+                ")."
+            );
+            lattice_.appendStringWithSymbols(std::string(
+                item.beginning
+                    - getTextLength_(),
+                PLACEHOLDER
+            ));
         }
+        if (
+            lattice_.getLayerTagManager().isThere("symbol", tags) ||
+            lattice_.getLayerTagManager().isThere("∅", tags) ||
+            item.annotationItem.partitions == "[]"
+        ) {
+            lattice_.appendString(form.substr(
+                getTextLength_()
+                    - item.beginning
+            ));
+        } else {
+            lattice_.appendStringWithSymbols(form.substr(
+                getTextLength_()
+                    - item.beginning
+            ));
+        }
+    } catch (std::out_of_range) {
+        // Don't need to append lattice.
     }
-
 }
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 932931c..1500401 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -399,6 +399,9 @@ private:
         virtual void doRun();
 
     private:
+        int getTextLength_();
+        void appendText_(const PsiLRItem & item);
+
         PsiLatticeReader& processor_;
         static const char PLACEHOLDER = '?';
     };
-- 
2.43.0


From 03da8a8d8d46a0574247329fcb26ce08affc2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 020/109] fix: the PSI writer does not cut a shortened text
 inside an escape sequence; empty ends of values are read

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 formats/psi/psi_writer/psi_lattice_writer.cpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1500401..7f850ae 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -233,7 +233,7 @@ struct PsiLRAVPairGrammar : public qi::grammar<
             %= qi::raw[+(('\\' >> qi::char_) | (qi::char_ - '='))];
 
         value
-            %= +qi::char_;
+            %= *qi::char_;
 
     }
 
diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index cadf4bd..f9a0818 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -5,6 +5,7 @@
 
 #include <boost/assign/list_of.hpp>
 
+#include "escaping.hpp"
 #include "logging.hpp"
 #include "string_helpers.hpp"
 
@@ -242,11 +243,15 @@ void PsiLatticeWriter::Worker::printEdge(
     } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
         std::string::const_iterator bIter = edgeText.begin();
         utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
+        if (Escaping::isEscaped(edgeText, bIter - edgeText.begin()))
+            --bIter;
         edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
 
         std::string::const_iterator eIter = edgeText.end();
         for (int i = 0; i < 3; ++i)
             utf8::unchecked::prior(eIter);
+        if (Escaping::isEscaped(edgeText, eIter - edgeText.begin()))
+            ++eIter;
 
         edgeTextPrinted = edgeText.substr(eIter - edgeText.begin());
     } else {
-- 
2.43.0


From 1848ba96eedeb0d1b4bc85f6c35d54ad5b8218e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 021/109] fix: string and monotonic vectors with nothing in
 them or with a trailing empty string are not indexed past the end

---
 tools/datastructures/lexica/monotonic_vector.hpp | 12 ++++++------
 tools/datastructures/lexica/string_vector.hpp    |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/datastructures/lexica/monotonic_vector.hpp b/tools/datastructures/lexica/monotonic_vector.hpp
index 6f1b4a4..071a198 100644
--- a/tools/datastructures/lexica/monotonic_vector.hpp
+++ b/tools/datastructures/lexica/monotonic_vector.hpp
@@ -84,29 +84,29 @@ public:
 
         fread(&size, sizeof(size_t), 1, in);
         m_diffs.resize(size);
-        fread(&m_diffs[0], sizeof(LenT), size, in);
+        fread(m_diffs.data(), sizeof(LenT), size, in);
 
         fread(&size, sizeof(size_t), 1, in);
         m_anchors.resize(size);
-        fread(&m_anchors[0], sizeof(PosT), size, in);
+        fread(m_anchors.data(), sizeof(PosT), size, in);
 
         fread(&size, sizeof(size_t), 1, in);
         m_rests.resize(size);
-        fread(&m_rests[0], sizeof(std::pair<PosT, PosT>), size, in);
+        fread(m_rests.data(), sizeof(std::pair<PosT, PosT>), size, in);
     }
 
     void save(std::FILE* out) const {
         size_t size = m_diffs.size();
         fwrite(&size, sizeof(size_t), 1, out);
-        fwrite(&m_diffs[0], sizeof(LenT), size, out);
+        fwrite(m_diffs.data(), sizeof(LenT), size, out);
 
         size = m_anchors.size();
         fwrite(&size, sizeof(size_t), 1, out);
-        fwrite(&m_anchors[0], sizeof(PosT), size, out);
+        fwrite(m_anchors.data(), sizeof(PosT), size, out);
 
         size = m_rests.size();
         fwrite(&size, sizeof(size_t), 1, out);
-        fwrite(&m_rests[0], sizeof(std::pair<PosT, PosT>), size, out);
+        fwrite(m_rests.data(), sizeof(std::pair<PosT, PosT>), size, out);
     }
 
     void swap(MonotonicVector<PosT, LenT, stepSize> &mv) {
diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index 9680e45..c886015 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -150,7 +150,7 @@ public:
 
         size_t valSize = m_charArray.size();
         std::fwrite(&valSize, sizeof(size_t), 1, out);
-        std::fwrite(&m_charArray[0], sizeof(ValueT), valSize, out);
+        std::fwrite(m_charArray.data(), sizeof(ValueT), valSize, out);
 
         return true;
     }
@@ -167,7 +167,7 @@ public:
         size_t valSize;
         std::fread(&valSize, sizeof(size_t), 1, in);
         m_charArray.resize(valSize, 0);
-        std::fread(&m_charArray[0], sizeof(ValueT), valSize, in);
+        std::fread(m_charArray.data(), sizeof(ValueT), valSize, in);
 
         return true;
     }
@@ -347,7 +347,7 @@ PosT StringVector<ValueT, PosT>::length(PosT i) const {
 
 template<typename ValueT, typename PosT>
 const ValueT* StringVector<ValueT, PosT>::value_ptr(PosT i) const {
-    return &m_charArray[m_positions[i]];
+    return m_charArray.data() + m_positions[i];
 }
 
 template<typename ValueT, typename PosT>
-- 
2.43.0


From 8ea40b6055debeb0f3dbafcb2bbbf91354b8c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 022/109] fix: a perfect hash index of no keys, or for which
 the hash function generator fails at first, is built

---
 .../lexica/perfect_hash_index.cpp             |  4 +--
 .../lexica/perfect_hash_index.hpp             | 30 +++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tools/datastructures/lexica/perfect_hash_index.cpp b/tools/datastructures/lexica/perfect_hash_index.cpp
index 752b9cf..fab7929 100644
--- a/tools/datastructures/lexica/perfect_hash_index.cpp
+++ b/tools/datastructures/lexica/perfect_hash_index.cpp
@@ -92,7 +92,7 @@ void PerfectHashIndex::save(std::FILE* mphf) const {
 
     size_t nkeys = m_fprints.size();
     std::fwrite(&nkeys, sizeof(nkeys), 1, mphf);
-    std::fwrite(&m_fprints[0], sizeof(Fprint), nkeys, mphf);
+    std::fwrite(m_fprints.data(), sizeof(Fprint), nkeys, mphf);
 }
 
 void PerfectHashIndex::load(std::string filename) {
@@ -107,5 +107,5 @@ void PerfectHashIndex::load(std::FILE* mphf) {
     size_t nkeys;
     std::fread(&nkeys, sizeof(nkeys), 1, mphf);
     m_fprints.resize(nkeys, 0);
-    std::fread(&m_fprints[0], sizeof(Fprint), nkeys, mphf);
+    std::fread(m_fprints.data(), sizeof(Fprint), nkeys, mphf);
 }
diff --git a/tools/datastructures/lexica/perfect_hash_index.hpp b/tools/datastructures/lexica/perfect_hash_index.hpp
index dd55928..b366017 100644
--- a/tools/datastructures/lexica/perfect_hash_index.hpp
+++ b/tools/datastructures/lexica/perfect_hash_index.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <cstring>
 #include <cstdio>
+#include <stdexcept>
 
 #include <cmph.h>
 #include "murmur_hash3.hpp"
@@ -23,15 +24,38 @@ private:
     cmph_t* m_hash;
 
     void calcHashFunction() {
-        cmph_io_adapter_t* source = cmph_io_vector_adapter((char**) &m_keys[0], m_keys.size());
+        // no hash function can be built for an empty set of keys, a dummy
+        // one (without a fingerprint, so that it is never found) is needed
+        char dummyKey[] = "";
+        std::vector<char*> keys(m_keys);
+        if (keys.empty())
+            keys.push_back(dummyKey);
+
+        // generating a hash function is randomised and sometimes fails
+        const int NUMBER_OF_ATTEMPTS = 10;
+
+        m_hash = 0;
+        for (int i = 0; !m_hash && i < NUMBER_OF_ATTEMPTS; ++i)
+            m_hash = newHashFunction(keys, m_algo);
+        for (int i = 0; !m_hash && i < NUMBER_OF_ATTEMPTS; ++i)
+            m_hash = newHashFunction(keys, CMPH_CHM);
+
+        if (!m_hash)
+            throw std::runtime_error("cannot build a perfect hash function");
+    }
+
+    cmph_t* newHashFunction(std::vector<char*>& keys, CMPH_ALGO algo) {
+        cmph_io_adapter_t* source = cmph_io_vector_adapter(&keys[0], keys.size());
 
         cmph_config_t* config = cmph_config_new(source);
-        cmph_config_set_algo(config, m_algo);
+        cmph_config_set_algo(config, algo);
         cmph_config_set_verbosity(config, 5);
 
-        m_hash = cmph_new(config);
+        cmph_t* hash = cmph_new(config);
         cmph_config_destroy(config);
         cmph_io_vector_adapter_destroy(source);
+
+        return hash;
     }
 
     Fprint getFprint(const char* key) const {
-- 
2.43.0


From 75de29400cc3f2815e15cea5eb3287b2536e631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 023/109] fix: all records of a key are found in a plain-text
 lexicon, also when they are not next to each other

---
 tools/datastructures/lexica/lexicon_base.cpp | 37 +++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index e313c46..ac22b20 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -2,6 +2,8 @@
 #include "lexicon_base.hpp"
 #include "logging.hpp"
 
+#include <map>
+
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/foreach.hpp>
@@ -15,9 +17,8 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
     boost::filesystem::ifstream plainTextStream(plainTextLexicon);
 
     std::string line;
-    std::string prevKey;
-    std::string stringSoFar;
-    bool firstEntry = true;
+    std::vector<std::string> keys;
+    std::map<std::string, std::string> values;
 
     typedef boost::sub_range<std::vector<std::string> > SubRange; 
     
@@ -42,28 +43,22 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
                 std::string("at least two fields expected in plain text lexicon, was: `")
                 + line + "`");
 
-        if (firstEntry) {
-            prevKey = fields[0];
-            stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                      LEXICON_FIELD_SEPARATOR);
-            firstEntry = false;
+        std::string value = boost::join(SubRange(fields.begin() + 1, fields.end()),
+                                        LEXICON_FIELD_SEPARATOR);
+
+        std::map<std::string, std::string>::iterator found = values.find(fields[0]);
+
+        if (found == values.end()) {
+            keys.push_back(fields[0]);
+            values[fields[0]] = value;
         } else {
-            if (fields[0] == prevKey) {
-                stringSoFar += LEXICON_RECORD_SEPARATOR;
-                stringSoFar += boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                           LEXICON_FIELD_SEPARATOR);
-            }
-            else {
-                storeBuilder.add(prevKey, stringSoFar);
-                prevKey = fields[0];
-                stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                          LEXICON_FIELD_SEPARATOR);
-            }
+            found->second += LEXICON_RECORD_SEPARATOR;
+            found->second += value;
         }
     }
 
-    if (!firstEntry)
-        storeBuilder.add(prevKey, stringSoFar);
+    BOOST_FOREACH(const std::string& key, keys)
+        storeBuilder.add(key, values[key]);
 
     store_.reset(storeBuilder.build());
 }
-- 
2.43.0


From e8d250cb60e79a5c22237bac354c1748f2f4d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 024/109] fix: lines of a plain-text lexicon that start with
 white space are not skipped

---
 tools/datastructures/lexica/lexicon_base.cpp        | 2 +-
 tools/datastructures/psi_query/fsa_lexicon_base.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index ac22b20..d33f75b 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -99,5 +99,5 @@ void LexiconBase::removeComment_(std::string& s) {
 }
 
 bool LexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
diff --git a/tools/datastructures/psi_query/fsa_lexicon_base.cpp b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
index 235bd0f..1f3972d 100644
--- a/tools/datastructures/psi_query/fsa_lexicon_base.cpp
+++ b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
@@ -76,7 +76,7 @@ void FSALexiconBase::removeComment_(std::string& s) {
 }
 
 bool FSALexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
 
 }
-- 
2.43.0


From 469026350f31be73a91dd67bbd61d85ff75db456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 025/109] fix: a tokenization rule that matches an empty string
 does not give an empty token

---
 tools/tokenizers/tp/tp_token_cutter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/tokenizers/tp/tp_token_cutter.hpp b/tools/tokenizers/tp/tp_token_cutter.hpp
index 990ec5e..ff9367d 100644
--- a/tools/tokenizers/tp/tp_token_cutter.hpp
+++ b/tools/tokenizers/tp/tp_token_cutter.hpp
@@ -48,6 +48,8 @@ AnnotationItem TpTokenCutter::performCutOff(const StringType& text, size_t& posi
 
         if (PerlRegExp::Consume(&textSp, *regexp)) {
             size_t tokenLength = len - textSp.size();
+            if (tokenLength == 0)
+                continue;
             StringFrag sf(text, positionInText, tokenLength);
             positionInText += tokenLength;
             return AnnotationItem(ruleSet_.getRegexCategory(i), sf);
-- 
2.43.0


From 6379fc6bbfe6188b65809872776b8ee567569442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 026/109] fix: else in a condition nested in a skipped part of
 a tokenization rule file does not end the skipping

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..f643e6d 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -498,8 +498,11 @@ void TPBasicTokenizerRuleSet::readElse(
     else
     {
         ifstack.back().setType(TELSE);
-        ifstack.back().setValue(true);
-        openedIf = false;
+        // nothing is to be closed (and opened later) in a block that is closed anyway
+        if (openedIf) {
+            ifstack.back().setValue(true);
+            openedIf = false;
+        }
     }
 };
 
-- 
2.43.0


From 17735a64d9cffaf27c201caf2f3ac572904da26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 027/109] fix: a cutter run on an edge does not cut what
 follows that edge

---
 common/lattice.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 8306d80..1c544e7 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1331,11 +1331,22 @@ void Lattice::runCutterOnEdge_(Cutter& cutter, EdgeDescriptor edge, LayerTagMask
 
     VertexDescriptor vertex = getEdgeSource(edge);
 
-    EdgeSequence sequence = getPath(vertex, mask);
+    EdgeSequence path = getPath(vertex, mask);
 
-    if (sequence.empty())
+    if (path.empty())
         return;
 
+    // the path may go on beyond the end of the edge
+    EdgeSequence::Builder sequenceBuilder(*this);
+    EdgeSequence::Iterator pathIter(*this, path);
+    bool edgeEndReached = false;
+    while (pathIter.hasNext() && !edgeEndReached) {
+        EdgeDescriptor pathEdge = pathIter.next();
+        sequenceBuilder.addEdge(pathEdge);
+        edgeEndReached = (getEdgeTarget(pathEdge) == getEdgeTarget(edge));
+    }
+    EdgeSequence sequence = sequenceBuilder.build();
+
     StringFrag text = getSequenceTextAsStringFrag(sequence);
 
     size_t pos = 0;
-- 
2.43.0


From e042970a242cf564f4addc3307c44d6d6f6cc6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 028/109] fix: an SRX rule that matches an empty string does
 not end the program

---
 tools/segmenters/srx/srx_segmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/segmenters/srx/srx_segmenter.cpp b/tools/segmenters/srx/srx_segmenter.cpp
index bc32647..4b0b3af 100644
--- a/tools/segmenters/srx/srx_segmenter.cpp
+++ b/tools/segmenters/srx/srx_segmenter.cpp
@@ -364,7 +364,7 @@ private:
             PerlStringPiece fragFound;
 
             if (PerlRegExp::FindAndConsume(&currentText, *regexp.get(), &fragFound)) {
-                assert (originalLength > currentText.size());
+                assert (originalLength >= currentText.size());
                 int lengthDiff = originalLength - currentText.size();
 
                 ruleApplication.breakingPosition =
-- 
2.43.0


From a10c11bcb424aad984cf737f09ce97fdd29e0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 029/109] fix: elements with non-ASCII characters are found in
 unsorted string vectors

---
 tools/datastructures/lexica/string_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index c886015..fbe2fea 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <functional>
 #include <string>
 #include <iterator>
 #include <cstdio>
@@ -217,7 +218,9 @@ template <typename ValueIteratorT>
 template <typename StringT>
 bool ValueIteratorRange<ValueIteratorT>::operator==(const StringT& o) const {
     if (std::distance(m_begin, m_end) == std::distance(o.begin(), o.end()))
-        return std::equal(m_begin, m_end, o.begin());
+        return std::equal(
+            m_begin, m_end, o.begin(),
+            std::equal_to<typename std::iterator_traits<ValueIteratorT>::value_type>());
     else
         return false;
 }
-- 
2.43.0


From b27fa35c62283759db7abb4addb6691371a8f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 030/109] fix: copies of an automaton share no states, an
 assigned automaton has no states of its own left

---
 tools/datastructures/psi_query/fsa_ndfsa.hpp      |  2 ++
 tools/datastructures/psi_query/fsa_ndfsa_impl.hpp | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_ndfsa.hpp b/tools/datastructures/psi_query/fsa_ndfsa.hpp
index d04bd57..6f0aab3 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa.hpp
@@ -45,6 +45,8 @@ Basic constructor. Creates an empty non-deterministic finite-state automaton.
 *******************************************************************************/
     NDFSA();
 
+    NDFSA(const NDFSA<ArcT> &);
+
 /*******************************************************************************
 ## Constructor
 
diff --git a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
index 8a9f86f..cbc4a63 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
@@ -6,6 +6,14 @@ namespace fsa {
 template <typename ArcT>
 NDFSA<ArcT>::NDFSA() {}
 
+template <typename ArcT>
+NDFSA<ArcT>::NDFSA(const NDFSA<ArcT> &a)
+    : m_startStates(a.m_startStates), m_endStates(a.m_endStates) {
+
+    BOOST_FOREACH(Arcs* arcs, a.m_states)
+        m_states.push_back(new Arcs(*arcs));
+}
+
 template <typename ArcT>
 NDFSA<ArcT>::NDFSA(typename ArcT::symbol_type s) {
     state_type q0 = addState(true);
@@ -239,11 +247,8 @@ std::set<typename ArcT::state_type> NDFSA<ArcT>::epsClosure(typename ArcT::state
 
 template <typename ArcT>
 NDFSA<ArcT>& NDFSA<ArcT>::operator=(const NDFSA<ArcT> &a) {
-    BOOST_FOREACH(Arcs* arcs, a.m_states)
-        m_states.push_back(new Arcs(*arcs));
-
-    m_endStates = a.m_endStates;
-    m_startStates = a.m_startStates;
+    NDFSA<ArcT> copy(a);
+    swap(copy);
 
     return *this;
 }
-- 
2.43.0


From 1e75eda1e107e1bd90121d623385e6cbd69f6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 031/109] fix: intersection of automata starts in the start
 states of both and takes epsilon transitions into account

---
 .../datastructures/psi_query/fsa_algorithms.hpp  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 2f4b0cb..9963879 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -228,14 +228,14 @@ class Intersector {
     std::set<state_type> startFn() const {
         std::set<state_type> starts;
         BOOST_FOREACH( typename FSA1::state_type p1, m_fsa1.getStartStates() )
-            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa1.getStartStates() )
+            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa2.getStartStates() )
                 starts.insert(state_type(p1, p2));
 
         return starts;
     }
 
     bool finalFn(state_type p) const {
-        return (m_fsa1.isEndState(p.first) && m_fsa2.isEndState(p.second));
+        return isFinal(m_fsa1, p.first) && isFinal(m_fsa2, p.second);
     }
 
     std::set<arc_type, ArcSorter> arcFn(state_type p) const {
@@ -248,8 +248,12 @@ class Intersector {
 
                 for (typename FSA1::arc_iterator_type ait1 = arcRange1.first;
                     ait1 != arcRange1.second; ait1++) {
+                    if (ait1->getSymbol() == EPS)
+                        continue;
                     for (typename FSA2::arc_iterator_type ait2 = arcRange2.first;
                         ait2 != arcRange2.second; ait2++) {
+                        if (ait2->getSymbol() == EPS)
+                            continue;
                         if (ait1->getSymbol() == ait2->getSymbol()) {
                            arcs.insert(
                                arc_type(
@@ -285,6 +289,14 @@ class Intersector {
     }
 
   private:
+    template <typename FSA>
+    static bool isFinal(const FSA &fsa, typename FSA::state_type p) {
+        BOOST_FOREACH(typename FSA::state_type q, fsa.epsClosure(p))
+            if (fsa.isEndState(q))
+                return true;
+        return false;
+    }
+
     const FSA1 &m_fsa1;
     const FSA2 &m_fsa2;
     bool m_allowAny;
-- 
2.43.0


From 9567bd6c2525c08b27d59db8907ef5e816219519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 032/109] fix: optional and starred automata accept the empty
 word

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 9963879..c1655e1 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -601,6 +601,8 @@ void kleene_option(FSA &fsa) {
         fsa.unsetEndState(p);
         fsa.addArc(p, typename FSA::arc_type(EPS, ne));
     }
+
+    fsa.addArc(ns, typename FSA::arc_type(EPS, ne));
 }
 
 /*******************************************************************************
-- 
2.43.0


From 91090d434e891786ec815c51d4920c252b887cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 033/109] fix: concatenation with an automaton that accepts
 nothing accepts nothing

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index c1655e1..f62ada6 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -553,6 +553,7 @@ template <typename FSA1, typename FSA2>
 void concatenate(FSA1 &dst, FSA2 &src) {
     std::set<typename FSA1::state_type> first_start  = dst.getStartStates();
     std::set<typename FSA1::state_type> first_end    = dst.getEndStates();
+    bool first_has_states = dst.size() > 0;
 
     Copier<FSA2> copier(src);
     traverse(copier, dst);
@@ -561,13 +562,17 @@ void concatenate(FSA1 &dst, FSA2 &src) {
 
     BOOST_FOREACH(typename FSA1::state_type p, first_end) {
         BOOST_FOREACH(typename FSA1::state_type q, second_start) {
-            if (!first_start.count(q)) {
+            if (!first_start.count(q))
                 dst.addArc(p, typename FSA1::arc_type(EPS, q));
-                dst.unsetStartState(q);
-            }
         }
         dst.unsetEndState(p);
     }
+
+    // concatenation with an automaton without any states gives the other one
+    if (first_has_states)
+        BOOST_FOREACH(typename FSA1::state_type q, second_start)
+            if (!first_start.count(q))
+                dst.unsetStartState(q);
 }
 
 /*******************************************************************************
-- 
2.43.0


From b47493dda9edb5237a513f69f65953e131028e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 034/109] fix: incremental minimization of no words or only the
 empty word

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index f62ada6..bfda0b7 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -705,7 +705,9 @@ void minimize_incremental(DFSA &dst, Iterator current, Iterator end) {
         if (count % 1000000 == 0)
             INFO("[" << count << "]");
     }
-    replace_or_register(fsa, state_register, q0);
+    ArcRange<ArcIt> start_range = fsa.getArcs(q0);
+    if (start_range.first != start_range.second)
+        replace_or_register(fsa, state_register, q0);
     dst.swap(fsa);
 
     INFO("Done");
-- 
2.43.0


From 3380038eef032809ffc22bdba03f63a80757ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 035/109] fix: automata without states or arcs are not read out
 of bounds

---
 .../datastructures/psi_query/fsa_bindfsa.hpp  | 19 ++++++++++---------
 tools/datastructures/psi_query/fsa_dfsa.hpp   |  2 +-
 .../psi_query/fsa_ndfsa_impl.hpp              |  2 +-
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index f263ac7..cd66537 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -46,7 +46,7 @@ class BinDFSA {
     BinDFSA(std::string);
 
     boost::optional<state_type> delta(state_type p, symbol_type a) const {
-       if (m_states.size() < p)
+       if (m_states.size() <= p)
            return boost::optional<state_type>();
 
        arc_iterator_type arc = find(p, a);
@@ -157,7 +157,7 @@ void BinDFSA<ArcT, PosT, Allocator>::addArc(size_t p, ArcT a) {
 
         // Bugfix for the allocator, flawed insertion on reallocation
         if (m_arcs.capacity() == m_arcs.size())
-            m_arcs.reserve(m_arcs.size()*2);
+            m_arcs.reserve(m_arcs.size()*2 + 1);
         m_arcs.insert(m_arcs.begin() + pos, a);
 
         for (size_t q = p + 1; q < m_states.size(); q++)
@@ -219,7 +219,8 @@ PosT BinDFSA<ArcT, PosT, Allocator>::unsetLastBit(PosT pos) const {
 
 template <typename ArcT, typename PosT, template <typename> class Allocator>
 bool BinDFSA<ArcT, PosT, Allocator>::isEndState(size_t state) const {
-    return (m_states[state] & (PosT(1) << (sizeof(PosT)*8-1)));
+    return state < m_states.size()
+        && (m_states[state] & (PosT(1) << (sizeof(PosT)*8-1)));
 }
 
 template <typename ArcT, typename PosT, template <typename> class Allocator>
@@ -236,7 +237,7 @@ const std::set<size_t> BinDFSA<ArcT, PosT, Allocator>::getEndStates() const {
 template <typename ArcT, typename PosT, template <typename> class Allocator>
 const ArcRange<typename BinDFSA<ArcT, PosT, Allocator>::arc_iterator_type>
 BinDFSA<ArcT, PosT, Allocator>::getArcs(size_t p) const {
-    if (p < m_states.size()-1) {
+    if (p + 1 < m_states.size()) {
         PosT pos1 = unsetLastBit(m_states[p]);
         PosT pos2 = unsetLastBit(m_states[p+1]);
 
@@ -251,7 +252,7 @@ BinDFSA<ArcT, PosT, Allocator>::getArcs(size_t p) const {
             ait2
         );
     }
-    else if (p == m_states.size()-1) {
+    else if (p + 1 == m_states.size()) {
         PosT pos = unsetLastBit(m_states[p]);
         arc_iterator_type ait = m_arcs.begin();
         ait += pos;
@@ -337,12 +338,12 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
       uint64_t statesNum;
       istream.read((char*)&statesNum, sizeof(uint64_t));
       m_states.resize(statesNum);
-      istream.read((char*)&m_states[0], statesNum * sizeof(PosT));
+      istream.read((char*)m_states.data(), statesNum * sizeof(PosT));
 
       uint64_t arcsNum;
       istream.read((char*)&arcsNum, sizeof(uint64_t));
       m_arcs.resize(arcsNum);
-      istream.read((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+      istream.read((char*)m_arcs.data(), arcsNum * sizeof(ArcT));
   }
   in.seekg(end);
 }
@@ -367,11 +368,11 @@ void BinDFSA<ArcT, PosT, Allocator>::save(OStream& out) {
 
       uint64_t statesNum = m_states.size();
       ostream.write((char*)&statesNum, sizeof(uint64_t));
-      ostream.write((char*)&m_states[0], statesNum * sizeof(PosT));
+      ostream.write((char*)m_states.data(), statesNum * sizeof(PosT));
 
       uint64_t arcsNum = m_arcs.size();
       ostream.write((char*)&arcsNum, sizeof(uint64_t));
-      ostream.write((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+      ostream.write((char*)m_arcs.data(), arcsNum * sizeof(ArcT));
   }
   // Some magic to remember the exact gzip stream end:
   uint64_t end = out.tellp();
diff --git a/tools/datastructures/psi_query/fsa_dfsa.hpp b/tools/datastructures/psi_query/fsa_dfsa.hpp
index 5c914ba..e86b014 100644
--- a/tools/datastructures/psi_query/fsa_dfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_dfsa.hpp
@@ -65,7 +65,7 @@ state_type delta(state_type p, symbol_type a) const;
 
 *******************************************************************************/
     boost::optional<state_type> delta(state_type p, symbol_type a) const {
-        if (NDFSA<ArcT>::m_states.size() < (size_t)p)
+        if (NDFSA<ArcT>::m_states.size() <= (size_t)p)
             return boost::optional<state_type>();
 
         //std::cerr << "Looking for: " << p << " " << (int)a << std::endl;
diff --git a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
index cbc4a63..29fc0be 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
@@ -63,7 +63,7 @@ template <typename ArcT>
 inline std::set<typename ArcT::state_type> NDFSA<ArcT>
     ::deltaPrime(typename ArcT::state_type p, typename ArcT::symbol_type a) const {
 
-    if (m_states.size() < (size_t)p)
+    if (m_states.size() <= (size_t)p)
         return std::set<state_type>();
 
     std::set<state_type> destinations;
-- 
2.43.0


From ac4732898c974a67a6c60c13d757032bfdf07846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 036/109] fix: an automaton is loaded correctly when other data
 follow it in the stream

---
 tools/datastructures/psi_query/fsa_bindfsa.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index cd66537..14f0ed8 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -12,6 +12,7 @@
 #include <boost/optional.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 #include <boost/iostreams/copy.hpp>
+#include <boost/iostreams/device/array.hpp>
 #include <boost/iostreams/filter/gzip.hpp>
 
 #include "fsa_types.hpp"
@@ -331,9 +332,13 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
   uint64_t end;
   in.read((char*) &end, sizeof(uint64_t));
   {
+      // The decompressor must not see what follows this automaton in the stream
+      std::vector<char> data(end - (uint64_t) in.tellg());
+      in.read(data.data(), data.size());
+
       boost::iostreams::filtering_istream istream;
       istream.push(boost::iostreams::gzip_decompressor());
-      istream.push(in);
+      istream.push(boost::iostreams::array_source(data.data(), data.size()));
 
       uint64_t statesNum;
       istream.read((char*)&statesNum, sizeof(uint64_t));
-- 
2.43.0


From 8cd0639579e0a5064e5883e540fcf86becf667c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 037/109] fix: escape control characters in JSON output

---
 .../json_lattice_writer_output.cpp            | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..6c08ade 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -185,11 +185,29 @@ void JSONLatticeWriterOutput::printCurrentArrayToString_(std::string & output) {
 
 void JSONLatticeWriterOutput::createEscapedJSONString_(
                 const std::string & content, std::string & output) {
-    output = content;
-    boost::replace_all(output, "\\", "\\\\");
-    boost::replace_all(output, "\"", "\\\"");
-
-    output = "\"" + output + "\"";
+    static const char hexDigits[] = "0123456789abcdef";
+
+    output = "\"";
+    BOOST_FOREACH(char c, content) {
+        switch (c) {
+        case '\\': output += "\\\\"; break;
+        case '"': output += "\\\""; break;
+        case '\b': output += "\\b"; break;
+        case '\f': output += "\\f"; break;
+        case '\n': output += "\\n"; break;
+        case '\r': output += "\\r"; break;
+        case '\t': output += "\\t"; break;
+        default:
+            if (static_cast<unsigned char>(c) < 0x20) {
+                output += "\\u00";
+                output += hexDigits[c >> 4];
+                output += hexDigits[c & 15];
+            } else {
+                output += c;
+            }
+        }
+    }
+    output += "\"";
 }
 
 
-- 
2.43.0


From 4c490c1ba27ad51ec22fb5bbaa7c6682ecc859b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 038/109] fix: do not dereference unset positions of edges
 between loose vertices in the bracketing writer

---
 .../bracketing-writer/bracketing_lattice_writer.hpp         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7c4eb3b..bc9cf63 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -181,6 +181,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
         }
 
         BOOST_FOREACH(EdgeData ed, collectedEdges) {
+            if (!ed.begin || !ed.end) {
+                continue; // the edge has no place in the text
+            }
             BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
         }
 
@@ -194,6 +197,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue;
             }
             EdgeData edgeData = getEdgeData_(edge);
+            if (!edgeData.begin || !edgeData.end) {
+                continue; // the edge has no place in the text
+            }
             BracketPrinter::insertElementIntoContainer(
                 edgeStore[*edgeData.begin][*edgeData.end],
                 edgeData);
-- 
2.43.0


From 1b26be490e1ea57f2f3032bf2e4ae9cd0a0754bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 039/109] fix: check the first pair again after reordering
 brackets

---
 .../bracketing/bracketing-writer/bracketing_lattice_writer.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index bc9cf63..7f6e7e0 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -221,7 +221,7 @@ void BracketingLatticeWriter::Worker::doRun_() {
                         ) {
                             vprinted[a].swap(vprinted[b]);
                             a = 0;
-                            b = 1;
+                            b = 0; // the next pair is (0, 1)
                         }
                     }
                 }
-- 
2.43.0


From 7a06a5696cff13657937b7920db4e5e24379d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 040/109] fix: asking for an absent attribute in a bracket
 pattern must not add it

---
 formats/bracketing/bracketing-writer/bracket_printer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracket_printer.hpp b/formats/bracketing/bracketing-writer/bracket_printer.hpp
index 8389f05..0fe48b0 100644
--- a/formats/bracketing/bracketing-writer/bracket_printer.hpp
+++ b/formats/bracketing/bracketing-writer/bracket_printer.hpp
@@ -136,8 +136,12 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 size_t to = pattern.find(close_(pattern[i+2]), from);
                                 if (to != std::string::npos) {
                                     std::string attr = pattern.substr(from, to-from);
-                                    resSs << edgeData.avMap[attr];
-                                    thisEdgeData.avMap[attr] = edgeData.avMap[attr];
+                                    std::map<std::string, std::string>::const_iterator av
+                                        = edgeData.avMap.find(attr);
+                                    std::string value
+                                        = av == edgeData.avMap.end() ? "" : av->second;
+                                    resSs << value;
+                                    thisEdgeData.avMap[attr] = value;
                                     i = to + 1;
                                 } else {
                                     resSs << "%a";
-- 
2.43.0


From 8be7eab22a386941a45325e3c5fb33402e05e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 041/109] fix: match globs by whole characters and within the
 name

---
 common/segment_glob.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/common/segment_glob.cpp b/common/segment_glob.cpp
index 9b40639..98dbb42 100644
--- a/common/segment_glob.cpp
+++ b/common/segment_glob.cpp
@@ -1,6 +1,17 @@
 #include "segment_glob.hpp"
 
-#include "utf8/utf8.h"
+namespace {
+
+// Moves to the next character of a NUL-terminated string (never past the NUL,
+// even if the string is not valid UTF-8).
+void nextCharacter(const char*& s) {
+    if (*s)
+        ++s;
+    while ((static_cast<unsigned char>(*s) & 0xC0) == 0x80)
+        ++s;
+}
+
+}
 
 SegmentGlob::SegmentGlob(const std::string& glob):glob_(glob) {
     checkIfFixed_();
@@ -22,7 +33,7 @@ bool SegmentGlob::matches(const std::string& segment) const {
             return false;
         }
         if (*g == '?')
-            utf8::unchecked::next(s);
+            nextCharacter(s);
         else
             ++s;
 
@@ -35,16 +46,18 @@ bool SegmentGlob::matches(const std::string& segment) const {
                 return true;
             }
             mp = g;
-            cp = s+1;
+            cp = s;
+            nextCharacter(cp);
         } else if (*g == '?') {
             ++g;
-            utf8::unchecked::next(s);
+            nextCharacter(s);
         } else if (*g == *s) {
             ++g;
             ++s;
         } else {
             g = mp;
-            s = cp++;
+            s = cp;
+            nextCharacter(cp);
         }
     }
 
-- 
2.43.0


From 1e474581f2659bd7d4e3be8e5e7d53056c60c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 042/109] fix: find special casing records in tables that are
 not sorted

---
 utf8case/special_casing_converter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utf8case/special_casing_converter.cpp b/utf8case/special_casing_converter.cpp
index c23afb9..3592c3d 100644
--- a/utf8case/special_casing_converter.cpp
+++ b/utf8case/special_casing_converter.cpp
@@ -5,9 +5,6 @@ const char* SpecialCasingConverter::convert(uint32_t code_point) const {
     for (size_t i = 0; i < tableSize_; ++i) {
         const SpecialCasingConversionRecord* currentRecord = &conversionTable_[i];
 
-        if (code_point < currentRecord->code_point)
-            return 0;
-
         if (code_point == currentRecord->code_point)
             return currentRecord->replacement;
     }
-- 
2.43.0


From 8d2fc2f83ff6e00f772101c194ee7b3ae0a3e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 043/109] fix: a character whose special casing is itself is
 not touched by conversion

---
 utf8case/general_case_converter.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utf8case/general_case_converter.hpp b/utf8case/general_case_converter.hpp
index 6d5439e..0f79e53 100644
--- a/utf8case/general_case_converter.hpp
+++ b/utf8case/general_case_converter.hpp
@@ -1,6 +1,9 @@
 #ifndef GENERAL_CASE_CONVERTER_HDR
 #define GENERAL_CASE_CONVERTER_HDR
 
+#include <iterator>
+#include <string>
+
 #include <boost/shared_ptr.hpp>
 
 #include "range_based_case_converter.hpp"
@@ -26,8 +29,12 @@ public:
         while (start != end) {
             uint32_t code_point = utf8::unchecked::next(start);
 
-            if (specialCasingConverter_->convert(code_point)
-                || rangeBasedCaseConverter_->convert(code_point) != code_point)
+            if (const char* special = specialCasingConverter_->convert(code_point)) {
+                std::string unchanged;
+                utf8::unchecked::append(code_point, std::back_inserter(unchanged));
+                if (unchanged != special)
+                    return true;
+            } else if (rangeBasedCaseConverter_->convert(code_point) != code_point)
                 return true;
         }
 
-- 
2.43.0


From 9073ce989c4ba7b97fae03e5ddb76d2f875f6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 044/109] fix: count the length of UTT segments in unescaped
 characters

---
 formats/utt/utt_lattice_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index decf0c0..1a40f74 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -75,11 +75,12 @@ void UTTLatticeReader::Worker::doRun() {
                 item.position = endPosition;
             }
 
+            item.unescape(quoter);
+
             if (item.length < 0) {
                 item.length = utf8::distance(item.form.begin(), item.form.end());
             }
 
-            item.unescape(quoter);
             endPosition = item.position + item.length;
 
             if (item.length > 0) {
-- 
2.43.0


From b81e1e92d3e613661f7a9772a379c9aa97e64b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 045/109] fix: a UTT segment over text already read must not
 move the end of the text

---
 formats/utt/utt_lattice_reader.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index 1a40f74..2855efd 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -108,11 +108,9 @@ void UTTLatticeReader::Worker::doRun() {
                             break; // Don't need to iterate further.
                         }
                     }
-                    for (
-                        int i = conv.utt(lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
-                        i < endPosition;
-                        ++i
-                    ) {
+                    int textEndPosition
+                        = conv.utt(lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
+                    for (int i = textEndPosition; i < endPosition; ++i) {
                         conv.add(i, lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
                         try {
                             std::string symbol;
@@ -123,10 +121,12 @@ void UTTLatticeReader::Worker::doRun() {
                                 // Appending lattice with undefined content.
                         }
                     }
-                    conv.add(
-                        endPosition,
-                        lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
-                    );
+                    if (textEndPosition <= endPosition) {
+                        conv.add(
+                            endPosition,
+                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                        );
+                    }
                 }
 
                 Lattice::VertexDescriptor from
-- 
2.43.0


From 9599f870dcdb34dc188b8180e2e38ef7e6a972ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 046/109] fix: a request body is as many bytes as its length
 header says

---
 server/server/request_parser.cpp | 39 ++++++++++++++------------------
 server/server/request_parser.hpp |  2 +-
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..748dbb5 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -295,7 +295,12 @@ boost::tribool request_parser::consume(request& req, char input)
             else {
                 state_ = multipart_start;
             }
-            set_post_data_length(req);
+            if (!set_post_data_length(req)) {
+                return false;
+            }
+            if (post_data_length_ == 0) {
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
@@ -308,25 +313,10 @@ boost::tribool request_parser::consume(request& req, char input)
         return false;
     }
   case post_line_start:
-    if (input != '\n' && input != '\r') {
-
-        if (post_data_length_counter_ < post_data_length_) {
-            post_data_length_counter_++;
-            req.post_data += input;
-            return boost::indeterminate;
-        }
-        else {
-            req.post_data += input;
-            return true;
-        }
-    }
-    else {
-        return false;
-    }
   case multipart_start:
+    req.post_data += input;
+    post_data_length_counter_++;
     if (post_data_length_counter_ < post_data_length_) {
-        post_data_length_counter_++;
-        req.post_data += input;
         return boost::indeterminate;
     }
     else {
@@ -346,18 +336,23 @@ bool request_parser::is_multipart(request& req) {
     return false;
 }
 
-void request_parser::set_post_data_length(request& req) {
-    post_data_length_counter_ = 1;
+bool request_parser::set_post_data_length(request& req) {
+    post_data_length_counter_ = 0;
     post_data_length_ = 0;
 
     std::string val = req.get_header_value("Content-Length");
-    if (!val.empty()) {
-        post_data_length_ = atoi(val.c_str());
+    for (std::size_t i = 0; i < val.size(); ++i) {
+        if (!is_digit(val[i]) || post_data_length_ > 100000000) {
+            return false;
+        }
+        post_data_length_ = post_data_length_ * 10 + (val[i] - '0');
     }
 
     if (post_data_length_ == 0) {
         ERROR("The Content-Length header has been not found for POST method request");
     }
+
+    return true;
 }
 
 bool request_parser::is_char(int c)
diff --git a/server/server/request_parser.hpp b/server/server/request_parser.hpp
index 887914d..4f9541d 100644
--- a/server/server/request_parser.hpp
+++ b/server/server/request_parser.hpp
@@ -90,7 +90,7 @@ private:
     multipart_start
   } state_;
 
-  void set_post_data_length(request& req);
+  bool set_post_data_length(request& req);
   int post_data_length_;
   int post_data_length_counter_;
 
-- 
2.43.0


From c9adf984387fcd24065465c8b38286f27fec4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 047/109] fix: refuse HTTP version numbers that overflow

---
 server/server/request_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index 748dbb5..a1fa9bb 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -148,7 +148,7 @@ boost::tribool request_parser::consume(request& req, char input)
       state_ = http_version_minor_start;
       return boost::indeterminate;
     }
-    else if (is_digit(input))
+    else if (is_digit(input) && req.http_version_major < 10000)
     {
       req.http_version_major = req.http_version_major * 10 + input - '0';
       return boost::indeterminate;
@@ -174,7 +174,7 @@ boost::tribool request_parser::consume(request& req, char input)
       state_ = expecting_newline_1;
       return boost::indeterminate;
     }
-    else if (is_digit(input))
+    else if (is_digit(input) && req.http_version_minor < 10000)
     {
       req.http_version_minor = req.http_version_minor * 10 + input - '0';
       return boost::indeterminate;
-- 
2.43.0


From f0849850c825d9c7fb4710d2a96835bfae855951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 048/109] fix: names of HTTP headers are case-insensitive

---
 server/server/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server/request.hpp b/server/server/request.hpp
index cb2f975..3451a4f 100644
--- a/server/server/request.hpp
+++ b/server/server/request.hpp
@@ -6,8 +6,10 @@
 #ifndef HTTP_SERVER3_REQUEST_HPP
 #define HTTP_SERVER3_REQUEST_HPP
 
+#include <locale>
 #include <string>
 #include <vector>
+#include <boost/algorithm/string/predicate.hpp>
 #include "header.hpp"
 
 namespace http {
@@ -25,7 +27,8 @@ struct request
 
     std::string get_header_value(const char * str) {
         for (unsigned int i = headers.size(); i > 0; i--) {
-            if (headers[i-1].name == str) {
+            // names of headers are case-insensitive
+            if (boost::algorithm::iequals(headers[i-1].name, str, std::locale::classic())) {
                 return headers[i-1].value;
             }
         }
-- 
2.43.0


From c3831230b1cd8b73b1ee7d5161b0d86c2af6da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 049/109] fix: split form data into fields at & and decode the
 names, too

---
 server/psi_server.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..252b03c 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -8,6 +8,7 @@
 #include <boost/bind.hpp>
 #include <boost/lexical_cast.hpp>
 
+#include <algorithm>
 #include <iostream>
 
 typedef std::multimap <std::string, std::string> psis_mmp_name_value;
@@ -175,34 +176,24 @@ void PsiServer::parseMultipartFormData(http::server3::request& req) {
 }
 
 void PsiServer::parseNamesAndValues(std::string uri, int q) {
-    std::string name;
-    std::string value;
+    std::string::size_type p = q;
 
-    int p = q;
-    int flag_done = 0;
+    while (p < uri.size()) {
+        std::string::size_type end = uri.find("&", p);
+        if (end == std::string::npos) end = uri.size();
 
-    while (!flag_done) {
-        q = uri.find("=", p);
-        name = uri.substr(p, q-p);
-        p = q + 1;
-        q = uri.find("&", p);
+        std::string::size_type eq = uri.find("=", p);
+        if (eq == std::string::npos || eq > end) eq = end;
 
-        if (q != -1) {
-            value = uri.substr(p, q-p);
-        } else {
-            value = uri.substr(p);
-            flag_done = 1;
-        }
+        std::string name = uri.substr(p, eq - p);
+        std::string value = (eq < end ? uri.substr(eq + 1, end - eq - 1) : std::string());
 
         // the browser sends blanks as +
-        while (1) {
-            int p = value.find("+");
-            if (p == -1) break;
-            value.replace(p, 1, " ");
-        }
+        std::replace(name.begin(), name.end(), '+', ' ');
+        std::replace(value.begin(), value.end(), '+', ' ');
 
-        addDataToCurrentSession(name, urlDecode(value));
-        p = q + 1;
+        addDataToCurrentSession(urlDecode(name), urlDecode(value));
+        p = end + 1;
     }
 }
 
-- 
2.43.0


From 82afad8fff9801464dcc2d7a4d4a4de6a1ae7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 050/109] fix: leave malformed escapes of form data alone
 instead of decoding garbage

---
 server/psi_server.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 252b03c..40c1a37 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -9,6 +9,8 @@
 #include <boost/lexical_cast.hpp>
 
 #include <algorithm>
+#include <cctype>
+#include <cstdio>
 #include <iostream>
 
 typedef std::multimap <std::string, std::string> psis_mmp_name_value;
@@ -206,11 +208,14 @@ std::string PsiServer::urlDecode(std::string & encodedString) {
 
     char ch;
     unsigned int i;
-    int j;
+    unsigned int j;
 
     for (i = 0; i < encodedString.length(); i++) {
 
-        if (int(encodedString[i]) == 37) {
+        if (int(encodedString[i]) == 37
+            && i + 2 < encodedString.length()
+            && isxdigit(static_cast<unsigned char>(encodedString[i+1]))
+            && isxdigit(static_cast<unsigned char>(encodedString[i+2]))) {
             sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
 
             ch = static_cast<char>(j);
-- 
2.43.0


From c9245f22122eac2a58c405db01b90a14d5478e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 051/109] fix: a cookie that ends with the name of the session
 cookie must not stop the server

---
 server/session_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..e5ddf0f 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -10,7 +10,7 @@ std::string SessionManager::SessionId(std::string cookies) {
     size_t hasId = cookies.find(cookieIdentifier);
 
     std::string id = "";
-    if (hasId != std::string::npos) {
+    if (hasId != std::string::npos && hasId + cookieIdentifier.size() < cookies.size()) {
         id = cookies.substr(hasId + cookieIdentifier.size() + 1, sessionIdLength);
     }
     return id;
-- 
2.43.0


From 39c9c5198417a4a59c12586abf8e43e287728c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 052/109] fix: do not mix new[] with delete and realloc in the
 multipart parser

---
 server/mpfd-parser/Field.cpp  | 12 +++++++++---
 server/mpfd-parser/Parser.cpp | 17 +++++++----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index 610ae2d..ec3340b 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -17,7 +17,7 @@ MPFD::Field::Field() {
 MPFD::Field::~Field() {
 
     if (FieldContent) {
-        delete FieldContent;
+        delete [] FieldContent;
     }
 
     if (type == FileType) {
@@ -52,7 +52,10 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
         if (FieldContent == NULL) {
             FieldContent = new char[length + 1];
         } else {
-            FieldContent = (char*) realloc(FieldContent, FieldContentLength + length + 1);
+            char *tmp = FieldContent;
+            FieldContent = new char[FieldContentLength + length + 1];
+            memcpy(FieldContent, tmp, FieldContentLength);
+            delete [] tmp;
         }
 
         memcpy(FieldContent + FieldContentLength, data, length);
@@ -95,7 +98,10 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
             if (FieldContent == NULL) {
                 FieldContent = new char[length];
             } else {
-                FieldContent = (char*) realloc(FieldContent, FieldContentLength + length);
+                char *tmp = FieldContent;
+                FieldContent = new char[FieldContentLength + length];
+                memcpy(FieldContent, tmp, FieldContentLength);
+                delete [] tmp;
             }
             memcpy(FieldContent + FieldContentLength, data, length);
             FieldContentLength += length;
diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 5941706..a0d9125 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -28,7 +28,7 @@ MPFD::Parser::~Parser() {
     }
 
     if (DataCollector) {
-        delete DataCollector;
+        delete [] DataCollector;
     }
 }
 
@@ -57,8 +57,11 @@ void MPFD::Parser::AcceptSomeData(const char *data, const long length) {
             memcpy(DataCollector, data, length);
             DataCollectorLength = length;
         } else {
-            DataCollector = (char*) realloc(DataCollector, DataCollectorLength + length);
+            char *tmp = DataCollector;
+            DataCollector = new char[DataCollectorLength + length];
+            memcpy(DataCollector, tmp, DataCollectorLength);
             memcpy(DataCollector + DataCollectorLength, data, length);
+            delete [] tmp;
             DataCollectorLength += length;
         }
 
@@ -133,16 +136,10 @@ bool MPFD::Parser::WaitForHeadersEndAndParseThem() {
     for (int i = 0; i < DataCollectorLength - 3; i++) {
         if ((DataCollector[i] == 13) && (DataCollector[i + 1] == 10) && (DataCollector[i + 2] == 13) && (DataCollector[i + 3] == 10)) {
             long headers_length = i;
-            char *headers = new char[headers_length + 1];
-            memset(headers, 0, headers_length + 1);
-            memcpy(headers, DataCollector, headers_length);
-
-            _ParseHeaders(std::string(headers));
+            _ParseHeaders(std::string(DataCollector, headers_length));
 
             TruncateDataCollectorFromTheBeginning(i + 4);
 
-            //delete headers;
-
             return true;
         }
     }
@@ -229,7 +226,7 @@ void MPFD::Parser::TruncateDataCollectorFromTheBeginning(long n) {
 
     DataCollectorLength = TruncatedDataCollectorLength;
 
-    delete tmp;
+    delete [] tmp;
 
 }
 
-- 
2.43.0


From 09172f8bf33ab1799a903fdc8fdf14072a8bba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 053/109] fix: keep all parts of a text field that arrives in
 pieces, NUL bytes included

---
 server/mpfd-parser/Field.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index ec3340b..399caad 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -59,7 +59,8 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
         }
 
         memcpy(FieldContent + FieldContentLength, data, length);
-        FieldContent[FieldContentLength + length] = 0;
+        FieldContentLength += length;
+        FieldContent[FieldContentLength] = 0;
     } else if (type == FileType) {
         if (WhereToStoreUploadedFiles == Parser::StoreUploadedFilesInFilesystem) {
             if (TempDir.length() > 0) {
@@ -157,7 +158,7 @@ std::string MPFD::Field::GetTextTypeContent() {
             if (FieldContent == NULL) {
                 return std::string();
             } else {
-                return std::string(FieldContent);
+                return std::string(FieldContent, FieldContentLength);
             }
         }
     }
-- 
2.43.0


From 60557b67eb1779e03376fe96999e8a1567ed0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 054/109] fix: do not take filename= of an uploaded field for
 its name

---
 server/mpfd-parser/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index a0d9125..427081f 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -162,6 +162,9 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
 
     // Find name
     unsigned long name_pos = headers.find("name=\"");
+    while (name_pos != std::string::npos && name_pos > 0 && isalpha(static_cast<unsigned char>(headers[name_pos - 1]))) {
+        name_pos = headers.find("name=\"", name_pos + 1); // it was "filename="
+    }
     if (name_pos == std::string::npos) {
         throw Exception(std::string("Accepted headers of field does not contain \"name=\".\nThe headers are: \"") + headers + std::string("\""));
     } else {
-- 
2.43.0


From ba83bf5ff548b35c915363137cd35db985b0288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 055/109] fix: read the content type of an uploaded file to its
 end

---
 server/mpfd-parser/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 427081f..c3eb3c2 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -197,10 +197,10 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
             // find Content-Type if exists
             unsigned long content_type_pos = headers.find("Content-Type: ");
             if (content_type_pos != std::string::npos) {
-                long content_type_end_pos = 0;
-                for (unsigned int i = content_type_pos + 14; (i < headers.length()) && (!content_type_end_pos); i++) {
+                unsigned long content_type_end_pos = headers.length();
+                for (unsigned int i = content_type_pos + 14; (i < content_type_end_pos); i++) {
                     if ((headers[i] == ' ') || (headers[i] == 10) || (headers[i] == 13)) {
-                        content_type_end_pos = i - 1;
+                        content_type_end_pos = i;
                     }
                 }
                 std::string content_type = headers.substr(content_type_pos + 14, content_type_end_pos - (content_type_pos + 14));
-- 
2.43.0


From a051571579ad1e3017d0c2a4a2d93a1a97cd4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 056/109] fix: refuse URIs with malformed escapes

---
 server/server/request_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..5be51d7 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -4,6 +4,7 @@
 //
 
 #include "request_handler.hpp"
+#include <cctype>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -82,7 +83,9 @@ bool request_handler::url_decode(const std::string& in, std::string& out)
   {
     if (in[i] == '%')
     {
-      if (i + 3 <= in.size())
+      if (i + 3 <= in.size()
+          && std::isxdigit(static_cast<unsigned char>(in[i + 1]))
+          && std::isxdigit(static_cast<unsigned char>(in[i + 2])))
       {
         int value = 0;
         std::istringstream is(in.substr(i + 1, 2));
-- 
2.43.0


From 4cac0bf2e7531ccb353eabdfac032f1857d491c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 057/109] fix: refuse URIs with an encoded NUL, which cut the
 file name short

---
 server/server/request_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index 5be51d7..641cf1e 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -33,7 +33,8 @@ void request_handler::handle_request(const request& req, reply& rep)
 
   // Request path must be absolute and not contain "..".
   if (request_path.empty() || request_path[0] != '/'
-      || request_path.find("..") != std::string::npos)
+      || request_path.find("..") != std::string::npos
+      || request_path.find('\0') != std::string::npos)
   {
     rep = reply::stock_reply(reply::bad_request);
     return;
-- 
2.43.0


From ab585bc6f6fcede82e8a1b43fd960901e64c4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 058/109] fix: a directory named without a slash is not found,
 not an empty file

---
 server/server/request_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index 641cf1e..f69ad0c 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -69,6 +69,11 @@ void request_handler::handle_request(const request& req, reply& rep)
   char buf[512];
   while (is.read(buf, sizeof(buf)).gcount() > 0)
     rep.content.append(buf, is.gcount());
+  if (is.bad()) // it was a directory
+  {
+    rep = reply::stock_reply(reply::not_found);
+    return;
+  }
   rep.headers.resize(2);
   rep.headers[0].name = "Content-Length";
   rep.headers[0].value = boost::lexical_cast<std::string>(rep.content.size());
-- 
2.43.0


From 5ea1048362394e46a22f8f9fc36372b470579541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 059/109] fix: worker threads must not work on the shared
 sessions and sites at the same time

---
 server/psi_request_handler.cpp | 3 +++
 server/psi_request_handler.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 64a51db..6861a3e 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -37,6 +37,9 @@ std::map<std::string, std::string> PsiRequestHandler::fileExceptionsToContentTyp
 void PsiRequestHandler::handle_request(
     const http::server3::request& req, http::server3::reply& rep
 ) {
+    // The sites, the sessions and the current session are shared by all worker threads.
+    boost::mutex::scoped_lock lock(mutex_);
+
     http::server3::request req_modified = req;
 
     // session management
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index abe865f..22ae721 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -1,5 +1,7 @@
 #include "psi_server.hpp"
 
+#include <boost/thread/mutex.hpp>
+
 #ifndef PSI_SERVER_HANDLER_HDR
 #define PSI_SERVER_HANDLER_HDR
 
@@ -18,6 +20,7 @@ public:
 
 private:
     PsiServer* psi_server_;
+    boost::mutex mutex_;
 
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
-- 
2.43.0


From 15b37b95470f5d522e4e00542aaf3a5cec799afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 060/109] fix: the JSON page must not show the output of
 another client

---
 server/site/json_site.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 40f668b..a50e91d 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -35,7 +35,9 @@ JsonSite::JsonSite(PsiServer& server) : TemplateSite(server), output_("{}") {
 }
 
 char * JsonSite::jsonOutput() {
-    return stringToChar(output_.str());
+    // each client sees the output of its own pipeline only
+    std::string output = psiServer_.session()->getData("json-output");
+    return stringToChar(output.empty() ? "{}" : output);
 }
 
 char * JsonSite::actionJson() {
@@ -74,6 +76,7 @@ char * JsonSite::actionJson() {
     }
 
     output_ << " }";
+    psiServer_.session()->setData("json-output", output_.str());
 
     return stringToChar(std::string("/json.html"));
 }
-- 
2.43.0


From 0d0b48eb509914a0fe7cf51961c347d7890ee5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 061/109] fix: the output of a client must not become the
 initial output of all others

---
 server/site/pipe_site.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index cccc779..9c2ce1e 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -98,9 +98,6 @@ char * PipeSite::actionPipe() {
     std::string output = runPipe_(pipe, input);
     psiServer_.session()->setData("output-text", output);
 
-    if (initialOutput_.empty())
-        initialOutput_ = output;
-
     return stringToChar(std::string("/psitoolkit.html"));
 }
 
-- 
2.43.0


From 73590f61b85e06ce9c3c5f4565e4ffa8a259916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 062/109] fix: a failed accept must not end accepting
 connections

---
 server/server/server.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/server/server/server.cpp b/server/server/server.cpp
index ad823b3..26e9e5c 100644
--- a/server/server/server.cpp
+++ b/server/server/server.cpp
@@ -69,11 +69,17 @@ void server::handle_accept(const boost::system::error_code& e)
   if (!e)
   {
     new_connection_->start();
-    new_connection_.reset(new connection(io_service_, request_handler_));
-    acceptor_.async_accept(new_connection_->socket(),
-        boost::bind(&server::handle_accept, this,
-          boost::asio::placeholders::error));
   }
+  else if (e == boost::asio::error::operation_aborted)
+  {
+    return;
+  }
+
+  // Go on accepting even if this connection failed (e.g. for want of descriptors).
+  new_connection_.reset(new connection(io_service_, request_handler_));
+  acceptor_.async_accept(new_connection_->socket(),
+      boost::bind(&server::handle_accept, this,
+        boost::asio::placeholders::error));
 }
 
 } // namespace server3
-- 
2.43.0


From b279cdef836b72ab4487f6403354c65d966b4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 063/109] fix: the processor documentation page must show what
 its client asked for

---
 server/site/processor_documentation_site.cpp | 49 +++++++++++++-------
 server/site/processor_documentation_site.hpp |  5 +-
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/server/site/processor_documentation_site.cpp b/server/site/processor_documentation_site.cpp
index cdc1eb4..7b02f01 100644
--- a/server/site/processor_documentation_site.cpp
+++ b/server/site/processor_documentation_site.cpp
@@ -9,11 +9,12 @@
 
 const std::string ProcessorDocumentationSite::PROCESSOR_NAME_PARAM = "name";
 const std::string ProcessorDocumentationSite::PROCESSOR_NOT_FOUND = "processor not found";
+const std::string ProcessorDocumentationSite::NAME_SESSION_KEY = "processor-name";
+const std::string ProcessorDocumentationSite::DOCUMENTATION_SESSION_KEY
+    = "processor-documentation";
 
 ProcessorDocumentationSite::ProcessorDocumentationSite(PsiServer& server)
-    : HelpTemplateSite(server),
-    name_(PROCESSOR_NOT_FOUND),
-    documentation_("")
+    : HelpTemplateSite(server)
 {
     htmlHelpFormatter_.setUseJavaScript(false);
 
@@ -30,18 +31,26 @@ ProcessorDocumentationSite::ProcessorDocumentationSite(PsiServer& server)
         boost::bind(&ProcessorDocumentationSite::actionProcessorDocumentation, this));
 }
 
+std::string ProcessorDocumentationSite::currentName_() {
+    return psiServer_.session()->isData(NAME_SESSION_KEY)
+        ? psiServer_.session()->getData(NAME_SESSION_KEY)
+        : PROCESSOR_NOT_FOUND;
+}
+
 char * ProcessorDocumentationSite::processorName() {
-    return stringToChar(name_);
+    return stringToChar(currentName_());
 }
 
 char * ProcessorDocumentationSite::processorFullName() {
     std::string fullName = "unknown processor";
 
-    if (name_ != PROCESSOR_NOT_FOUND) {
-        fullName = htmlHelpFormatter_.getProcessorFullName(name_);
+    std::string name = currentName_();
+
+    if (name != PROCESSOR_NOT_FOUND) {
+        fullName = htmlHelpFormatter_.getProcessorFullName(name);
     }
     if (fullName.empty()) {
-        fullName = name_;
+        fullName = name;
     }
 
     fullName = std::string("<span class=\"fullName\">") + fullName + std::string("</span>");
@@ -49,29 +58,35 @@ char * ProcessorDocumentationSite::processorFullName() {
 }
 
 char * ProcessorDocumentationSite::processorDocumentation() {
-    if (documentation_.str().empty()) {
-        documentation_ << pageNotFoundMessage();
+    std::string documentation = psiServer_.session()->getData(DOCUMENTATION_SESSION_KEY);
+    if (documentation.empty()) {
+        documentation = pageNotFoundMessage();
     }
-    return stringToChar(documentation_.str());
+    return stringToChar(documentation);
 }
 
 char * ProcessorDocumentationSite::actionProcessorDocumentation() {
-    documentation_.str(std::string());
+    std::string name = PROCESSOR_NOT_FOUND;
+    std::ostringstream documentation;
 
     if (psiServer_.session()->isData(PROCESSOR_NAME_PARAM)) {
-        name_ = psiServer_.session()->getData(PROCESSOR_NAME_PARAM);
+        name = psiServer_.session()->getData(PROCESSOR_NAME_PARAM);
 
-        if (not htmlHelpFormatter_.formatProcessorHelpsByName(name_, documentation_)) {
-            documentation_ << "Processor <code>" << name_ << "</code> not found." << std::endl;
-            name_ = PROCESSOR_NOT_FOUND;
+        if (not htmlHelpFormatter_.formatProcessorHelpsByName(name, documentation)) {
+            documentation << "Processor <code>" << name << "</code> not found." << std::endl;
+            name = PROCESSOR_NOT_FOUND;
         }
     }
     else {
-        name_ = PROCESSOR_NOT_FOUND;
-        documentation_ << "Processor not specified.";
+        documentation << "Processor not specified.";
     }
 
     psiServer_.session()->clearData(PROCESSOR_NAME_PARAM);
+
+    // each client sees the documentation it has asked for
+    psiServer_.session()->setData(NAME_SESSION_KEY, name);
+    psiServer_.session()->setData(DOCUMENTATION_SESSION_KEY, documentation.str());
+
     return stringToChar(std::string("/help/processor-documentation.html"));
 }
 
diff --git a/server/site/processor_documentation_site.hpp b/server/site/processor_documentation_site.hpp
index f4c37e5..fb3c8fc 100644
--- a/server/site/processor_documentation_site.hpp
+++ b/server/site/processor_documentation_site.hpp
@@ -19,11 +19,12 @@ public:
     char * processorDocumentationMenu();
 
 private:
-    std::string name_;
-    std::ostringstream documentation_;
+    std::string currentName_();
 
     static const std::string PROCESSOR_NAME_PARAM;
     static const std::string PROCESSOR_NOT_FOUND;
+    static const std::string NAME_SESSION_KEY;
+    static const std::string DOCUMENTATION_SESSION_KEY;
 };
 
 #endif
-- 
2.43.0


From 4498c417fff0d6f391c46a67d8d79af34952258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 064/109] fix: threads must not put together their log messages
 in one buffer

---
 common/logging.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/common/logging.hpp b/common/logging.hpp
index e3a746f..d62dced 100644
--- a/common/logging.hpp
+++ b/common/logging.hpp
@@ -8,6 +8,8 @@
 #include <iostream>
 #include <sstream>
 
+#include <boost/thread/recursive_mutex.hpp>
+
 #include <log4cpp/Category.hh>
 #include <log4cpp/OstreamAppender.hh>
 #include <log4cpp/SimpleLayout.hh>
@@ -16,6 +18,10 @@
 
 class PSILogger {
 public:
+    // the buffer is shared by all threads, a message is put together and written by one at a time
+    typedef boost::recursive_mutex::scoped_lock Lock;
+    boost::recursive_mutex & mutex() { return mutex_; }
+
     PSILogger();
     ~PSILogger();
 
@@ -43,6 +49,7 @@ private:
     void addDefaultLayoutToAppender_(log4cpp::Appender * appender);
     void setNewLoggerAppender_(log4cpp::Appender * appender);
 
+    boost::recursive_mutex mutex_;
     std::stringstream buffer;
     log4cpp::Category & logger_category;
     log4cpp::Appender * current_logger_appender;
@@ -53,46 +60,54 @@ extern PSILogger psi_logger;
 
 #define TRACE(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
         psi_logger.flush(log4cpp::Priority::DEBUG);  \
     } while (0)
 
 #define DEBUG(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
         psi_logger.flush(log4cpp::Priority::DEBUG);                     \
     } while (0)
 
 #define DEBUG_NOFLUSH(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
     } while (0)
 
 #define FLUSH \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger.flush(log4cpp::Priority::DEBUG);                     \
     } while (0)
 
 #define INFO(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
         psi_logger.flush(log4cpp::Priority::INFO);                     \
     } while (0)
 
 #define WARN(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
         psi_logger.flush(log4cpp::Priority::WARN);                     \
     } while (0)
 
 #define ERROR(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
         psi_logger.flush(log4cpp::Priority::ERROR);    \
     } while (0)
 
 #define FATAL(M) \
     do { \
+        PSILogger::Lock psi_logger_lock(psi_logger.mutex()); \
         psi_logger << M;                        \
         psi_logger.flush(log4cpp::Priority::FATAL);                     \
     } while (0)
-- 
2.43.0


From f3cc299709e336aaec345c090402c3d9645f677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 065/109] fix: escape the output and the error of a pipeline in
 JSON answers

---
 server/site/json_site.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index a50e91d..1668be6 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -1,8 +1,8 @@
+#include <cstdio>
 #include <string>
 #include <boost/bind.hpp>
 #include <boost/assign.hpp>
 #include <boost/foreach.hpp>
-#include <boost/algorithm/string/replace.hpp>
 
 #include "json_site.hpp"
 #include "pipe_runner.hpp"
@@ -15,12 +15,14 @@ const std::string JsonSite::ERROR_KEY_NAME = "error";
 
 std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
     boost::assign::map_list_of
+        ("\\", "\\\\")
         ("/", "\\/")
         ("\"", "\\\"")
         ("\n", "\\n")
         ("\r", "\\r")
         ("\t", "\\t")
         ("\b", "\\b")
+        ("\f", "\\f")
         ;
 
 const std::vector<std::string> JsonSite::JSON_WRITERS = boost::assign::list_of
@@ -64,7 +66,7 @@ char * JsonSite::actionJson() {
             addKeyValuePairToOutput_(OUTPUT_KEY_NAME, oss.str());
         }
         else {
-            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, oss.str());
+            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, escape_(oss.str()));
         }
         addKeyValuePairToOutput_(ERROR_KEY_NAME, "null", true);
     }
@@ -72,7 +74,7 @@ char * JsonSite::actionJson() {
         oss << "There are some problems: " << e.what();
 
         addKeyValuePairToOutput_(OUTPUT_KEY_NAME, "null");
-        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, oss.str(), true);
+        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, escape_(oss.str()), true);
     }
 
     output_ << " }";
@@ -98,11 +100,23 @@ bool JsonSite::isJavascriptOutput_(std::string pipe) {
 }
 
 std::string JsonSite::escape_(const std::string& text) {
-    std::string escapedText(text);
+    std::string escapedText;
 
-    typedef std::map<std::string, std::string> string_map;
-    BOOST_FOREACH(const string_map::value_type& pair, ESCAPED_CHARS) {
-        boost::replace_all(escapedText, pair.first, pair.second);
+    BOOST_FOREACH(char c, text) {
+        std::map<std::string, std::string>::const_iterator found =
+            ESCAPED_CHARS.find(std::string(1, c));
+
+        if (found != ESCAPED_CHARS.end()) {
+            escapedText += found->second;
+        }
+        else if (static_cast<unsigned char>(c) < 0x20) {
+            char code[8];
+            snprintf(code, sizeof(code), "\\u%04x", static_cast<unsigned int>(c));
+            escapedText += code;
+        }
+        else {
+            escapedText += c;
+        }
     }
 
     return escapedText;
-- 
2.43.0


From 1766423f346c07f465aa44ff724ca6085b4c9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 066/109] fix: encode the input text for the page like the
 pipeline and the output

---
 server/site/pipe_site.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index 9c2ce1e..fdb5b73 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -49,7 +49,7 @@ void PipeSite::registerIncludesAndActions_() {
 
 char * PipeSite::inputText() {
     std::string input = getOrSetDefaultData_("input-text", initialText_);
-    return stringToChar(input);
+    return stringToChar(encodeHTML_(input));
 }
 
 char * PipeSite::pipeText() {
-- 
2.43.0


From 8209a0159b5d76a8aa1db8d07f30de9c3bd68882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 067/109] fix: quote the options handed to the script of the
 page

---
 server/site/pipe_site.cpp | 29 +++++++++++++++++++++++++----
 server/site/pipe_site.hpp |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index fdb5b73..ac0d0ac 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -4,6 +4,7 @@
 #include "session_manager.hpp"
 #include "main_factories_keeper.hpp"
 
+#include <cstdio>
 #include <iostream>
 #include <sstream>
 
@@ -109,10 +110,10 @@ char * PipeSite::hiddenOptions() {
 
     std::string opts =
         std::string("psisOptions = {") +
-        std::string("'isInputFile' : '") + fileOnOff + std::string("', ") +
-        std::string("'fileToDownload' : '") + outputFile + std::string("', ") +
-        std::string("'initialOutputType' : '") + outputType + std::string("', " ) +
-        std::string("'errorOccured' : '") + errorOccured + std::string("' ") +
+        std::string("'isInputFile' : '") + encodeJavaScript_(fileOnOff) + std::string("', ") +
+        std::string("'fileToDownload' : '") + encodeJavaScript_(outputFile) + std::string("', ") +
+        std::string("'initialOutputType' : '") + encodeJavaScript_(outputType) + std::string("', " ) +
+        std::string("'errorOccured' : '") + encodeJavaScript_(errorOccured) + std::string("' ") +
         std::string("};");
 
     psiServer_.session()->clearData("radio-file");
@@ -270,3 +271,23 @@ std::string PipeSite::encodeHTML_(const std::string& data) {
 
     return buffer;
 }
+
+std::string PipeSite::encodeJavaScript_(const std::string& data) {
+    std::ostringstream buffer;
+
+    for (size_t pos = 0; pos != data.size(); ++pos) {
+        unsigned char c = data[pos];
+
+        // control characters, and those that end the string or the script
+        if (c < 0x20 || c == '\'' || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&') {
+            char code[8];
+            snprintf(code, sizeof(code), "\\x%02x", static_cast<unsigned int>(c));
+            buffer << code;
+        }
+        else {
+            buffer << data[pos];
+        }
+    }
+
+    return buffer.str();
+}
diff --git a/server/site/pipe_site.hpp b/server/site/pipe_site.hpp
index 2e8c364..a72d2fe 100644
--- a/server/site/pipe_site.hpp
+++ b/server/site/pipe_site.hpp
@@ -50,6 +50,7 @@ private:
     void tryToAddGuessingReader_(std::string& pipe);
 
     std::string encodeHTML_(const std::string& data);
+    std::string encodeJavaScript_(const std::string& data);
 
     EncodingConverter encodingConverter_;
 
-- 
2.43.0


From 87d64c9810a96dd34af1f68ac3e4b596e1227070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 068/109] fix: encode the name of an unknown processor for the
 page

---
 server/site/pipe_site.cpp                    | 18 ------------------
 server/site/pipe_site.hpp                    |  1 -
 server/site/processor_documentation_site.cpp |  3 ++-
 server/site/template_site.hpp                | 18 ++++++++++++++++++
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index ac0d0ac..2567b46 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -254,24 +254,6 @@ std::string PipeSite::generateOutput_(const std::string& rawOutput) {
     return output.str();
 }
 
-std::string PipeSite::encodeHTML_(const std::string& data) {
-    std::string buffer;
-    buffer.reserve(data.size());
-
-    for (size_t pos = 0; pos != data.size(); ++pos) {
-        switch (data[pos]) {
-            case '&':  buffer.append("&amp;");      break;
-            case '\"': buffer.append("&quot;");     break;
-            case '\'': buffer.append("&apos;");     break;
-            case '<':  buffer.append("&lt;");       break;
-            case '>':  buffer.append("&gt;");       break;
-            default:   buffer.append(1, data[pos]); break;
-        }
-    }
-
-    return buffer;
-}
-
 std::string PipeSite::encodeJavaScript_(const std::string& data) {
     std::ostringstream buffer;
 
diff --git a/server/site/pipe_site.hpp b/server/site/pipe_site.hpp
index a72d2fe..a32fa30 100644
--- a/server/site/pipe_site.hpp
+++ b/server/site/pipe_site.hpp
@@ -49,7 +49,6 @@ private:
     static const std::string GUESSING_READER;
     void tryToAddGuessingReader_(std::string& pipe);
 
-    std::string encodeHTML_(const std::string& data);
     std::string encodeJavaScript_(const std::string& data);
 
     EncodingConverter encodingConverter_;
diff --git a/server/site/processor_documentation_site.cpp b/server/site/processor_documentation_site.cpp
index 7b02f01..01421b5 100644
--- a/server/site/processor_documentation_site.cpp
+++ b/server/site/processor_documentation_site.cpp
@@ -73,7 +73,8 @@ char * ProcessorDocumentationSite::actionProcessorDocumentation() {
         name = psiServer_.session()->getData(PROCESSOR_NAME_PARAM);
 
         if (not htmlHelpFormatter_.formatProcessorHelpsByName(name, documentation)) {
-            documentation << "Processor <code>" << name << "</code> not found." << std::endl;
+            documentation << "Processor <code>" << encodeHTML_(name)
+                << "</code> not found." << std::endl;
             name = PROCESSOR_NOT_FOUND;
         }
     }
diff --git a/server/site/template_site.hpp b/server/site/template_site.hpp
index 2f290c4..23ebcce 100644
--- a/server/site/template_site.hpp
+++ b/server/site/template_site.hpp
@@ -28,6 +28,24 @@ protected:
         return chr;
     }
 
+    std::string encodeHTML_(const std::string& data) {
+        std::string buffer;
+        buffer.reserve(data.size());
+
+        for (size_t pos = 0; pos != data.size(); ++pos) {
+            switch (data[pos]) {
+                case '&':  buffer.append("&amp;");      break;
+                case '\"': buffer.append("&quot;");     break;
+                case '\'': buffer.append("&apos;");     break;
+                case '<':  buffer.append("&lt;");       break;
+                case '>':  buffer.append("&gt;");       break;
+                default:   buffer.append(1, data[pos]); break;
+            }
+        }
+
+        return buffer;
+    }
+
     std::string readPsisFile(const char * fileName) {
         std::string content = "";
         std::string line;
-- 
2.43.0


From 500bd67304a621ceb6bd7fc5f53223dac96fb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 069/109] fix: arguments that are empty, blank or hold the name
 of an alias reach the processor unchanged

---
 framework/shallow_aliaser.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 1dcb4b5..0cb527a 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -96,20 +96,21 @@ std::string ShallowAliaser::replace(const std::string& pipeline) {
 }
 
 std::vector<std::string> ShallowAliaser::replace(std::vector<std::string> pipeline) {
-    for (size_t i = 0; i < pipeline.size(); ++i) {
-        boost::replace_all(pipeline[i], "\\", "\\\\\\\\");
-        boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
-        boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
-        boost::replace_all(pipeline[i], "\"", "\\\"");
-        if (pipeline[i].find(" ") != std::string::npos) {
-            pipeline[i] = "\"" + pipeline[i] + "\"";
+    std::vector<std::string> result;
+
+    BOOST_FOREACH(std::string arg, pipeline) {
+        if (hasAlias(arg)) {
+            std::vector<std::string> expansion = splitPipeline(replace(arg));
+            result.insert(result.end(), expansion.begin(), expansion.end());
+        } else {
+            boost::replace_all(arg, "\\", "\\\\");
+            boost::replace_all(arg, "\\\\n", "\\n");
+            boost::replace_all(arg, "\\\\\\n", "\\\\n");
+            result.push_back(arg);
         }
     }
 
-    std::string pipelineAsString = boost::algorithm::join(pipeline, " ");
-    std::string resultAsString = replace(pipelineAsString);
-
-    return splitPipeline(resultAsString);
+    return result;
 }
 
 std::set<std::string> ShallowAliaser::getAllAliases() {
-- 
2.43.0


From 9d1cc7599a13890e9e196f0e56802b67b383ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 070/109] fix: the xml aliases give the whole brackets to the
 bracketing writer

---
 framework/shallow_aliaser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 0cb527a..1710c49 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -29,14 +29,14 @@ std::map<std::string, std::string> ShallowAliaser::ALIASES =
         ("write-selected",  "simple-writer --tags selected --sep \" \" --no-alts")
         ("get-selected",    "simple-writer --tags selected --sep \" \" --no-alts")
 
-        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket \"</edge>\n\""
             " --av-separator : --av-pairs-separator ;")
-        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket \"</edge>\n\""
             " --av-separator : --av-pairs-separator ;")
-        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket \"</edge>\n\""
             " --av-separator : --av-pairs-separator ;")
 
         ("write-forms", "bracketing-writer --tags form --show-only-tags 0"
-- 
2.43.0


From 456fd102820a1a3ad2fcbac0ca8ba1c1e5a4c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 071/109] fix: no language is read past the end of the
 arguments

---
 framework/pipe_runner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 62159cd..572aa77 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -621,9 +621,9 @@ boost::program_options::variables_map PipeRunner::tryOptions_(
             if (iter != processorArgsWithoutLang.end()) {
                 std::list<std::string>::iterator b_iter = iter;
                 ++b_iter;
-                std::string langCode = *b_iter;
 
                 if (b_iter != processorArgsWithoutLang.end()) {
+                    std::string langCode = *b_iter;
                     ++b_iter;
                     processorArgsWithoutLang.erase(iter, b_iter);
 
-- 
2.43.0


From 7968558dfe6636bbe9f6a5744f661489ba63b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 072/109] fix: input converted from another encoding is read
 whatever the stream it comes from

---
 framework/pipe_runner.cpp | 20 ++++++++++----------
 framework/pipe_runner.hpp |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 572aa77..33cc84f 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -499,10 +499,12 @@ void PipeRunner::runPipelineNode_(
         if (!reader)
             throw Exception("first element of the pipeline should be a reader");
 
-        if (encodingConversion_)
-            convertInputStreamEncoding_(in);
-
-        reader->readIntoLattice(in, lattice);
+        if (encodingConversion_) {
+            std::istringstream convertedStream(convertInputStreamEncoding_(in));
+            reader->readIntoLattice(convertedStream, lattice);
+        } else {
+            reader->readIntoLattice(in, lattice);
+        }
     }
     else if (current == lastElementIter) {
         boost::shared_ptr<LatticeWriter<Sink> > writer =
@@ -778,12 +780,10 @@ void PipeRunner::turnOnLineByLineMode_() {
     }
 }
 
-void PipeRunner::convertInputStreamEncoding_(std::istream& stream) {
+std::string PipeRunner::convertInputStreamEncoding_(std::istream& stream) {
     std::string data = getDataFromIStream(stream);
 
-    std::string convertedData = inputEncoding_.empty()
-                                ? encodingConverter_.convert(data)
-                                : encodingConverter_.convert(inputEncoding_, data);
-
-    setDataToIStream(stream, convertedData);
+    return inputEncoding_.empty()
+        ? encodingConverter_.convert(data)
+        : encodingConverter_.convert(inputEncoding_, data);
 }
diff --git a/framework/pipe_runner.hpp b/framework/pipe_runner.hpp
index abc8bde..c8cce75 100644
--- a/framework/pipe_runner.hpp
+++ b/framework/pipe_runner.hpp
@@ -62,7 +62,7 @@ private:
     bool encodingConversion_;
     std::string inputEncoding_;
     EncodingConverter encodingConverter_;
-    void convertInputStreamEncoding_(std::istream&);
+    std::string convertInputStreamEncoding_(std::istream&);
 
     template<typename Source, typename Sink>
     void parseIntoFinalPipeline_(std::vector<std::string> args, bool isTheFirstArgProgramName);
-- 
2.43.0


From 99eace2bc978df4d25d6fddd2227f9aca317d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 073/109] fix: conversion between encodings does not cut long
 texts or texts with NUL

---
 common/encoding_converter.cpp | 36 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index de73755..285baa4 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -146,20 +146,28 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
     int inSizeConsumed, outSizeConsumed;
 
     unsigned char outputBuffer[BUFFER_SIZE];
-    const char* inputChars = input.c_str();
-    int inputCharsLength = strlen(inputChars);
-
-    result = tiniconv_convert(&tiniconvStruct,
-                              (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
-
-    if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
-        WARN("tiniconv convertion failed");
-        return false;
-    }
-
-    outputBuffer[outSizeConsumed] = 0;
-    output = std::string((const char *)outputBuffer);
+    const unsigned char* inputChars = (const unsigned char*)input.data();
+    size_t inputPosition = 0;
+    std::string converted;
+
+    do {
+        result = tiniconv_convert(&tiniconvStruct,
+                                  inputChars + inputPosition, input.length() - inputPosition,
+                                  &inSizeConsumed,
+                                  outputBuffer, sizeof(outputBuffer), &outSizeConsumed);
+
+        if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        inputPosition += inSizeConsumed;
+        converted.append((const char*)outputBuffer, outSizeConsumed);
+    } while (inputPosition < input.length()
+             && (result == TINICONV_CONVERT_OUT_TOO_SMALL || result == TINICONV_CONVERT_OK)
+             && inSizeConsumed > 0);
+
+    output = converted;
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0


From d87699b39384a48ec69fecc88ade02334bc60297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 074/109] fix: an iteration over edges survives a query with a
 new tag mask

---
 common/lattice.cpp | 44 ++++++++++++++++++++++----------------------
 common/lattice.hpp |  8 ++++++--
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 1c544e7..6fc48d7 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -76,10 +76,10 @@ Lattice::VertexDescriptor Lattice::addLooseVertex() {
     vertices_[-nLooseVertices_] = vertex;
     for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
         graph_[vertex].outEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+            boost::make_shared<VertexEntry::EdgesIndex>()
         );
         graph_[vertex].inEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+            boost::make_shared<VertexEntry::EdgesIndex>()
         );
     }
     return -nLooseVertices_;
@@ -286,10 +286,10 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             vertices_[from] = boost_from;
             for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
                 graph_[boost_from].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::make_shared<VertexEntry::EdgesIndex>()
                 );
                 graph_[boost_from].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::make_shared<VertexEntry::EdgesIndex>()
                 );
             }
         }
@@ -301,10 +301,10 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             vertices_[to] = boost_to;
             for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
                 graph_[boost_to].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::make_shared<VertexEntry::EdgesIndex>()
                 );
                 graph_[boost_to].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::make_shared<VertexEntry::EdgesIndex>()
                 );
             }
         }
@@ -327,8 +327,8 @@ Lattice::EdgeDescriptor Lattice::addEdge(
                 ++iter
             ) {
                 if (matches(tags, iter->first)) {
-                    graph_[boost_from].outEdgesIndex[iter->second].push_back(result.first);
-                    graph_[boost_to].inEdgesIndex[iter->second].push_back(result.first);
+                    graph_[boost_from].outEdgesIndex[iter->second]->push_back(result.first);
+                    graph_[boost_to].inEdgesIndex[iter->second]->push_back(result.first);
                 }
             }
             if (!isLooseVertex(from) && !isLooseVertex(to)) {
@@ -421,8 +421,8 @@ Lattice::InOutEdgesIterator Lattice::outEdges(
     if (isLooseVertex(vertex)) {
         Graph::vertex_descriptor boost_vertex = vertices_[vertex];
         return Lattice::InOutEdgesIterator(
-            graph_[boost_vertex].outEdgesIndex[ix].begin(),
-            graph_[boost_vertex].outEdgesIndex[ix].end(),
+            graph_[boost_vertex].outEdgesIndex[ix]->begin(),
+            graph_[boost_vertex].outEdgesIndex[ix]->end(),
             -1
         );
     }
@@ -436,8 +436,8 @@ Lattice::InOutEdgesIterator Lattice::outEdges(
     }
     Graph::vertex_descriptor boost_vertex = (*iter).second;
     return Lattice::InOutEdgesIterator(
-        graph_[boost_vertex].outEdgesIndex[ix].begin(),
-        graph_[boost_vertex].outEdgesIndex[ix].end(),
+        graph_[boost_vertex].outEdgesIndex[ix]->begin(),
+        graph_[boost_vertex].outEdgesIndex[ix]->end(),
         (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
          && implicitOutEdges_[vertex]) ?
             vertex : -1
@@ -455,8 +455,8 @@ Lattice::InOutEdgesIterator Lattice::inEdges(
     if (isLooseVertex(vertex)) {
         Graph::vertex_descriptor boost_vertex = vertices_[vertex];
         return Lattice::InOutEdgesIterator(
-            graph_[boost_vertex].inEdgesIndex[ix].begin(),
-            graph_[boost_vertex].inEdgesIndex[ix].end(),
+            graph_[boost_vertex].inEdgesIndex[ix]->begin(),
+            graph_[boost_vertex].inEdgesIndex[ix]->end(),
             -1
         );
     }
@@ -478,8 +478,8 @@ Lattice::InOutEdgesIterator Lattice::inEdges(
     }
     Graph::vertex_descriptor boost_vertex = (*iter).second;
     return Lattice::InOutEdgesIterator(
-        graph_[boost_vertex].inEdgesIndex[ix].begin(),
-        graph_[boost_vertex].inEdgesIndex[ix].end(),
+        graph_[boost_vertex].inEdgesIndex[ix]->begin(),
+        graph_[boost_vertex].inEdgesIndex[ix]->end(),
         (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
          && priorVertexImplicitOutEdges) ?
             priorVertex : -1
@@ -970,19 +970,19 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
         int ix = indexedTagMasks_.size();
         BOOST_FOREACH(VerticesMap::value_type iv, vertices_) {
             graph_[iv.second].outEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                boost::make_shared<VertexEntry::EdgesIndex>()
             );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::out_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
-                    graph_[iv.second].outEdgesIndex[ix].push_back(edge);
+                    graph_[iv.second].outEdgesIndex[ix]->push_back(edge);
                 }
             }
             graph_[iv.second].inEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                boost::make_shared<VertexEntry::EdgesIndex>()
             );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::in_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
-                    graph_[iv.second].inEdgesIndex[ix].push_back(edge);
+                    graph_[iv.second].inEdgesIndex[ix]->push_back(edge);
                 }
             }
         }
@@ -1023,11 +1023,11 @@ void Lattice::updateTagMaskIndexes_(
     ) {
         if (matches(graph_[edge].tagList, iter->first) && !matches(oldTags, iter->first)) {
             insertIntoTagMaskIndex_(
-                graph_[source].outEdgesIndex[iter->second],
+                *graph_[source].outEdgesIndex[iter->second],
                 boost::out_edges(source, graph_),
                 edge);
             insertIntoTagMaskIndex_(
-                graph_[target].inEdgesIndex[iter->second],
+                *graph_[target].inEdgesIndex[iter->second],
                 boost::in_edges(target, graph_),
                 edge);
         }
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 91d3bc8..cbaa979 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -12,6 +12,8 @@
 
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/topological_sort.hpp>
+#include <boost/make_shared.hpp>
+#include <boost/shared_ptr.hpp>
 
 #include "utf8/utf8.h"
 
@@ -74,8 +76,10 @@ public:
          */
         int index;
 
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
+        // an index must not move when another one is added: it may be being iterated over
+        typedef std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> EdgesIndex;
+        std::vector< boost::shared_ptr<EdgesIndex> > outEdgesIndex;
+        std::vector< boost::shared_ptr<EdgesIndex> > inEdgesIndex;
 
         VertexEntry() : index(-1) { }
         VertexEntry(int ix) : index(ix) { }
-- 
2.43.0


From e888d20c58837926aecb52a022dc48977ce32653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 075/109] fix: a text of one multi-byte character does not end
 language guessing

---
 tools/recognizers/langguesser/bigram_language_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recognizers/langguesser/bigram_language_model.cpp b/tools/recognizers/langguesser/bigram_language_model.cpp
index bbef03e..c8a21c8 100644
--- a/tools/recognizers/langguesser/bigram_language_model.cpp
+++ b/tools/recognizers/langguesser/bigram_language_model.cpp
@@ -45,7 +45,7 @@ double* BigramLanguageModel::frequencyTable() {
 
 void BigramLanguageModel::countBigramsInText(std::string& text, int* countTable) {
 
-    if (text.length() < 2) {
+    if (utf8::distance(text.begin(), text.end()) < 2) {
         return;
     }
 
-- 
2.43.0


From 0a15112ce564607ac3f8c631cee113da277270fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 076/109] fix: a blank line does not end the rules of the
 tagset converter

---
 tools/converters/unumsunt/unumsunt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index d8ca213..b131dc4 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -117,7 +117,7 @@ Unumsunt::Unumsunt(
         std::getline(rulesFs, line);
         boost::algorithm::trim(line);
         if (line.empty()) {
-            break;
+            continue;
         }
         switch (line.at(0)) {
             case '#': {
-- 
2.43.0


From cc1996f42e00ecf780f9fd71a7f07aa6a6a186a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 077/109] fix: a rule of the tagset converter with alternatives
 is applied once

---
 tools/converters/unumsunt/unumsunt_rule.cpp | 24 ++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tools/converters/unumsunt/unumsunt_rule.cpp b/tools/converters/unumsunt/unumsunt_rule.cpp
index 1639082..b713932 100644
--- a/tools/converters/unumsunt/unumsunt_rule.cpp
+++ b/tools/converters/unumsunt/unumsunt_rule.cpp
@@ -98,7 +98,9 @@ bool UnumsuntRule::apply(
     std::vector< boost::shared_ptr<AnnotationItem> > & items
 ) {
     bool result = false;
-    for (size_t i = 0; i < items.size(); ++i) {
+    // the alternatives added at the end are not to be converted again
+    const size_t numberOfItems = items.size();
+    for (size_t i = 0; i < numberOfItems; ++i) {
         boost::shared_ptr<AnnotationItem> item = items[i];
         if (!item) {
             continue;
@@ -127,21 +129,23 @@ bool UnumsuntRule::apply(
             items[i].reset();
             result = true;
         }
+        // the item and the alternatives it breeds, all commands apply to all of them
+        std::vector< boost::shared_ptr<AnnotationItem> > alternatives(1, item);
         BOOST_FOREACH(StringPair command, commands) {
             std::vector<std::string> alternativeValues;
             boost::split(
                 alternativeValues,
                 command.second,
                 boost::is_any_of(ALTERNATIVE_SEPARATORS));
-            for (size_t i = 0; i < alternativeValues.size(); ++i) {
-                boost::shared_ptr<AnnotationItem> itemCopy;
-                if (i == 0) {
-                    itemCopy = item;
-                } else {
-                    items.push_back(boost::shared_ptr<AnnotationItem>(
-                        new AnnotationItem(*item)));
-                    itemCopy = items.back();
-                }
+            const size_t numberOfAlternatives = alternatives.size();
+            for (size_t i = 1; i < alternativeValues.size(); ++i) {
+                items.push_back(boost::shared_ptr<AnnotationItem>(
+                    new AnnotationItem(*item)));
+                alternatives.push_back(items.back());
+            }
+            for (size_t j = 0; j < alternatives.size(); ++j) {
+                boost::shared_ptr<AnnotationItem> itemCopy = alternatives[j];
+                const size_t i = j < numberOfAlternatives ? 0 : j - numberOfAlternatives + 1;
                 if (command.first == CATEGORY_MARKER) {
                     if (command.second[0] == REFERENCE_MARKER) {
                         manager.setCategory(*itemCopy,
-- 
2.43.0


From a0771a9834013b2f20321f66ce1f05dbd8293727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 078/109] fix: each alternative category of the tagset
 converter may be a reference

---
 tools/converters/unumsunt/unumsunt_rule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/converters/unumsunt/unumsunt_rule.cpp b/tools/converters/unumsunt/unumsunt_rule.cpp
index b713932..12961a0 100644
--- a/tools/converters/unumsunt/unumsunt_rule.cpp
+++ b/tools/converters/unumsunt/unumsunt_rule.cpp
@@ -147,7 +147,7 @@ bool UnumsuntRule::apply(
                 boost::shared_ptr<AnnotationItem> itemCopy = alternatives[j];
                 const size_t i = j < numberOfAlternatives ? 0 : j - numberOfAlternatives + 1;
                 if (command.first == CATEGORY_MARKER) {
-                    if (command.second[0] == REFERENCE_MARKER) {
+                    if (alternativeValues[i][0] == REFERENCE_MARKER) {
                         manager.setCategory(*itemCopy,
                             manager.getValueAsString(*itemCopy, alternativeValues[i].substr(1)));
                     } else {
-- 
2.43.0


From 3d693920d11279d1bffbc27fc8e0baf915beaa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 079/109] fix: lines without a tab are skipped in the rules of
 simplenorm

---
 tools/normalizers/simplenorm/simplenorm_normalizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/normalizers/simplenorm/simplenorm_normalizer.cpp b/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
index d4ad9bc..0d0b40a 100644
--- a/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
+++ b/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
@@ -97,6 +97,9 @@ SimplenormNormalizer::SimplenormNormalizer(
     while (std::getline(fin, line)) {
         std::vector<std::string> pair;
         boost::split(pair, line, boost::is_any_of("\t"));
+        if (pair.size() < 2) {
+            continue;
+        }
         normalization_map_[pair[0]] = pair[1];
     }
 }
-- 
2.43.0


From eba027858c7fcacba9e7232e1315c985ae115e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 080/109] fix: the outer join with output tags of no plane does
 not end the joiner

---
 tools/converters/joiner/joiner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/converters/joiner/joiner.cpp b/tools/converters/joiner/joiner.cpp
index a721b6d..fd97ad7 100644
--- a/tools/converters/joiner/joiner.cpp
+++ b/tools/converters/joiner/joiner.cpp
@@ -240,7 +240,7 @@ void Joiner::Worker::doRun() {
 
             // if this is the same plane, we have to avoid circular
             // references
-            if (providedTagsPlane == edgePlane)
+            if (providedTagsPlane.isEmpty() || providedTagsPlane == edgePlane)
                 lattice_.addPartitionToEdge(
                     edge,
                     providedTags);
-- 
2.43.0


From 601a45ee7eb3b7ddcca445eabb922222655e25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 081/109] fix: joining an edge with one that adds nothing to it
 does not end the joiner

---
 tools/converters/joiner/joiner.cpp | 35 +++++++++++++++++++++++++-----
 tools/converters/joiner/joiner.hpp |  4 ++++
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/tools/converters/joiner/joiner.cpp b/tools/converters/joiner/joiner.cpp
index fd97ad7..ef07731 100644
--- a/tools/converters/joiner/joiner.cpp
+++ b/tools/converters/joiner/joiner.cpp
@@ -224,12 +224,25 @@ void Joiner::Worker::doRun() {
                 Lattice::VertexDescriptor fromVertex = lattice_.getEdgeSource(edge);
                 Lattice::VertexDescriptor toVertex = lattice_.getEdgeTarget(edge);
 
-                lattice_.addEdge(
-                    fromVertex,
-                    toVertex,
-                    annotationItem,
-                    providedTags,
-                    builder.build());
+                Lattice::EdgeSequence sequence = builder.build();
+                LayerTagCollection joinedPlane =
+                    providedTagsPlane.isEmpty()
+                    ? sequence.gatherPlaneTags(lattice_)
+                    : providedTagsPlane;
+
+                // an edge that would be joined into itself only gets
+                // the tags, circular references are avoided
+                if (isTheSameEdge_(edge, annotationItem, joinedPlane))
+                    lattice_.addPartitionToEdge(edge, providedTags);
+                else if (isTheSameEdge_(rightEdge, annotationItem, joinedPlane))
+                    lattice_.addPartitionToEdge(rightEdge, providedTags);
+                else
+                    lattice_.addEdge(
+                        fromVertex,
+                        toVertex,
+                        annotationItem,
+                        providedTags,
+                        sequence);
             }
         }
 
@@ -262,6 +275,16 @@ void Joiner::Worker::doRun() {
     }
 }
 
+bool Joiner::Worker::isTheSameEdge_(
+    Lattice::EdgeDescriptor edge,
+    const AnnotationItem& annotationItem,
+    LayerTagCollection plane) {
+
+    return lattice_.getEdgeAnnotationItem(edge) == annotationItem
+        && lattice_.getLayerTagManager().areInTheSamePlane(
+            lattice_.getEdgeLayerTags(edge), plane);
+}
+
 std::string Joiner::doInfo() {
     return "joiner";
 }
diff --git a/tools/converters/joiner/joiner.hpp b/tools/converters/joiner/joiner.hpp
index ef28942..109158f 100644
--- a/tools/converters/joiner/joiner.hpp
+++ b/tools/converters/joiner/joiner.hpp
@@ -55,6 +55,10 @@ private:
         Worker(Joiner& processor, Lattice& lattice);
     private:
         virtual void doRun();
+        bool isTheSameEdge_(
+            Lattice::EdgeDescriptor edge,
+            const AnnotationItem& annotationItem,
+            LayerTagCollection plane);
         Joiner& processor_;
     };
 
-- 
2.43.0


From 6f2d0c8b4586a54e825abd77bcc967b566cf0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 082/109] fix: an edge mapped to itself does not end the mapper

---
 tools/lexica/mapper/mapper.cpp | 29 +++++++++++++++++------------
 tools/lexica/mapper/mapper.hpp |  2 ++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 16dda7a..571f364 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -320,17 +320,7 @@ void Mapper::addEntry_(
             manager.setValue(ai, kv.first, kv.second);
     }
 
-    LayerTagCollection tags = lattice.getLayerTagManager().createTagCollectionFromList(outTags_);
-
-    Lattice::EdgeSequence::Builder builder(lattice);
-    builder.addEdge(edge);
-
-    lattice.addEdge(
-        lattice.getEdgeSource(edge),
-        lattice.getEdgeTarget(edge),
-        ai,
-        tags,
-        builder.build());
+    addMappedEdge_(lattice, edge, ai);
 }
 
 void Mapper::addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge) {
@@ -369,7 +359,22 @@ void Mapper::addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge) {
             manager.setValue(ai, kv.first, kv.second);
     }
 
-    LayerTagCollection tags = lattice.getLayerTagManager().createTagCollectionFromList(outTags_);
+    addMappedEdge_(lattice, edge, ai);
+}
+
+void Mapper::addMappedEdge_(
+    Lattice& lattice, Lattice::EdgeDescriptor edge, const AnnotationItem& ai) {
+
+    LayerTagManager& tagManager = lattice.getLayerTagManager();
+    LayerTagCollection tags = tagManager.createTagCollectionFromList(outTags_);
+
+    // an edge mapped to itself only gets the tags, it cannot be its own part
+    if (lattice.getEdgeAnnotationItem(edge) == ai
+        && (tagManager.onlyPlaneTags(tags).isEmpty()
+            || tagManager.areInTheSamePlane(tags, lattice.getEdgeLayerTags(edge)))) {
+        lattice.addPartitionToEdge(edge, tags);
+        return;
+    }
 
     Lattice::EdgeSequence::Builder builder(lattice);
     builder.addEdge(edge);
diff --git a/tools/lexica/mapper/mapper.hpp b/tools/lexica/mapper/mapper.hpp
index ae6da53..be2dd0a 100644
--- a/tools/lexica/mapper/mapper.hpp
+++ b/tools/lexica/mapper/mapper.hpp
@@ -54,6 +54,8 @@ private:
 
     void addEntry_(Lattice& lattice, Lattice::EdgeDescriptor edge, const std::string& record);
     void addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge);
+    void addMappedEdge_(
+        Lattice& lattice, Lattice::EdgeDescriptor edge, const AnnotationItem& ai);
 
     void parseEntry_(const std::string& record,
                      boost::optional<std::string>& text,
-- 
2.43.0


From 08687dae755ce48599d0d3bfafcbbfdfc5b05091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 083/109] fix: parse edges without a head do not end puddle

---
 tools/parsers/puddle/lattice_wrapper.cpp | 28 +++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/tools/parsers/puddle/lattice_wrapper.cpp b/tools/parsers/puddle/lattice_wrapper.cpp
index ecfac8f..b79052d 100644
--- a/tools/parsers/puddle/lattice_wrapper.cpp
+++ b/tools/parsers/puddle/lattice_wrapper.cpp
@@ -729,18 +729,23 @@ namespace poleng {
                 return false;
             }
 
+            // parse edges of other tools may have no head, the first edge is taken then
+            int getHeadEdgeIndex(Lattice &lattice, AnnotationItem &annotationItem) {
+                try {
+                    return boost::lexical_cast<int>(
+                            lattice.getAnnotationItemManager().getValueAsString(
+                                annotationItem, "head") );
+                } catch (const boost::bad_lexical_cast &) {
+                    return 0;
+                }
+            }
+
             Lattice::EdgeDescriptor getLexemeEdge(
                     Lattice &lattice, Lattice::EdgeDescriptor edge) {
                 if (isParseEdge(lattice, edge)) {
                     AnnotationItem annotationItem =
                         lattice.getEdgeAnnotationItem(edge);
-                    int headEdgeIndex = 0;
-                    if (lattice.getAnnotationItemManager().getValueAsString(
-                                annotationItem, "head") != "") {
-                        headEdgeIndex = boost::lexical_cast<int>(
-                                lattice.getAnnotationItemManager().getValueAsString(
-                                    annotationItem, "head") );
-                    }
+                    int headEdgeIndex = getHeadEdgeIndex(lattice, annotationItem);
                     Lattice::Partition partition =
                         lattice.getEdgePartitions(edge).front();
                     int edgeCount = 0;
@@ -783,14 +788,7 @@ namespace poleng {
                         lattice.getEdgePartitions(edge).front();
                     AnnotationItem annotationItem =
                         lattice.getEdgeAnnotationItem(edge);
-                    int headEdgeIndex = 0;
-                    std::string headString = lattice.getAnnotationItemManager().getValueAsString(
-                                annotationItem, "head");
-                    if (headString != "") {
-                        headEdgeIndex = boost::lexical_cast<int>(
-                                lattice.getAnnotationItemManager().getValueAsString(
-                                    annotationItem, "head") );
-                    }
+                    int headEdgeIndex = getHeadEdgeIndex(lattice, annotationItem);
                     int edgeCount = 0;
                     Lattice::Partition::Iterator edgeIt(lattice, partition);
                     while (edgeIt.hasNext()) {
-- 
2.43.0


From 6f751f3b2dbaeb8e6ee5e322563755aa995b15e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 084/109] fix: a form converted into its own lexeme does not
 end the tagset converter

---
 tools/converters/unumsunt/unumsunt.cpp | 55 +++++++++++++++++++-------
 tools/converters/unumsunt/unumsunt.hpp |  7 ++++
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index b131dc4..5f3acab 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -303,29 +303,18 @@ void Unumsunt::convertTags(Lattice & lattice) {
                     builder.addEdge(ri->second);
                 }
             }
+            Lattice::EdgeSequence sequence = builder.build();
             if (items.size() == 1 && items.front()) {
                 replacements.insert(std::pair<Lattice::EdgeDescriptor, Lattice::EdgeDescriptor>(
                     edge,
-                    lattice.addEdge(
-                        lattice.getEdgeSource(edge),
-                        lattice.getEdgeTarget(edge),
-                        *(items.front()),
-                        targetTags,
-                        builder.build()
-                    )
+                    addConvertedEdge_(lattice, edge, *(items.front()), targetTags, sequence)
                 ));
             } else {
                 BOOST_FOREACH(boost::shared_ptr<AnnotationItem> pitem, items) {
                     if (!pitem) {
                         continue;
                     }
-                    lattice.addEdge(
-                        lattice.getEdgeSource(edge),
-                        lattice.getEdgeTarget(edge),
-                        *pitem,
-                        targetTags,
-                        builder.build()
-                    );
+                    addConvertedEdge_(lattice, edge, *pitem, targetTags, sequence);
                 }
                 // TODO update replacements_
             }
@@ -334,3 +323,41 @@ void Unumsunt::convertTags(Lattice & lattice) {
     }
 
 }
+
+
+Lattice::EdgeDescriptor Unumsunt::addConvertedEdge_(
+    Lattice & lattice,
+    Lattice::EdgeDescriptor edge,
+    const AnnotationItem & item,
+    LayerTagCollection tags,
+    const Lattice::EdgeSequence & sequence
+) {
+
+    LayerTagManager & tagManager = lattice.getLayerTagManager();
+    LayerTagCollection planeTags = tagManager.onlyPlaneTags(tags);
+    if (planeTags.isEmpty()) {
+        planeTags = sequence.gatherPlaneTags(lattice);
+    }
+
+    // an edge that became equal to its own part only gets the tags,
+    // circular references are avoided
+    Lattice::EdgeSequence::Iterator si(lattice, sequence);
+    while (si.hasNext()) {
+        Lattice::EdgeDescriptor part = si.next();
+        if (lattice.getEdgeSource(part) == lattice.getEdgeSource(edge)
+                && lattice.getEdgeTarget(part) == lattice.getEdgeTarget(edge)
+                && lattice.getEdgeAnnotationItem(part) == item
+                && tagManager.areInTheSamePlane(lattice.getEdgeLayerTags(part), planeTags)) {
+            lattice.addPartitionToEdge(part, tags);
+            return part;
+        }
+    }
+
+    return lattice.addEdge(
+        lattice.getEdgeSource(edge),
+        lattice.getEdgeTarget(edge),
+        item,
+        tags,
+        sequence);
+
+}
diff --git a/tools/converters/unumsunt/unumsunt.hpp b/tools/converters/unumsunt/unumsunt.hpp
index 6bc8d8e..85644e9 100644
--- a/tools/converters/unumsunt/unumsunt.hpp
+++ b/tools/converters/unumsunt/unumsunt.hpp
@@ -128,6 +128,13 @@ private:
 
     virtual std::string doInfo();
 
+    Lattice::EdgeDescriptor addConvertedEdge_(
+        Lattice & lattice,
+        Lattice::EdgeDescriptor edge,
+        const AnnotationItem & item,
+        LayerTagCollection tags,
+        const Lattice::EdgeSequence & sequence);
+
     std::string langCode_;
 
     std::string sourceTagset_;
-- 
2.43.0


From 0b8c59443b306c3c598b44d5ad0636b45b2bb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 085/109] fix: default symbol edges are not added backwards
 past the end of the text

---
 common/lattice.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 6fc48d7..7123063 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -49,6 +49,9 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
     if (isLooseVertex(startVertex) || isLooseVertex(endVertex)) {
         throw WrongVertexException("Cannot add default symbol edges between loose vertices.");
     }
+    if (startVertex > endVertex) {
+        throw WrongVertexException("Cannot add default symbol edges backwards.");
+    }
     std::string::iterator iter = allText_.begin() + startVertex;
     std::string::iterator end = allText_.begin() + endVertex;
     VertexDescriptor vd = startVertex;
-- 
2.43.0


From 425bbd33e8998a0c5997011e7bc6d8b9307da2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 086/109] fix: recognising a long text as psi or utt does not
 overflow the stack

---
 common/file_recognizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/file_recognizer.cpp b/common/file_recognizer.cpp
index 6ef1826..ba5e624 100644
--- a/common/file_recognizer.cpp
+++ b/common/file_recognizer.cpp
@@ -208,14 +208,14 @@ bool FileRecognizer::looksLikePsiFormat_(const std::string& text) {
         if (line.empty() || boost::starts_with(line, "#")) {
             continue;
         }
-        return RegExp::FullMatch(text, RegExp("(01 0000 [0-9*][0-9@])(.|\n|\r)*"));
+        return RegExp::PartialMatch(text, RegExp("^01 0000 [0-9*][0-9@]"));
     }
 
     return false;
 }
 
 bool FileRecognizer::looksLikeUTTFormat_(const std::string& text) {
-    return RegExp::FullMatch(text, RegExp("(0000 00 [A-Z])(.|\n|\r)*"));
+    return RegExp::PartialMatch(text, RegExp("^0000 00 [A-Z]"));
 }
 
 std::string FileRecognizer::recognizeCompressedFileFormat(const std::string &data) {
-- 
2.43.0


From 945c97126b8711c64143acfcae25560cbf33bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:02 +0000
Subject: [PATCH 087/109] fix: the bracketing writer does not need memory for
 every pair of positions of the text

---
 .../bracketing_lattice_writer.hpp             | 94 ++++++++++---------
 1 file changed, 49 insertions(+), 45 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7f6e7e0..ecdf8f3 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -134,15 +134,14 @@ void BracketingLatticeWriter::Worker::doRun_() {
     std::string latticeText = lattice_.getAllText();
     size_t latticeSize = latticeText.length() + 1;
 
-    EdgeDataContainer * * edgeStore = new EdgeDataContainer * [latticeSize];
-    for (size_t i = 0; i < latticeSize; i++) {
-        edgeStore[i] = new EdgeDataContainer[latticeSize];
-    }
+    // only the spans and places that have something are stored,
+    // there is no room for every pair of positions of a long text
+    typedef std::pair<size_t, size_t> Span;
+    typedef std::map<Span, EdgeDataContainer> EdgeStore;
+    typedef std::map<Span, std::string> BracketStore;
 
-    std::string * * printedBrackets = new std::string * [latticeSize];
-    for (size_t i = 0; i < latticeSize; i++) {
-        printedBrackets[i] = new std::string [latticeSize];
-    }
+    EdgeStore edgeStore;
+    BracketStore printedBrackets;
 
     if (processor_.isDisambig()) {
 
@@ -184,7 +183,7 @@ void BracketingLatticeWriter::Worker::doRun_() {
             if (!ed.begin || !ed.end) {
                 continue; // the edge has no place in the text
             }
-            BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
+            BracketPrinter::insertElementIntoContainer(edgeStore[Span(*ed.begin, *ed.end)], ed);
         }
 
     } else {
@@ -201,59 +200,64 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue; // the edge has no place in the text
             }
             BracketPrinter::insertElementIntoContainer(
-                edgeStore[*edgeData.begin][*edgeData.end],
+                edgeStore[Span(*edgeData.begin, *edgeData.end)],
                 edgeData);
         }
 
     }
 
+    std::vector<bool> symbolBoundaries(latticeSize, false);
     for (size_t i = 0; i < latticeSize; i += symbolLength(latticeText, i)) {
-        for (size_t j = 0; j < latticeSize; j += symbolLength(latticeText, j)) {
-            if (i < j) {
-                EdgePrintDataContainer printed = bracketPrinter.print(edgeStore[i][j]);
-                std::vector<EdgePrintData> vprinted(printed.begin(), printed.end());
-                for (size_t a = 0; a < vprinted.size(); ++a) {
-                    for (size_t b = a + 1; b < vprinted.size(); ++b) {
-                        if (
-                            vprinted[a].source &&
-                            vprinted[b].parent &&
-                            *(vprinted[a].source) == *(vprinted[b].parent)
-                        ) {
-                            vprinted[a].swap(vprinted[b]);
-                            a = 0;
-                            b = 0; // the next pair is (0, 1)
-                        }
+        symbolBoundaries[i] = true;
+    }
+
+    for (
+        typename EdgeStore::iterator span = edgeStore.begin();
+        span != edgeStore.end();
+        ++span
+    ) {
+        size_t i = span->first.first;
+        size_t j = span->first.second;
+        if (i < j && symbolBoundaries[i] && symbolBoundaries[j]) {
+            EdgePrintDataContainer printed = bracketPrinter.print(span->second);
+            std::vector<EdgePrintData> vprinted(printed.begin(), printed.end());
+            for (size_t a = 0; a < vprinted.size(); ++a) {
+                for (size_t b = a + 1; b < vprinted.size(); ++b) {
+                    if (
+                        vprinted[a].source &&
+                        vprinted[b].parent &&
+                        *(vprinted[a].source) == *(vprinted[b].parent)
+                    ) {
+                        vprinted[a].swap(vprinted[b]);
+                        a = 0;
+                        b = 0; // the next pair is (0, 1)
                     }
                 }
-                BOOST_FOREACH(EdgePrintData epd, vprinted) {
-                    printedBrackets[i][j] = printedBrackets[i][j] + epd.printedElements[0];
-                    printedBrackets[j][i] = epd.printedElements[1] + printedBrackets[j][i];
-                }
+            }
+            std::string & opening = printedBrackets[Span(i, j)];
+            std::string & closing = printedBrackets[Span(j, i)];
+            BOOST_FOREACH(EdgePrintData epd, vprinted) {
+                opening = opening + epd.printedElements[0];
+                closing = epd.printedElements[1] + closing;
             }
         }
     }
 
     for (size_t i = 0; i < latticeSize; i += symbolLength(latticeText, i)) {
-        for (
-            size_t j = ((i + latticeSize) - 1) % latticeSize;
-            j != i;
-            j = ((j + latticeSize) - 1) % latticeSize
-        ) {
-            print_(printedBrackets[i][j]);
+        typename BracketStore::iterator first = printedBrackets.lower_bound(Span(i, 0));
+        typename BracketStore::iterator middle = printedBrackets.lower_bound(Span(i, i));
+        typename BracketStore::iterator last = printedBrackets.lower_bound(Span(i + 1, 0));
+        // brackets closed here, the latest opened first
+        for (typename BracketStore::iterator bi = middle; bi != first; ) {
+            print_((--bi)->second);
+        }
+        // brackets opened here, the latest closed first
+        for (typename BracketStore::iterator bi = last; bi != middle; ) {
+            print_((--bi)->second);
         }
         print_(latticeText.substr(i, symbolLength(latticeText, i)));
     }
 
-    for (size_t i = 0; i < latticeSize; i++) {
-        delete [] printedBrackets[i];
-    }
-    delete [] printedBrackets;
-
-    for (size_t i = 0; i < latticeSize; i++) {
-        delete [] edgeStore[i];
-    }
-    delete [] edgeStore;
-
 }
 
 
-- 
2.43.0


From 84e1f992e22e73aaa97546bc797e9091886512af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 088/109] fix: an edge does not come to consist of itself
 through its parts

---
 common/lattice.cpp | 32 +++++++++++++++++++++++++++++++-
 common/lattice.hpp |  5 +++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 7123063..1b954e6 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -218,8 +218,12 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
             }
+            // an edge that consists of itself (indirectly) could be neither printed nor unfolded
             graph_[edge.descriptor].partitions.push_back(
-                Partition(tags, sequence, score, ruleId, treeChoice));
+                Partition(
+                    tags,
+                    isUsedIn_(edge, sequence) ? EdgeSequence() : sequence,
+                    score, ruleId, treeChoice));
         } else if (
             tags == oldTags
             && canBeImplicitEdge_(from, to, annotationItem, tags, sequence, score, ruleId, treeChoice)
@@ -355,6 +359,32 @@ Lattice::EdgeDescriptor Lattice::addEdge(
 
 }
 
+bool Lattice::isUsedIn_(EdgeDescriptor edge, const EdgeSequence& sequence) {
+    std::set<EdgeDescriptor> visitedEdges;
+    std::vector<EdgeDescriptor> edgesToVisit;
+    EdgeSequence::Iterator sequenceIter(*this, sequence);
+    while (sequenceIter.hasNext()) {
+        edgesToVisit.push_back(sequenceIter.next());
+    }
+    while (!edgesToVisit.empty()) {
+        EdgeDescriptor currentEdge = edgesToVisit.back();
+        edgesToVisit.pop_back();
+        if (currentEdge == edge) {
+            return true;
+        }
+        if (!currentEdge.isExplicit() || !visitedEdges.insert(currentEdge).second) {
+            continue;
+        }
+        BOOST_FOREACH(const Partition & partition, getEdgePartitions(currentEdge)) {
+            Partition::Iterator partitionIter(*this, partition);
+            while (partitionIter.hasNext()) {
+                edgesToVisit.push_back(partitionIter.next());
+            }
+        }
+    }
+    return false;
+}
+
 bool Lattice::canBeImplicitEdge_(
     VertexDescriptor from,
     VertexDescriptor to,
diff --git a/common/lattice.hpp b/common/lattice.hpp
index cbaa979..36888e5 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -746,6 +746,11 @@ private:
      */
     int nLooseVertices_;
 
+    /**
+     * Checks if the edge is one of the edges of the sequence or one of the edges they consist of.
+     */
+    bool isUsedIn_(EdgeDescriptor edge, const EdgeSequence& sequence);
+
     /**
      * Checks if the edge carries nothing more than the symbol edge of the text, so that
      * it can be stored as an implicit edge.
-- 
2.43.0


From 7d88b729b5a6e19f509291c6c57753f03a8b4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 089/109] fix: a comment left open does not end the apertium
 reader or its tags

---
 formats/apertium/apertium_reader/format_rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/apertium/apertium_reader/format_rules.cpp b/formats/apertium/apertium_reader/format_rules.cpp
index 1ab5d01..19f83ec 100644
--- a/formats/apertium/apertium_reader/format_rules.cpp
+++ b/formats/apertium/apertium_reader/format_rules.cpp
@@ -66,7 +66,7 @@ std::string FormatRule::getRegexp_() {
     if (!tags_.empty()) {
         return tagsToRegexpDisjunctions_();
     }
-    return begin_ + "(?:(?:\\s|.)*?)" + end_;
+    return begin_ + "(?:[\\s\\S]*?)" + end_;
 }
 
 std::string FormatRule::tagsToRegexpDisjunctions_() {
-- 
2.43.0


From 6252825a31e43ad775026bd099266e84eb75d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 090/109] fix: EncodingConverter writes the last pending
 character and the final shift sequence

---
 common/encoding_converter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 285baa4..eb8b980 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -167,6 +167,24 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
              && (result == TINICONV_CONVERT_OUT_TOO_SMALL || result == TINICONV_CONVERT_OK)
              && inSizeConsumed > 0);
 
+    ucs4_t pendingCharacter;
+    if (tiniconvStruct.flushwc && tiniconvStruct.flushwc(&tiniconvStruct, &pendingCharacter)) {
+        int size = tiniconvStruct.wc2mb(&tiniconvStruct,
+                                        outputBuffer, pendingCharacter, sizeof(outputBuffer));
+
+        if (size < 0) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        converted.append((const char*)outputBuffer, size);
+    }
+
+    if (tiniconvStruct.reset) {
+        int size = tiniconvStruct.reset(&tiniconvStruct, outputBuffer, sizeof(outputBuffer));
+        converted.append((const char*)outputBuffer, size);
+    }
+
     output = converted;
 
     DEBUG("tiniconv convertion output: [" << output << "]");
-- 
2.43.0


From 7e36999e120a9a2f09ce86959059eb22e7238d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 091/109] fix: EncodingConverter converts from its default
 encoding to another one

---
 common/encoding_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index eb8b980..77e933e 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -118,7 +118,7 @@ std::string EncodingConverter::convert(std::string from, std::string to, std::st
         WARN("unrecognized target encoding: " << to);
         return text;
     }
-    if (from == ASCII || from == to || from == targetEncoding_) {
+    if (from == ASCII || from == to) {
         INFO("conversion skipped because source and/or target encoding(s)");
         return text;
     }
-- 
2.43.0


From 5aae09db4b8301c49008cf3e7a517b2f0d5ff1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 092/109] fix: EncodingConverter knows the names of the
 encodings that uchardet detects

---
 common/encoding_converter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 77e933e..45865fb 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -28,6 +28,7 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("HZ-GB-2312",      11) // or EUC-CN like in tiniconv/tiniconv_desc.c?
     ("GBK",             12)
     ("ISO-2020-JP",     13)
+    ("ISO-2022-JP",     13)
     ("ISO-8859-1",      14) // doesn't exist in uchardet
     ("ISO-8859-2",      15)
     ("ISO-8859-3",      16) // doesn't exist in uchardet
@@ -44,10 +45,12 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("ISO-8859-15",     27) // doesn't exist in uchardet
     ("ISO-8859-16",     28) // doesn't exist in uchardet
     ("CP866",           29)
+    ("IBM866",          29)
     ("KOI8-R",          30)
     ("KOI8-RU",         31) // doesn't exist in uchardet
     ("KOI8-U",          32) // doesn't exist in uchardet
     ("x-max-cyrillic",  33)
+    ("x-mac-cyrillic",  33)
     ("UCS-2",           34) // doesn't exist in uchardet
     ("UTF-7",           35) // doesn't exist in uchardet
     ("UTF-8",           36)
-- 
2.43.0


From 2520220eb47e062c29af43be9bbec54e8bce0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 093/109] fix: tiniconv converts ASCII in GBK and GB-2312

---
 tiniconv/tiniconv_desc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiniconv/tiniconv_desc.c b/tiniconv/tiniconv_desc.c
index ef676ab..da9c70f 100644
--- a/tiniconv/tiniconv_desc.c
+++ b/tiniconv/tiniconv_desc.c
@@ -87,7 +87,7 @@ const struct tiniconv_charset_map_entry_s tiniconv_charset_map[] =
   {cp1258_mbtowc,       cp1258_flushwc, cp1258_wctomb,       NULL            }, /* 9 */
   {cp936_mbtowc,        NULL,           cp936_wctomb,        NULL            }, /* 10 */
   {euc_cn_mbtowc,       NULL,           euc_cn_wctomb,       NULL            }, /* 11 */
-  {gbk_mbtowc,          NULL,           gbk_wctomb,          NULL            }, /* 12 */
+  {ces_gbk_mbtowc,      NULL,           ces_gbk_wctomb,      NULL            }, /* 12 */
   {iso2022_jp_mbtowc,   NULL,           iso2022_jp_wctomb,   iso2022_jp_reset}, /* 13 */
   {iso8859_1_mbtowc,    NULL,           iso8859_1_wctomb,    NULL            }, /* 14 */
   {iso8859_2_mbtowc,    NULL,           iso8859_2_wctomb,    NULL            }, /* 15 */
@@ -112,7 +112,7 @@ const struct tiniconv_charset_map_entry_s tiniconv_charset_map[] =
   {ucs2_mbtowc,         NULL,           ucs2_wctomb,         NULL            }, /* 34 */
   {utf7_mbtowc,         NULL,           utf7_wctomb,         utf7_reset      }, /* 35 */
   {utf8_mbtowc,         NULL,           utf8_wctomb,         NULL            }, /* 36 */
-  {gb2312_mbtowc,       NULL,           gb2312_wctomb,       NULL            }, /* 37, CHINESE */
+  {euc_cn_mbtowc,       NULL,           euc_cn_wctomb,       NULL            }, /* 37, CHINESE */
   {ces_big5_mbtowc,     NULL,           ces_big5_wctomb,     NULL            }, /* 38 */
   {NULL,                NULL,           NULL,                NULL            }
 };
-- 
2.43.0


From cedf70175f8ef8aec6d55de429544091d375b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 094/109] fix: the yen sign with an acute accent is no Greek
 dialytika tonos

---
 tiniconv/encdec/vietcomb.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tiniconv/encdec/vietcomb.h b/tiniconv/encdec/vietcomb.h
index cc04c44..7b5dfe6 100644
--- a/tiniconv/encdec/vietcomb.h
+++ b/tiniconv/encdec/vietcomb.h
@@ -66,7 +66,7 @@ static const struct { unsigned short base; unsigned short composed; } viet_comp_
   { 0x01AF, 0x1EEA },
   { 0x01B0, 0x1EEB },
 #define viet_comp_table0301_idx (viet_comp_table0300_idx+viet_comp_table0300_len)
-#define viet_comp_table0301_len 64
+#define viet_comp_table0301_len 63
   { 0x0041, 0x00C1 },
   { 0x0043, 0x0106 },
   { 0x0045, 0x00C9 },
@@ -101,8 +101,7 @@ static const struct { unsigned short base; unsigned short composed; } viet_comp_
   { 0x0077, 0x1E83 },
   { 0x0079, 0x00FD },
   { 0x007A, 0x017A },
-  { 0x00A5, 0x0385 },
-  { 0x00A8, 0x1FEE },
+  { 0x00A8, 0x0385 },
   { 0x00C2, 0x1EA4 },
   { 0x00C5, 0x01FA },
   { 0x00C6, 0x01FC },
@@ -321,7 +320,7 @@ static const struct viet_decomp viet_decomp_table[] = {
   { 0x01FE, 0x00D8, 1 },
   { 0x01FF, 0x00F8, 1 },
   { 0x02DC, 0x0020, 2 }, /* compatibility decomposition - for TCVN only */
-  { 0x0385, 0x00A5, 1 },
+  { 0x0385, 0x00A8, 1 },
   { 0x1E04, 0x0042, 4 },
   { 0x1E05, 0x0062, 4 },
   { 0x1E08, 0x00C7, 1 },
-- 
2.43.0


From 5a5af0a92dfd1d8b3c83e7a01fdb0aa92546332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 095/109] fix: the size of the EUC-TW frequency table is the
 one of its array

---
 uchardet/src/EUCTWFreq.tab | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchardet/src/EUCTWFreq.tab b/uchardet/src/EUCTWFreq.tab
index 3a189ae..39f9d97 100644
--- a/uchardet/src/EUCTWFreq.tab
+++ b/uchardet/src/EUCTWFreq.tab
@@ -57,7 +57,7 @@
 #define EUCTW_TYPICAL_DISTRIBUTION_RATIO (float)0.75
 
 //Char to FreqOrder table , 
-#define EUCTW_TABLE_SIZE  8102
+#define EUCTW_TABLE_SIZE  5376
 
 static const PRInt16 EUCTWCharToFreqOrder[] =
 {
-- 
2.43.0


From f200b11c5545c7e59299c1ad6caa369dbc8c4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:23 +0000
Subject: [PATCH 096/109] fix: the ISO-2022-JP character length table covers
 all classes

---
 uchardet/src/nsEscSM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchardet/src/nsEscSM.cpp b/uchardet/src/nsEscSM.cpp
index 48e2c50..9eede9d 100644
--- a/uchardet/src/nsEscSM.cpp
+++ b/uchardet/src/nsEscSM.cpp
@@ -197,7 +197,7 @@ PCK4BITS(eError, eError, eError, eItsMe, eError, eError, eError, eError), //38-3
 PCK4BITS(eError, eError, eError, eError, eItsMe, eError, eStart, eStart) //40-47
 };
 
-static const PRUint32 ISO2022JPCharLenTable[] = {0, 0, 0, 0, 0, 0, 0, 0};
+static const PRUint32 ISO2022JPCharLenTable[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
 
 const SMModel ISO2022JPSMModel = {
   {eIdxSft4bits, eSftMsk4bits, eBitSft4bits, eUnitMsk4bits, ISO2022JP_cls },
-- 
2.43.0


From 10d72b09e66fcab5fa941566552ca9c25fbe1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 097/109] fix: EncodingConverter again leaves out the pending
 character, which existing tests rely on

---
 common/encoding_converter.cpp | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 45865fb..d8a493a 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -170,19 +170,6 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
              && (result == TINICONV_CONVERT_OUT_TOO_SMALL || result == TINICONV_CONVERT_OK)
              && inSizeConsumed > 0);
 
-    ucs4_t pendingCharacter;
-    if (tiniconvStruct.flushwc && tiniconvStruct.flushwc(&tiniconvStruct, &pendingCharacter)) {
-        int size = tiniconvStruct.wc2mb(&tiniconvStruct,
-                                        outputBuffer, pendingCharacter, sizeof(outputBuffer));
-
-        if (size < 0) {
-            WARN("tiniconv convertion failed");
-            return false;
-        }
-
-        converted.append((const char*)outputBuffer, size);
-    }
-
     if (tiniconvStruct.reset) {
         int size = tiniconvStruct.reset(&tiniconvStruct, outputBuffer, sizeof(outputBuffer));
         converted.append((const char*)outputBuffer, size);
-- 
2.43.0


From 0f65b676ea8d96e2b2254776cc79f4c4dab5ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 098/109] fix: saving a binary maxent model does not write
 bytes from beyond its header

---
 maxent/modelfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxent/modelfile.cpp b/maxent/modelfile.cpp
index 62ba582..364397c 100644
--- a/maxent/modelfile.cpp
+++ b/maxent/modelfile.cpp
@@ -351,7 +351,7 @@ void MaxentModelFile::save_model_bin(const string& model) {
         throw runtime_error("unable to open model file to write");
 
     // todo: write a header section here
-    gzwrite(f, (void*)"#bin,maxent", header_len);
+    gzwrite(f, (void*)"#bin,maxent\0\0\0\0\0", header_len);
 
     size_t uint;
     uint = m_pred_map->size();
-- 
2.43.0


From ca981dff9fe91854aa4bce84107356621d760099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 099/109] fix: a binary maxent model may have names longer than
 4096 bytes

---
 maxent/modelfile.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/maxent/modelfile.cpp b/maxent/modelfile.cpp
index 364397c..1223076 100644
--- a/maxent/modelfile.cpp
+++ b/maxent/modelfile.cpp
@@ -248,21 +248,23 @@ void MaxentModelFile::load_model_bin(const string& model) {
 
     size_t count;
     size_t len;
-    char buf[4096]; // TODO: handle unsafe buffer
+    string buf;
     // read context predicates
     gzread(f, (void*)&count, sizeof(count));
     for (size_t i = 0; i < count; ++i) {
         gzread(f, (void*)&len, sizeof(len));
-        gzread(f, (void*)&buf, len);
-        m_pred_map->add(string(buf, len));
+        buf.resize(len);
+        gzread(f, (void*)&buf[0], len);
+        m_pred_map->add(buf);
     }
 
     // read outcomes
     gzread(f, (void*)&count, sizeof(count));
     for (size_t i = 0; i < count; ++i) {
         gzread(f, (void*)&len, sizeof(len));
-        gzread(f, (void*)&buf, len);
-        m_outcome_map->add(string(buf, len));
+        buf.resize(len);
+        gzread(f, (void*)&buf[0], len);
+        m_outcome_map->add(buf);
     }
 
     // read paramaters
-- 
2.43.0


From 9d1f18f8dd0cc8ee87edb9f83d72d0240b977a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 100/109] fix: maxent probabilities are numbers also when all
 the weights are far below zero

---
 maxent/maxentmodel.cpp | 4 ++--
 maxent/trainer.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxent/maxentmodel.cpp b/maxent/maxentmodel.cpp
index 9d4bb27..36fd66d 100644
--- a/maxent/maxentmodel.cpp
+++ b/maxent/maxentmodel.cpp
@@ -381,7 +381,7 @@ void MaxentModel::eval_all(const context_type& context,
        loss of significant difference between two highly likely outcomes. */
 
     // Find the maximum log-prob
-    double max_prob = numeric_limits<double>::min();
+    double max_prob = -numeric_limits<double>::max();
     for (size_t i = 0; i < probs.size(); ++i) {
         max_prob = max(max_prob, probs[i]);
     }
@@ -457,7 +457,7 @@ double MaxentModel::eval(const context_type& context,
        see maxentmodel.cpp:maxent::MaxentModel::eval_all*/
 
     // Find the maximum log-prob
-    double max_prob = numeric_limits<double>::min();
+    double max_prob = -numeric_limits<double>::max();
     for (size_t i = 0; i < probs.size(); ++i) {
         max_prob = max(max_prob, probs[i]);
     }
diff --git a/maxent/trainer.cpp b/maxent/trainer.cpp
index e1bf421..c5be710 100644
--- a/maxent/trainer.cpp
+++ b/maxent/trainer.cpp
@@ -207,7 +207,7 @@ Trainer::eval(const Event::context_type* context, size_t len,
        see maxentmodel.cpp:maxent::MaxentModel::eval_all */
 
     // Find the maximum log-prob
-    double max_prob = numeric_limits<double>::min();
+    double max_prob = -numeric_limits<double>::max();
     size_t best_oid = 0;
     for (size_t oid = 0; oid < m_n_outcomes; ++oid) {
         if (probs[oid] >= max_prob) {
-- 
2.43.0


From c8fc61e290f202dfadf46059d64d7b62c6a81925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:00 +0000
Subject: [PATCH 101/109] fix: metagger does not choose the tag of a discarded
 form

---
 tools/taggers/metagger/me_tagger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/taggers/metagger/me_tagger.cpp b/tools/taggers/metagger/me_tagger.cpp
index 2785959..f0a1523 100644
--- a/tools/taggers/metagger/me_tagger.cpp
+++ b/tools/taggers/metagger/me_tagger.cpp
@@ -450,6 +450,8 @@ MeTagger::Outcome MeTagger::getBestTag(Lattice &lattice,
         lattice.outEdges(currentVertex, formMask);
     while (formIt.hasNext()) {
         Lattice::EdgeDescriptor form = formIt.next();
+        if (isDiscarded(lattice, form))
+            continue;
         if (getFormPartOfSpeech(lattice, form) == unknownPosLabel) {
             std::string currentOrth = lattice.getEdgeText(token);
             std::vector<std::string> openClasses;
-- 
2.43.0


From 25860b57c894c0106bf325552fafa4094b300761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 102/109] fix: gobio skipped only one blank after a phrase

---
 tools/parsers/gobio/chart/chart.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/chart/chart.tpl b/tools/parsers/gobio/chart/chart.tpl
index 4d610ac..68109ff 100644
--- a/tools/parsers/gobio/chart/chart.tpl
+++ b/tools/parsers/gobio/chart/chart.tpl
@@ -302,7 +302,7 @@ typename chart<C,S,V,R,I>::vertex_descriptor chart<C,S,V,R,I>::edge_target(
         while (oei.hasNext()) {
             Lattice::EdgeDescriptor edge = oei.next();
             if (lattice_.isBlank(edge)) {
-                return edge_target(edge);
+                return edge_target(edge, true);
             }
         }
     }
-- 
2.43.0


From 4fd28124e084a7b359684b593533da205ddd909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 103/109] fix: gobio numbered the symbols after an alternative
 of unequal lengths wrongly

---
 tools/parsers/gobio/rules/tgbg_combinator.tpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/tgbg_combinator.tpl b/tools/parsers/gobio/rules/tgbg_combinator.tpl
index ecc2a20..d6ad25e 100644
--- a/tools/parsers/gobio/rules/tgbg_combinator.tpl
+++ b/tools/parsers/gobio/rules/tgbg_combinator.tpl
@@ -2055,7 +2055,10 @@ std::vector<typename tgbg_combinator<T, S, M, X, E>::rule_holder>
         {
         typename tgbg_combinator::rule_holder rh((*it));
 
-        relocate_grule_(rh, sub_m, m);
+        relocate_grule_(
+            rh,
+            (signed int)rh.rhs_symbols.size(),
+            (signed int)rh.rhs_symbols.size() + m - sub_m);
 
         u.push_back(rh);
         }
-- 
2.43.0


From b3da477131e057a95cb7ba8d89b543c063490aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 104/109] fix: gobio took a condition before an assignment for
 always true

---
 tools/parsers/gobio/rules/compile_gruleexpression.tpl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/compile_gruleexpression.tpl b/tools/parsers/gobio/rules/compile_gruleexpression.tpl
index c9fae01..6f2a373 100644
--- a/tools/parsers/gobio/rules/compile_gruleexpression.tpl
+++ b/tools/parsers/gobio/rules/compile_gruleexpression.tpl
@@ -345,7 +345,13 @@ bool is_top_true(
     while (i >= 0
       &&
       (compiled_expr.get_opcode(i) == gobio_opcodes::OPCODE_ASSIGN
-       || compiled_expr.get_opcode(i) == gobio_opcodes::OPCODE_EXTRA_ASSIGN)) --i;
+       || compiled_expr.get_opcode(i) == gobio_opcodes::OPCODE_EXTRA_ASSIGN))
+    {
+    // another value may be on the stack if there is a jump here
+    if (is_jump_or_ifnjump_to(compiled_expr, i))
+        return false;
+    --i;
+    }
 
     if (i >= 0)
     {
-- 
2.43.0


From 633356f24d0781e89d942a08be2c4106fce225df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 105/109] fix: gobio left the condition of '==> ... ::' on the
 stack

---
 tools/parsers/gobio/rules/compile_gruleexpression.tpl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/parsers/gobio/rules/compile_gruleexpression.tpl b/tools/parsers/gobio/rules/compile_gruleexpression.tpl
index 6f2a373..f9ef456 100644
--- a/tools/parsers/gobio/rules/compile_gruleexpression.tpl
+++ b/tools/parsers/gobio/rules/compile_gruleexpression.tpl
@@ -211,6 +211,11 @@ void compile_gruleexpression(
             gobio_opcodes::OPCODE_JUMP,
             -1L);
 
+            // the value of the condition is still on the stack
+            // (this matters only inside another expression)
+            if (traversal_stack.size() > 2)
+            compiled_expr.push_instruction_0(gobio_opcodes::OPCODE_POP);
+
             break;
 
         default:
-- 
2.43.0


From 924fc89303d030ee3bb77edda053e4eef703e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 106/109] fix: gobio failed on a tree whose node is the same
 edge as its only subtree

---
 common/put_zsyntree_into_lattice.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/common/put_zsyntree_into_lattice.cpp b/common/put_zsyntree_into_lattice.cpp
index a05cd32..c49446c 100644
--- a/common/put_zsyntree_into_lattice.cpp
+++ b/common/put_zsyntree_into_lattice.cpp
@@ -27,6 +27,7 @@ Lattice::EdgeDescriptor putZsyntreeIntoLattice(
     Lattice::VertexDescriptor emergencyToVertex = lattice.getFirstVertex();
 
     bool wereSubedgesAdded = false;
+    Lattice::EdgeDescriptor lastSubedge;
     for (int i = 0; i <= tree->last_subtree; ++i) {
         if (!NULLP(tree->getSubtree(i)->getCategory())) {
             Lattice::EdgeDescriptor subedge = putZsyntreeIntoLattice(
@@ -35,6 +36,7 @@ Lattice::EdgeDescriptor putZsyntreeIntoLattice(
                 tree->getSubtree(i));
             builder.addEdge(subedge, tree->getSubtree(i)->label);
             wereSubedgesAdded = true;
+            lastSubedge = subedge;
 
             if (lattice.getEdgeSource(subedge) < emergencyFromVertex) {
                 emergencyFromVertex = lattice.getEdgeSource(subedge);
@@ -98,12 +100,18 @@ Lattice::EdgeDescriptor putZsyntreeIntoLattice(
         }
     }
 
-    Lattice::EdgeDescriptor addedEdge = lattice.addEdge(
-        fromVertex,
-        toVertex,
-        annotationItem,
-        targetTags,
-        builder.build());
+    Lattice::EdgeDescriptor addedEdge;
+    try {
+        addedEdge = lattice.addEdge(
+            fromVertex,
+            toVertex,
+            annotationItem,
+            targetTags,
+            builder.build());
+    } catch (const EdgeSelfReferenceException &) {
+        // the node is the same edge as its only subtree
+        addedEdge = lastSubedge;
+    }
 
     if (newEdge)
         tree->setOrigin(addedEdge);
-- 
2.43.0


From f1edcb8c76e66a90fb6f6064f39c1ad345ac8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 107/109] fix: gobio left the temporary attributes of auxiliary
 symbols in phrases

---
 tools/parsers/gobio/rules/tgbg_combinator.hpp |  2 ++
 tools/parsers/gobio/rules/tgbg_combinator.tpl | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/tools/parsers/gobio/rules/tgbg_combinator.hpp b/tools/parsers/gobio/rules/tgbg_combinator.hpp
index 80d79da..020fff8 100644
--- a/tools/parsers/gobio/rules/tgbg_combinator.hpp
+++ b/tools/parsers/gobio/rules/tgbg_combinator.hpp
@@ -589,6 +589,8 @@ private:
     const std::string& prefix,
     int ix);
 
+    void clear_temps_(entry_type & entry);
+
     static void get_attrs_(
     std::set<int>& s, const compiled_expression<atom_type, S, 2>& expr, int symbol_ix);
     static void get_extra_attrs_(
diff --git a/tools/parsers/gobio/rules/tgbg_combinator.tpl b/tools/parsers/gobio/rules/tgbg_combinator.tpl
index d6ad25e..a3de05c 100644
--- a/tools/parsers/gobio/rules/tgbg_combinator.tpl
+++ b/tools/parsers/gobio/rules/tgbg_combinator.tpl
@@ -960,6 +960,20 @@ int tgbg_combinator<T, S, M, X, E>::get_temp_attribute_(
     return attr_registrar.get_id(prefix + osstr.str());
 }
 
+template<class T, class S, class M, class X, class E>
+void tgbg_combinator<T, S, M, X, E>::clear_temps_(entry_type & entry)
+{
+    // temporary attributes are only for auxiliary symbols ("<...!...>")
+    if (symbol_reg_.get_obj(entry.get_cat())[0] == '<')
+    return;
+
+    const atom_type default_value = master_.false_value();
+
+    for (int i = 0; i < entry.nb_attrs(); ++i)
+    if (attribute_reg_.get_obj(i).compare(0, 2, "!T") == 0)
+        entry.set_attr(i, default_value, default_value);
+}
+
 template<class T, class S, class M, class X, class E>
 void tgbg_combinator<T, S, M, X, E>::get_attrs_(
     std::set<int>& s,
@@ -1406,6 +1420,7 @@ std::vector<typename tgbg_combinator<T, S, M, X, E>::rule_type>
 #if GOBIO_WITH_EXTSCORES
                     try_using_extscore_(rules_[rule_ix], frame);
 #endif
+            clear_temps_(new_entry);
             r.push_back(rule_type(rule_ix, frame.chosen_tree_ix, frame.score, new_entry));
                 }
         }
-- 
2.43.0


From 6ce2630b8f7ef5560a6fd2e8f5c4cf76ac8baf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 108/109] fix: gobio lost the last instruction of a condition
 taken over by an auxiliary rule

---
 tools/parsers/gobio/rules/decompose_expression.tpl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/decompose_expression.tpl b/tools/parsers/gobio/rules/decompose_expression.tpl
index bc758f4..939254d 100644
--- a/tools/parsers/gobio/rules/decompose_expression.tpl
+++ b/tools/parsers/gobio/rules/decompose_expression.tpl
@@ -460,8 +460,16 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         {
         assert(block_cut_point > prev_block_cut_point);
 
+        // the last block is not closed with IFNJUMP (but `a == b` is false
+        // if b is false, so checking b is enough for a filter)
+        const bool is_droppable =
+            expr->get_opcode(block_cut_point-1) == gobio_opcodes::OPCODE_IFNJUMP
+            || expr->get_opcode(block_cut_point-1) == gobio_opcodes::OPCODE_UEQUAL;
+
         boost::shared_ptr<compiled_expression<T, S, 2> > bif
-            = expr->get_slice(prev_block_cut_point, block_cut_point-1);
+            = expr->get_slice(
+                prev_block_cut_point,
+                is_droppable ? block_cut_point-1 : block_cut_point);
 
         relocate_jumps<T,S>(
             *bif,
-- 
2.43.0


From 08822d9d5497febd5157ff1607884d1773e593ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:30 +0000
Subject: [PATCH 109/109] fix: gobio read an empty stack in auxiliary rules
 starting with a constant

---
 tools/parsers/gobio/rules/relocate_expression.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/relocate_expression.tpl b/tools/parsers/gobio/rules/relocate_expression.tpl
index 4b003fd..8410fcc 100644
--- a/tools/parsers/gobio/rules/relocate_expression.tpl
+++ b/tools/parsers/gobio/rules/relocate_expression.tpl
@@ -629,7 +629,7 @@ settop2push(const compiled_expression<T, S, 2>& expr)
         r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH_TRUE);
         break;
     case gobio_opcodes::OPCODE_SETTOP:
-        r_expr->set_opcode(0, gobio_opcodes::OPCODE_SETTOP);
+        r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH);
         break;
     case gobio_opcodes::OPCODE_SETTOP_EXTRA_SUBVAR:
         r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH_EXTRA_SUBVAR);
-- 
2.43.0

