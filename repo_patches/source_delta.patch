From 9f7bdd7b1e90775fb235cb260cb74c3d3143f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 01/43] fix: a Range differs from an index when either of its
 bounds does

---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..527920d 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return getBegin() != other || getEnd() != other + 1;
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From f93391f32c98962e1715659326f5985a2c6c8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 02/43] fix: IndexSet::setFromRanges must subtract every
 previous range, not only the last ones

---
 lib/Modeling/IndexSet.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..3f4587e 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -157,20 +157,12 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       continue;
     }
 
-    size_t possibleOverlapIndex = nonOverlappingRanges.size();
-
-    while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
-      --possibleOverlapIndex;
-    }
-
     llvm::SmallVector<MultidimensionalRange> differences;
     differences.push_back(current);
 
-    for (size_t i = possibleOverlapIndex, e = nonOverlappingRanges.size();
-         i < e; ++i) {
-      const MultidimensionalRange &other = nonOverlappingRanges[i];
+    // The lexicographic order only bounds the first dimension, so any of the
+    // previous ranges may overlap the current one.
+    for (const MultidimensionalRange &other : nonOverlappingRanges) {
       llvm::SmallVector<MultidimensionalRange> newDifferences;
 
       for (MultidimensionalRange &currentDifference : differences) {
@@ -185,12 +177,10 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
     }
 
     llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
   }
 
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From e4d26ccf83a6d4437e33e6501928ef9a127e69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 03/43] fix: removing ranges from an IndexSet must not lose
 points nor use dangling R-tree nodes

---
 include/marco/Modeling/RTree.h | 239 +++++++++++++++++----------------
 lib/Modeling/IndexSet.cpp      |  29 +---
 2 files changed, 125 insertions(+), 143 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..84a0957 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -603,21 +603,7 @@ public:
 
     assert(shape.rank() == allowedRank && "Incompatible rank");
 
-    if (!getRoot()) {
-      Node *newRoot = setRoot(std::make_unique<Node>(nullptr, shape));
-      newRoot->add(std::move(obj));
-      postObjectInsertionHook(*newRoot);
-    } else {
-      // Find position for the new object.
-      Node *node = chooseLeaf(getRoot(), shape);
-
-      // Add the object to the leaf node.
-      node->add(std::move(obj));
-      postObjectInsertionHook(*node);
-
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    insertObject(Object(std::move(obj)));
 
     // Check that all the invariants are respected.
     assert(isValid());
@@ -635,30 +621,9 @@ public:
       return;
     }
 
-    const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
-
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
-
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
-      llvm::SmallVector<Object> newObjects;
-
-      for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
-          newObjects.push_back(std::move(object));
-        }
-      }
-
-      node->objects = std::move(newObjects);
-
-      if (modified) {
-        adjustTree(node);
-      }
-    }
+    extractObjects(getShape(obj), [&](const T &object) {
+      return RTreeInfo<T>::isEqual(obj, object);
+    });
   }
 
   virtual void remove(const Derived &other) {
@@ -892,6 +857,87 @@ protected:
     return root.get();
   }
 
+  /// Insert an object into the leaf that best accommodates it.
+  void insertObject(Object object) {
+    if (!getRoot()) {
+      Node *newRoot =
+          setRoot(std::make_unique<Node>(nullptr, object.getBoundary()));
+
+      newRoot->add(std::move(object));
+      postObjectInsertionHook(*newRoot);
+      return;
+    }
+
+    // Find position for the new object.
+    Node *node = chooseLeaf(getRoot(), object.getBoundary());
+
+    // Add the object to the leaf node.
+    node->add(std::move(object));
+    postObjectInsertionHook(*node);
+
+    // Split and collapse nodes, if necessary.
+    adjustTree(node);
+  }
+
+  /// Remove from the tree the objects that overlap a given range and satisfy a
+  /// given condition. The nodes have to be searched again after each
+  /// modification, because the adjustment of the tree may move or erase any of
+  /// them.
+  llvm::SmallVector<Object>
+  extractObjects(const MultidimensionalRange &range,
+                 llvm::function_ref<bool(const T &)> condition) {
+    auto mustExtract = [&](const Object &object) {
+      return object.getBoundary().overlaps(range) && condition(*object);
+    };
+
+    llvm::SmallVector<Object> result;
+
+    while (Node *node = findLeaf(range, mustExtract)) {
+      llvm::SmallVector<Object> remainingObjects;
+
+      for (Object &object : node->objects) {
+        if (mustExtract(object)) {
+          result.push_back(std::move(object));
+        } else {
+          remainingObjects.push_back(std::move(object));
+        }
+      }
+
+      node->objects = std::move(remainingObjects);
+      adjustTree(node);
+    }
+
+    return result;
+  }
+
+  /// Get a leaf node owning at least an object that satisfies a condition.
+  Node *findLeaf(const MultidimensionalRange &range,
+                 llvm::function_ref<bool(const Object &)> condition) {
+    llvm::SmallVector<Node *> nodes;
+
+    if (getRoot()) {
+      nodes.push_back(getRoot());
+    }
+
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
+
+      if (!node->getBoundary().overlaps(range)) {
+        continue;
+      }
+
+      if (llvm::any_of(node->objects, condition)) {
+        return node;
+      }
+
+      for (const auto &child : node->children) {
+        nodes.push_back(child.get());
+      }
+    }
+
+    return nullptr;
+  }
+
   /// Update the boundary of a given node and propagate changes upwards in the
   /// tree.
   static void updateBoundaries(Node *node) {
@@ -1041,95 +1087,50 @@ protected:
     return result;
   }
 
-  /// Collapse a node and its ancestors, if needed. The remaining objects and
-  /// subtrees are relocated.
+  /// Collapse a node and its ancestors, if needed. The objects of the removed
+  /// subtrees are inserted back into the tree.
   void collapseNodeAndPropagate(Node *node) {
-    if (node->isRoot()) {
-      return;
-    }
-
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
-
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
+    llvm::SmallVector<Object> objectsToRelocate;
 
-      // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
+    while (!node->isRoot() && node->fanOut() < minElements) {
+      takeObjects(*node, objectsToRelocate);
 
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
+      // Remove the node from the list of children of the parent.
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
 
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
-
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
-
-          objectsToRelocate.clear();
-        }
-
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
-
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+      // Move towards the root of the tree.
+      node = parent;
+    }
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+    if (node->fanOut() == 0) {
+      // Only the root can have become empty.
+      setRoot(nullptr);
+    } else {
+      updateBoundaries(node);
+    }
 
-        // Move towards the root of the tree.
-        node = parent;
-      }
+    while (getRoot() && getRoot()->children.size() == 1) {
+      setRoot(std::move(getRoot()->children.front()));
+    }
 
-      // Update the boundaries.
-      updateBoundaries(node);
+    // Relocate the orphaned objects.
+    for (Object &object : objectsToRelocate) {
+      insertObject(std::move(object));
+    }
+  }
 
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
+  /// Move all the objects of a subtree into a container.
+  static void takeObjects(Node &node, llvm::SmallVectorImpl<Object> &result) {
+    for (Object &object : node.objects) {
+      result.push_back(std::move(object));
+    }
 
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
-      }
+    for (auto &child : node.children) {
+      takeObjects(*child, result);
     }
   }
 
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index 3f4587e..335ea85 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -307,31 +307,12 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
+  llvm::SmallVector<Object> overlappingObjects = extractObjects(
+      other, [](const MultidimensionalRange &) { return true; });
 
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
-
-  for (Node *node : overlappingNodes) {
-    assert(node->isLeaf());
-    bool modified = false;
-
-    llvm::SmallVector<Object> differences;
-
-    for (Object &value : node->objects) {
-      if (value->overlaps(other)) {
-        modified = true;
-        llvm::append_range(differences, value->subtract(other));
-      } else {
-        differences.emplace_back(std::move(value));
-      }
-    }
-
-    node->objects = std::move(differences);
-
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
+  for (const Object &object : overlappingObjects) {
+    for (MultidimensionalRange &difference : object->subtract(other)) {
+      insertObject(Object(std::move(difference)));
     }
   }
 
-- 
2.43.0


From f57d00af6a40e829003fa432bc661fbb80e2c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:34 +0000
Subject: [PATCH 04/43] fix: all the empty sets are equal, whatever the rank of
 their former content

---
 include/marco/Modeling/RTree.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 84a0957..ef7379d 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -547,6 +547,11 @@ public:
   RTreeCRTP &operator=(RTreeCRTP &&other) noexcept = default;
 
   virtual bool operator==(const RTreeCRTP &other) const {
+    if (empty() || other.empty()) {
+      // An emptied tree keeps its rank, but has no objects anyway.
+      return empty() && other.empty();
+    }
+
     if (rank() != other.rank()) {
       return false;
     }
-- 
2.43.0


From 719f29dfad5714aeda82e901086b1f6b4f24c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:34 +0000
Subject: [PATCH 05/43] fix: removing a set from itself must not read the
 erased objects

---
 include/marco/Modeling/RTree.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index ef7379d..e9703db 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -636,6 +636,12 @@ public:
       return;
     }
 
+    if (this == &other) {
+      // The objects to be removed can't be referenced while being erased.
+      clear();
+      return;
+    }
+
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
     llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
-- 
2.43.0


From 48ece2eb386bf714bb90e16e04853750c435d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 06/43] fix: bulk-built R-trees must respect the fan-out bounds
 of the nodes

---
 include/marco/Modeling/RTree.h | 41 ++++++++++++++++------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index e9703db..7bc52fd 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -784,25 +784,19 @@ protected:
 
     if (objects.size() > maxElements) {
       size_t numOfGroups = objects.size() / minElements;
-      size_t remainingElements = objects.size() % minElements;
 
       for (size_t i = 0; i < numOfGroups; ++i) {
-        auto &node = nodes.emplace_back(std::make_unique<Node>(
-            nullptr, getShape(objects[i * minElements])));
+        // Evenly distribute the objects among the leaves.
+        size_t begin = i * objects.size() / numOfGroups;
+        size_t end = (i + 1) * objects.size() / numOfGroups;
 
-        for (size_t j = 0; j < minElements; ++j) {
-          node->objects.emplace_back(std::move(objects[i * minElements + j]));
-        }
+        auto &node = nodes.emplace_back(
+            std::make_unique<Node>(nullptr, getShape(objects[begin])));
 
-        node->recalcBoundary();
-      }
-
-      for (size_t i = 0; i < remainingElements; ++i) {
-        nodes[i]->objects.push_back(
-            std::move(objects[numOfGroups * minElements + i]));
-      }
+        for (size_t j = begin; j < end; ++j) {
+          node->objects.emplace_back(objects[j]);
+        }
 
-      for (auto &node : nodes) {
         node->recalcBoundary();
       }
     } else {
@@ -817,16 +811,19 @@ protected:
     while (nodes.size() > maxElements) {
       llvm::SmallVector<std::unique_ptr<Node>> newNodes;
 
-      for (size_t i = 0, e = nodes.size(); i < e; i += maxElements) {
-        auto &parent = newNodes.emplace_back(
-            std::make_unique<Node>(nullptr, nodes[i]->getBoundary()));
+      // Use as few parents as possible, and evenly distribute the nodes among
+      // them, so that none has fewer children than the minimum amount.
+      size_t numOfParents = (nodes.size() + maxElements - 1) / maxElements;
 
-        for (size_t j = 0; j < maxElements; ++j) {
-          if (i + j >= e) {
-            break;
-          }
+      for (size_t i = 0; i < numOfParents; ++i) {
+        size_t begin = i * nodes.size() / numOfParents;
+        size_t end = (i + 1) * nodes.size() / numOfParents;
+
+        auto &parent = newNodes.emplace_back(
+            std::make_unique<Node>(nullptr, nodes[begin]->getBoundary()));
 
-          parent->add(std::move(nodes[i + j]));
+        for (size_t j = begin; j < end; ++j) {
+          parent->add(std::move(nodes[j]));
         }
 
         parent->recalcBoundary();
-- 
2.43.0


From 6667e1354ef635abcc8fbdf53e493dea4f9e9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 07/43] fix: division in an access rounds as its affine form
 does

---
 lib/Modeling/DimensionAccessDiv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..7306b18 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,10 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        // Same rounding as the affine expression, whose terms can be moved out
+        // of the dividend when simplified.
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 05bca62dd56a0905185ad48e5f61da2f2c8b0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 08/43] fix: generic accesses with different numbers of results
 are not equal

---
 lib/Modeling/AccessFunctionGeneric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..d8cbe4a 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -75,7 +75,8 @@ bool AccessFunctionGeneric::operator==(const AccessFunction &other) const {
 
 bool AccessFunctionGeneric::operator==(
     const AccessFunctionGeneric &other) const {
-  if (numOfDimensions != other.numOfDimensions) {
+  if (numOfDimensions != other.numOfDimensions ||
+      results.size() != other.results.size()) {
     return false;
   }
 
-- 
2.43.0


From 1c049cb7fe80f9bed3046272dcad2c4fbf040ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 09/43] fix: accesses through dependent iteration spaces must
 not append their results twice

---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index d8cbe4a..f9f8174 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -220,6 +220,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -250,6 +252,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From 08e4e2eff6f77e93dc28052b04763e5a3fde7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 10/43] fix: combined accesses must keep the ranges of the
 left-hand side

---
 lib/Modeling/AccessFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..fffd7dd 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -190,6 +190,10 @@ AccessFunction::combine(const AccessFunction &other) const {
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
   }
 
+  for (const auto &entry : lhsFakeDimensionsMap) {
+    resultFakeDimensionsMap[entry.getFirst()] = entry.getSecond();
+  }
+
   // Remove the additional dimensions.
   return AccessFunction::fromExtendedMap(combinedAffineMap,
                                          resultFakeDimensionsMap);
-- 
2.43.0


From ee82abbffa9c51fa93335524ffc371bd77179971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 11/43] fix: the image of a range through an access repeating a
 dimension is not a range

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..e175698 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,15 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t count) { return count > 1; })) {
+    // The results depend on each other, and the image of a range is not a
+    // range.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From e7c23e354bc68e51bf76a5009e6f2ca4a4ce8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 12/43] fix: the inverse image of an access must lie in the
 parent and match its constants

---
 lib/Modeling/AccessFunctionAffineConstant.cpp |  2 +-
 .../AccessFunctionRotoTranslation.cpp         | 28 +++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..fc648f9 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -89,7 +89,7 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.contains(expectedAccessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index e175698..22653bc 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -246,13 +246,35 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
 
     auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
     auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+
+    // Discard the accessed indices that the constant results never reach.
+    llvm::SmallVector<MultidimensionalRange> reducedAccessedRanges;
+
+    for (const MultidimensionalRange &range : llvm::make_range(
+             accessedIndices.rangesBegin(), accessedIndices.rangesEnd())) {
+      bool reached = true;
+
+      for (uint64_t res = 0, e = getNumOfResults(); res < e; ++res) {
+        if (!usedResults[res]) {
+          auto constantExpr = mlir::cast<mlir::AffineConstantExpr>(
+              getAffineMap().getResult(res));
+
+          reached &= range[res].contains(constantExpr.getValue());
+        }
+      }
+
+      if (reached) {
+        reducedAccessedRanges.push_back(range.slice(usedResults));
+      }
+    }
+
+    IndexSet reducedAccessedIndices(reducedAccessedRanges);
 
     IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
         reducedAccessedIndices, reducedParentIndices);
 
     if (usedDimensions.all()) {
-      return reducedInverseMap;
+      return reducedInverseMap.intersect(parentIndices);
     }
 
     // Insert the indices corresponding to the skipped dimensions.
@@ -278,7 +300,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From 28d600abcda82a486832ad4f93754ef59ec3f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 13/43] fix: keep the inverse image of an invertible access
 within the parent indices

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 22653bc..95f646c 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -215,7 +215,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
         accessedIndices.rank() == parentIndices.rank()) {
       IndexSet mapped = inverseAccessFunction->map(accessedIndices);
       assert(map(mapped).contains(accessedIndices));
-      return mapped;
+      return mapped.intersect(parentIndices);
     }
   }
 
-- 
2.43.0


From 92e15d59592290acc53f814cfe70b61fe3937791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 14/43] fix: restrict, move and unset the single points of an
 incidence matrix correctly

---
 lib/Modeling/MCIM.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..a0357d8 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -184,17 +184,16 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
 
   for (const MultidimensionalRange &multidimRange :
        llvm::make_range(points.rangesBegin(), points.rangesEnd())) {
-    llvm::SmallVector<Range> ranges;
-
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += multidimRange
+                       .takeFirstDimensions(points.rank() -
+                                            newVariableSpace->rank())
+                       .append(intersectionMultidimRange);
     }
   }
 
@@ -450,10 +449,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
@@ -551,7 +550,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
@@ -569,7 +568,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From ff7cf90417e315667fc34bc1a64cfefe4bd25875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 15/43] fix: subtract and filter incidence matrices with
 different or multi-valued access functions exactly

---
 include/marco/Modeling/MCIM.h     |   4 +
 lib/Modeling/MCIM.cpp             | 164 ++++++++++++++++++++++--------
 lib/Modeling/MCIMGroupGeneric.cpp |  14 ++-
 3 files changed, 138 insertions(+), 44 deletions(-)

diff --git a/include/marco/Modeling/MCIM.h b/include/marco/Modeling/MCIM.h
index c232aff..34cbaef 100644
--- a/include/marco/Modeling/MCIM.h
+++ b/include/marco/Modeling/MCIM.h
@@ -130,6 +130,10 @@ public:
 private:
   MCIMGroup &addGroup(std::unique_ptr<MCIMGroup> group);
 
+  /// Remove the incidences of an equation of a group with the given variables.
+  void removeIncidences(MCIMGroup &group, const Point &key,
+                        const IndexSet &values);
+
 private:
   std::shared_ptr<const IndexSet> equationSpace;
   std::shared_ptr<const IndexSet> variableSpace;
diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index a0357d8..6785eb3 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -1,5 +1,6 @@
 #include "marco/Modeling/MCIM.h"
 #include "marco/Modeling/AccessFunction.h"
+#include "marco/Modeling/AccessFunctionEmpty.h"
 #include "marco/Modeling/LocalMatchingSolutions.h"
 #include "llvm/ADT/iterator_range.h"
 #include "llvm/Support/Casting.h"
@@ -75,6 +76,63 @@ void MCIM::IndicesIterator::advance() {
 // MCIM
 //===----------------------------------------------------------------------===//
 
+/// Check if the access function reaches exactly one variable from each
+/// equation.
+static bool isSingleValued(const AccessFunction &accessFunction) {
+  return accessFunction.isAffine() ||
+         accessFunction.isa<AccessFunctionEmpty>();
+}
+
+/// Check if the access functions reach different variables from every equation.
+static bool areAlwaysDifferent(const AccessFunction &lhs,
+                               const AccessFunction &rhs) {
+  if (!lhs.isAffine() || !rhs.isAffine()) {
+    return false;
+  }
+
+  mlir::AffineMap lhsMap = lhs.getAffineMap();
+  mlir::AffineMap rhsMap = rhs.getAffineMap();
+
+  return llvm::any_of(
+      llvm::zip(lhsMap.getResults(), rhsMap.getResults()),
+      [&](const auto &results) {
+        auto difference = mlir::dyn_cast<mlir::AffineConstantExpr>(
+            mlir::simplifyAffineExpr(std::get<0>(results) -
+                                         std::get<1>(results),
+                                     lhsMap.getNumDims(), 0));
+
+        return difference && difference.getValue() != 0;
+      });
+}
+
+/// Get the keys, among the given ones, from which only the given variables are
+/// accessed. The keys from which also other variables are accessed can't be
+/// part of a group: their incidences with the given variables are added to the
+/// set of points.
+static IndexSet getKeysOfVariables(const AccessFunction &accessFunction,
+                                   const IndexSet &keys,
+                                   const IndexSet &variables,
+                                   IndexSet &points) {
+  if (isSingleValued(accessFunction)) {
+    return accessFunction.inverseMap(
+        accessFunction.map(keys).intersect(variables), keys);
+  }
+
+  IndexSet result;
+
+  for (Point key : keys) {
+    IndexSet values = accessFunction.map(key);
+
+    if (variables.contains(values)) {
+      result += key;
+    } else if (variables.overlaps(values)) {
+      points += IndexSet(key).append(values.intersect(variables));
+    }
+  }
+
+  return result;
+}
+
 namespace marco::modeling::internal {
 MCIM::MCIM(MultidimensionalRange equationSpace,
            MultidimensionalRange variableSpace)
@@ -166,12 +224,13 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
 
   variableSpace = newVariableSpace;
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
+  IndexSet newPoints;
 
   for (auto &group : groups) {
     const AccessFunction &accessFunction = group->getAccessFunction();
 
-    IndexSet newKeys = accessFunction.inverseMap(
-        group->getValues().intersect(*newVariableSpace), group->getKeys());
+    IndexSet newKeys = getKeysOfVariables(accessFunction, group->getKeys(),
+                                          *newVariableSpace, newPoints);
 
     if (!newKeys.empty()) {
       group->setKeys(std::move(newKeys));
@@ -180,7 +239,6 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
   }
 
   groups = std::move(newGroups);
-  IndexSet newPoints;
 
   for (const MultidimensionalRange &multidimRange :
        llvm::make_range(points.rangesBegin(), points.rangesEnd())) {
@@ -301,29 +359,18 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
       if (group->getAccessFunction() == rhsGroup->getAccessFunction()) {
         group->removeKeys(rhsGroup->getKeys());
       } else {
-        IndexSet commonValues =
-            rhsGroup->getValues().intersect(group->getValues());
-
-        if (commonValues.empty()) {
-          continue;
-        }
-
-        IndexSet lhsKeys = group->getAccessFunction().inverseMap(
-            commonValues, group->getKeys());
-
-        if (lhsKeys.empty()) {
+        if (areAlwaysDifferent(group->getAccessFunction(),
+                               rhsGroup->getAccessFunction())) {
           continue;
         }
 
-        IndexSet rhsKeys = rhsGroup->getAccessFunction().inverseMap(
-            commonValues, rhsGroup->getKeys());
+        for (Point key : group->getKeys().intersect(rhsGroup->getKeys())) {
+          IndexSet values = rhsGroup->getAccessFunction().map(key);
 
-        if (rhsKeys.empty()) {
-          continue;
+          if (group->getAccessFunction().map(key).overlaps(values)) {
+            removeIncidences(*group, key, values);
+          }
         }
-
-        IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
       }
     }
   }
@@ -339,11 +386,19 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
         MultidimensionalRange variables =
             range.takeLastDimensions(rhs.getVariableSpace().rank());
 
-        IndexSet inverseKeys = group->getAccessFunction().inverseMap(
-            IndexSet(variables), group->getKeys());
-
-        IndexSet keysIntersection = inverseKeys.intersect(equations);
-        group->removeKeys(keysIntersection);
+        if (isSingleValued(group->getAccessFunction())) {
+          IndexSet inverseKeys = group->getAccessFunction().inverseMap(
+              IndexSet(variables), group->getKeys());
+
+          IndexSet keysIntersection = inverseKeys.intersect(equations);
+          group->removeKeys(keysIntersection);
+        } else {
+          for (Point key : group->getKeys().intersect(equations)) {
+            if (group->getAccessFunction().map(key).overlaps(variables)) {
+              removeIncidences(*group, key, IndexSet(variables));
+            }
+          }
+        }
       }
     }
 
@@ -354,6 +409,22 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
 
   points -= rhs.points;
 
+  // Remove the extra points that are covered by the groups.
+  IndexSet coveredPoints;
+
+  for (Point point : points) {
+    Point equation = point.takeFront(getEquationSpace().rank());
+    Point variable = point.takeBack(getVariableSpace().rank());
+
+    if (llvm::any_of(rhs.groups, [&](const auto &group) {
+          return group->has(equation, variable);
+        })) {
+      coveredPoints += point;
+    }
+  }
+
+  points -= coveredPoints;
+
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
                      [&](std::pair<Point, Point> coordinates) {
                        if (rhs.get(coordinates.first, coordinates.second)) {
@@ -386,8 +457,8 @@ void MCIM::apply(const MultidimensionalRange &equations,
 void MCIM::apply(const IndexSet &equations, const AccessFunction &access) {
   assert(getEquationSpace().contains(equations));
 
-  IndexSet filteredEquations = access.inverseMap(
-      access.map(equations).intersect(getVariableSpace()), equations);
+  IndexSet filteredEquations =
+      getKeysOfVariables(access, equations, getVariableSpace(), points);
 
   if (!filteredEquations.empty()) {
     auto groupIt =
@@ -449,7 +520,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    group->unset(equation, variable);
+    if (group->has(equation, variable)) {
+      // The equation may access also other variables.
+      removeIncidences(*group, equation, IndexSet(variable));
+    }
 
     if (!group->empty()) {
       newGroups.push_back(std::move(group));
@@ -518,6 +592,12 @@ MCIM MCIM::filterColumns(const IndexSet &filter) const {
   for (const auto &group : groups) {
     std::unique_ptr<MCIMGroup> filteredGroup = group->filterValues(filter);
 
+    if (!isSingleValued(group->getAccessFunction())) {
+      filteredGroup->setKeys(getKeysOfVariables(group->getAccessFunction(),
+                                                group->getKeys(), filter,
+                                                result.points));
+    }
+
     if (!filteredGroup->empty()) {
       result.addGroup(std::move(filteredGroup));
     }
@@ -549,17 +629,11 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
 
   MCIM result(newEquationSpace, newVariableSpace);
 
-  auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!newVariableSpace->contains(getVariableSpace())) {
-      auto filteredGroup = group.filterValues(*newVariableSpace);
-      return filteredGroup->getKeys().intersect(*newEquationSpace);
-    }
-
-    return group.getKeys().intersect(*newEquationSpace);
-  };
-
   for (const auto &group : groups) {
-    IndexSet filteredKeys = filterKeysFn(*group);
+    IndexSet filteredKeys = getKeysOfVariables(
+        group->getAccessFunction(),
+        group->getKeys().intersect(*newEquationSpace), *newVariableSpace,
+        result.points);
 
     if (!filteredKeys.empty()) {
       auto newGroup = MCIMGroup::build(group->getAccessFunction());
@@ -569,7 +643,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   }
 
   if (!points.empty()) {
-    result.points =
+    result.points +=
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
 
@@ -609,6 +683,16 @@ std::vector<MCIM> MCIM::splitGroups() const {
   return result;
 }
 
+void MCIM::removeIncidences(MCIMGroup &group, const Point &key,
+                            const IndexSet &values) {
+  IndexSet otherValues = group.getAccessFunction().map(key) - values;
+  group.removeKeys(IndexSet(key));
+
+  if (!otherValues.empty()) {
+    points += IndexSet(key).append(otherValues);
+  }
+}
+
 MCIMGroup &MCIM::addGroup(std::unique_ptr<MCIMGroup> group) {
   assert(getEquationSpace().contains(group->getKeys()));
   assert(getVariableSpace().contains(group->getValues()));
diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..7698499 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -54,10 +54,16 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 }
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  addKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (has(key, value)) {
+    return true;
+  }
+
+  if (getAccessFunction().map(key) != IndexSet(value)) {
+    return false;
+  }
+
+  addKeys(IndexSet(key));
+  return true;
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
-- 
2.43.0


From af5ee95629f1ff9da80c44ea41641531f3225380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 16/43] fix: local matching solutions must not skip the second
 access function

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..6426ca4 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
-- 
2.43.0


From e148bc1c127e67342ee5c296a9cea8f034b7ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 17/43] fix: count the local matching solutions of accesses to
 constant ranges

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 6426ca4..e5798e9 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -487,7 +487,7 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  return equationIndices->size() * accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 757d68087faaa9657a47c8636bd00c263b007679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 18/43] fix: the order of access functions must be strict for
 them to be sorted

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index e5798e9..c376334 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -454,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
-- 
2.43.0


From b94daeaa48e320b21813358b95d5be54520aa32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 19/43] fix: leaf nodes without remaining edges must not be
 simplified

---
 include/marco/Modeling/Matching.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..e6395ea 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1898,6 +1898,15 @@ private:
         continue;
       }
 
+      if (getVertexVisibilityDegreeUpTo(v1, 1) == 0) {
+        // The edge of the current node has been removed together with its
+        // opposite node, without matching all of the current node's elements.
+        // The matching problem is thus not feasible.
+
+        LLVM_DEBUG(llvm::dbgs() << "First vertex without visible edges\n");
+        continue;
+      }
+
       EdgeDescriptor edgeDescriptor = getFirstOutVisibleEdge(v1);
       Edge &edge = getBaseGraph()[edgeDescriptor];
 
-- 
2.43.0


From 75b72a401ce6518f0d8275a25d37f379e85ae486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 20/43] fix: schedule the scalar equations after all the
 elements they read

---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..3e10c39 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -268,13 +268,8 @@ private:
                  readIndices.rangesBegin(), readIndices.rangesEnd())) {
           writeInfosIt->second.walkOverlappingObjects(
               readIndicesRange, [&](const WriteInfo &writeInfo) {
-                const MultidimensionalRange &writtenIndices =
-                    writeInfo.getWrittenVariableIndices();
-
-                if (readIndices == writtenIndices) {
-                  std::lock_guard edgeLockGuard(graphMutex);
-                  graph->addEdge(equationDescriptor, writeInfo.getEquation());
-                }
+                std::lock_guard edgeLockGuard(graphMutex);
+                graph->addEdge(equationDescriptor, writeInfo.getEquation());
               });
         }
       }
-- 
2.43.0


From b44d9d727fae9564491dad6063f2315db2468b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 21/43] fix: compute the SCCs of array equations on all their
 dependencies

---
 include/marco/Modeling/DependencyGraph.h | 102 ++++++++++++++++-------
 1 file changed, 73 insertions(+), 29 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 1a76155..d5f2637 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -403,22 +403,25 @@ public:
         }
       }
 
-      // Add the edges.
-      for (const Path &path : partitionedCycles) {
-        EquationView first(path[0].equation, path[0].equationIndices);
-        EquationView source = first;
-
-        for (size_t i = 1, e = path.size(); i < e; ++i) {
-          EquationView destination(path[i].equation, path[i].equationIndices);
-          partitionsGraph.addEdge(partitionsMap[source],
-                                  partitionsMap[destination]);
-          source = std::move(destination);
-        }
+      // Add the nodes for the remaining indices.
+      for (const EquationDescriptor &equation : scc) {
+        IndexSet remainingEquationIndices =
+            arrayDependencyGraph.getEquation(equation).getIterationRanges();
 
-        partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
+        remainingEquationIndices -= visitedEquationIndices[equation];
+
+        if (!remainingEquationIndices.empty()) {
+          partitionsGraph.addVertex(
+              EquationView(equation, std::move(remainingEquationIndices)));
+        }
       }
 
-      // Create the cyclic SCCs.
+      // Add the edges. The cycles alone do not carry all the dependencies: the
+      // indices being part of a cycle are not visited again, and the remaining
+      // indices of different equations may depend on each other.
+      addDependencies(partitionsGraph, cachedWriteAccesses, cachedReadAccesses);
+
+      // Create the SCCs.
       auto sccBeginIt = llvm::scc_begin(
           static_cast<const PartitionsGraph *>(&partitionsGraph));
 
@@ -439,22 +442,6 @@ public:
           result.push_back(std::move(partitionsSCC));
         }
       }
-
-      // Create the SCCs for the remaining indices.
-      for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
-
-        remainingEquationIndices -= visitedEquationIndices[equation];
-
-        if (!remainingEquationIndices.empty()) {
-          std::lock_guard<std::mutex> lock(resultMutex);
-          SCC &remainingIndicesSCC = result.emplace_back();
-
-          remainingIndicesSCC.addEquation(
-              EquationView(equation, std::move(remainingEquationIndices)));
-        }
-      }
     };
 
     mlir::parallelForEach(getContext(), SCCs, processFn);
@@ -492,6 +479,63 @@ private:
     return true;
   }
 
+  /// Connect each node to the ones writing the variables it reads.
+  template <typename PartitionsGraph>
+  void addDependencies(PartitionsGraph &partitionsGraph,
+                       CachedAccesses &cachedWriteAccesses,
+                       CachedAccesses &cachedReadAccesses) const {
+    using Partition = typename PartitionsGraph::VertexDescriptor;
+
+    llvm::SmallVector<Partition> partitions(partitionsGraph.verticesBegin(),
+                                            partitionsGraph.verticesEnd());
+
+    auto getAccessedIndices = [&](Partition partition, const Access &access) {
+      return access.getAccessFunction().map(
+          partitionsGraph[partition].getIndices());
+    };
+
+    // The write accesses of an equation refer to the same variable.
+    llvm::SmallVector<IndexSet> writtenIndices(partitions.size());
+
+    for (size_t i = 0, e = partitions.size(); i < e; ++i) {
+      for (const Access &access :
+           cachedWriteAccesses[*partitionsGraph[partitions[i]]]) {
+        writtenIndices[i] += getAccessedIndices(partitions[i], access);
+      }
+    }
+
+    auto addEdges = [&](Partition source, const Access &access,
+                        const IndexSet &readIndices) {
+      for (size_t i = 0, e = partitions.size(); i < e; ++i) {
+        const auto &writeAccesses =
+            cachedWriteAccesses[*partitionsGraph[partitions[i]]];
+
+        if (partitions[i] != source && !writeAccesses.empty() &&
+            writeAccesses[0].getVariable() == access.getVariable() &&
+            readIndices.overlaps(writtenIndices[i])) {
+          partitionsGraph.addEdge(source, partitions[i]);
+        }
+      }
+    };
+
+    for (Partition source : partitions) {
+      EquationDescriptor equation = *partitionsGraph[source];
+
+      for (const Access &access : cachedReadAccesses[equation]) {
+        addEdges(source, access, getAccessedIndices(source, access));
+      }
+
+      // The accesses to other indices of the written variable are reads.
+      const auto &writeAccesses = cachedWriteAccesses[equation];
+
+      for (size_t i = 1, e = writeAccesses.size(); i < e; ++i) {
+        addEdges(source, writeAccesses[i],
+                 getAccessedIndices(source, writeAccesses[i]) -
+                     getAccessedIndices(source, writeAccesses[0]));
+      }
+    }
+  }
+
   void getEquationsCycles(
       llvm::SmallVectorImpl<Path> &cycles, const WritesMap &writesMap,
       CachedAccesses &cachedWriteAccesses, CachedAccesses &cachedReadAccesses,
-- 
2.43.0


From a2d77ed1abe0da9b98982e66c18035c5f63030cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 22/43] fix: the inverse image must include the points
 accessing any of the indices

---
 lib/Modeling/AccessFunction.cpp         | 4 +++-
 lib/Modeling/AccessFunctionConstant.cpp | 7 ++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index fffd7dd..5875a20 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -210,7 +210,9 @@ IndexSet AccessFunction::inverseMap(const IndexSet &accessedIndices,
   llvm::SmallVector<Point> mapped;
 
   for (const Point &point : parentIndices) {
-    if (accessedIndices.contains(map(point))) {
+    IndexSet values = map(point);
+
+    if (values.empty() || accessedIndices.overlaps(values)) {
       mapped.push_back(point);
     }
   }
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..1f2de1c 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -61,11 +61,8 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
                                    const IndexSet &parentIndices) const {
   auto expectedAccessedIndices = map(parentIndices);
 
-  if (accessedIndices.empty() && !expectedAccessedIndices.empty()) {
-    return {};
-  }
-
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (expectedAccessedIndices.empty() ||
+      accessedIndices.overlaps(expectedAccessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From 189d33ed0d53b05e978da3938f093e6085802758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 23/43] fix: do not swallow the character that follows a
 floating point number

A number ending with the decimal separator (as in '1.)', '1.;' or '1./x')
consumed the character after it, and '1.+2' became 1.2. A fractional number
followed by an exponent letter without digits dropped the letter instead of
being reported as the same text without fractional part is.
---
 lib/Parser/BaseModelica/StateMachine.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..eecf4dd 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,8 +187,14 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
-    state = State::ParsingFloat;
-    return std::nullopt;
+    if (isDigit(next) || next == 'E' || next == 'e') {
+      state = State::ParsingFloat;
+      return std::nullopt;
+    }
+
+    // The fractional part is optional, and what follows is another token.
+    state = State::Normal;
+    return makeToken(TokenKind::FloatingPoint, getFloat());
   }
 
   if (current == 'E' || current == 'e') {
@@ -242,6 +248,10 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
-- 
2.43.0


From b37f1f67d73189156f9ee6355243cf08e805ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 24/43] fix: detect the end of multi-line comments

The asterisk opening a comment was also taken as the one closing it, so that
'/*/' was a complete comment. A comment lacking its terminator silently
discarded the rest of the file.
---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 22 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index eecf4dd..5f819bf 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -357,13 +357,24 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
 
 template <>
 std::optional<Token>
-StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // Skip the asterisk opening the comment, which can't also close it.
   setTokenEndPosition();
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
 
-  if (next == '\0') {
-    state = State::Normal;
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "reached end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
+  setTokenEndPosition();
+
   if (current == '*' && next == '/') {
     state = State::IgnoredCharacter;
   }
@@ -528,7 +539,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -673,6 +684,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 44ccaee71542f0623deff8362e15e422f26ef9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 25/43] fix: numbers exceeding 64 bits

The conversion of numbers with 19 or more fractional digits never ended, as
the normalizer of the mantissa wrapped around. The integer part, and integer
literals, silently wrapped around as well: integer literals that are not
representable are now reported.
---
 include/marco/Lexer/FloatLexer.h         | 34 +++++++++++++++++++++---
 lib/Parser/BaseModelica/StateMachine.cpp |  6 +++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..4c86230 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -3,6 +3,7 @@
 
 #include "marco/Lexer/IntegerLexer.h"
 #include <cmath>
+#include <limits>
 
 namespace marco::lexer {
 /// Used to build floats in the form upper.lower * (base ^ exponent) as
@@ -11,10 +12,26 @@ template <unsigned int Base>
 class FloatLexer {
 public:
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperApproximation = upperApproximation * Base + i;
+
+    if (upperPart.get() > (std::numeric_limits<int64_t>::max() - i) / Base) {
+      upperOverflow = true;
+    }
+
+    if (!upperOverflow) {
+      upperPart += i;
+    }
+  }
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
+    // Ignore the digits that are beyond the precision of the result, and whose
+    // normalizer would not be representable.
+    if (lowerPart.get() >= std::numeric_limits<int64_t>::max() / Base / Base) {
+      return;
+    }
+
     lowerPart += i;
 
     if (i != 0) {
@@ -29,7 +46,11 @@ public:
   /// Concatenate the number to the exponent part.
   void addExponential(int i) {
     hasExponential = true;
-    exponential += i;
+
+    // Larger exponents are all out of the range of the result.
+    if (exponential.get() <= std::numeric_limits<int>::max()) {
+      exponential += i;
+    }
   }
 
   /// Set the exponent sign to + if true, - if false.
@@ -41,6 +62,9 @@ public:
   /// Return the X part to make it compatible with the IntegerLexer.
   int64_t getUpperPart() const { return upperPart.get(); }
 
+  /// Whether the integer part is too big to be represented as an integer.
+  bool isUpperPartOverflowed() const { return upperOverflow; }
+
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
     int64_t mantissaNormalizer = 1;
@@ -49,7 +73,7 @@ public:
       mantissaNormalizer *= Base;
     }
 
-    double toReturn = upperPart.get();
+    double toReturn = upperOverflow ? upperApproximation : upperPart.get();
     toReturn += static_cast<double>(lowerPart.get()) /
                 (mantissaNormalizer * std::pow(Base, fractionalLeadingZeros));
 
@@ -68,6 +92,8 @@ public:
 
   void reset() {
     upperPart.reset();
+    upperApproximation = 0;
+    upperOverflow = false;
     lowerPart.reset();
     hasExponential = false;
     exponential.reset();
@@ -78,6 +104,8 @@ public:
 
 private:
   IntegerLexer<Base> upperPart;
+  double upperApproximation = 0;
+  bool upperOverflow = false;
   IntegerLexer<Base> lowerPart;
   bool hasExponential = false;
   IntegerLexer<Base> exponential;
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 5f819bf..e2e6d3f 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -220,6 +220,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
   if (!isAcceptable(next)) {
     state = State::Normal;
+
+    if (numberLexer.isUpperPartOverflowed()) {
+      error = "integer number out of range";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From 1c9d1c62fd055e5ed2c246e9aef9ec240785d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 26/43] fix: reject tokens that do not start an expression

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..ec4bd4f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1457,7 +1457,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     result = std::move(newResult);
   }
 
-  assert(result != nullptr);
+  if (!result) {
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
+  }
 
   if (lookahead[0].isa<TokenKind::LSquare>()) {
     TRY(arraySubscripts, parseArraySubscripts());
-- 
2.43.0


From 0f489a6d44bf5a1a6c679ec2177c59b773a8842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 27/43] fix: do not take the text of tokens that have none

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ec4bd4f..3293629 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1880,8 +1880,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1902,8 +1902,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
 
     while (accept<TokenKind::Dot>()) {
       loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
@@ -1950,8 +1950,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseTermModification() {
 
   do {
     accept<TokenKind::Each>();
-    const std::string lastIndentifier = lookahead[0].getString();
     EXPECT(TokenKind::Identifier);
+    const std::string lastIndentifier = getString();
     EXPECT(TokenKind::EqualityOperator);
 
     if (lastIndentifier == "start") {
-- 
2.43.0


From f574609018637c6498dbd4f9a3e06c7653c8dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 28/43] fix: reject tokens that do not start a section of a
 class

---
 lib/Parser/BaseModelica/Parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3293629..21da659 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -290,13 +290,18 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
       continue;
     }
 
-    if (firstElementListParsable) {
+    if (firstElementListParsable && !lookahead[0].isa<TokenKind::Initial>()) {
       TRY(elementList, parseElementList(true));
 
       for (auto &element : *elementList) {
         members.push_back(std::move(element));
       }
+
+      continue;
     }
+
+    emitUnexpectedTokenError(lookahead[0], TokenKind::End);
+    return std::nullopt;
   }
 
   // Parse the optional 'external'-related information.
-- 
2.43.0


From 9acba3f52bfa4ab5d5653da3a7fad41312c16d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 29/43] fix: parse class annotations that follow the elements

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 21da659..1255318 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1802,7 +1802,8 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
-         !lookahead[0].isa<TokenKind::External>()) {
+         !lookahead[0].isa<TokenKind::External>() &&
+         !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
     members.push_back(std::move(*member));
-- 
2.43.0


From 9250b595052214e705d2e6b63b54533ebefccacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 30/43] fix: reject derivatives of classes that are not
 functions

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 1255318..aa7abb8 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -187,9 +187,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   loc.end = name->getLocation().end;
   result->setLocation(loc);
 
-  if (accept<TokenKind::EqualityOperator>()) {
+  if (result->isa<StandardFunction>() &&
+      accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From e4350309a8c77a40d454e0f3a19173b153c29f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 31/43] fix: keywords of the when clauses

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index aa7abb8..b466fe7 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1000,7 +1000,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
@@ -1024,7 +1024,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From f7e539fe5ad218db3d3303e4f7992e7ef60e6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 32/43] fix: reject redeclarations instead of crashing

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b466fe7..fd01b7a 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -512,13 +512,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // TODO: not implemented yet.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // TODO: not implemented yet.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From 7110e3a512956515c38173fa621f4adf58aa1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 33/43] fix: parse initial algorithms

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index fd01b7a..a14fb71 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -525,14 +525,17 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  SourceRange loc = lookahead[0].getLocation();
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
-  SourceRange loc = getLocation();
+  loc.end = getLocation().end;
 
   llvm::SmallVector<std::unique_ptr<ASTNode>, 10> statements;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -545,6 +548,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 50aafe4e632efcc0ff4301e4df03ace83b24dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 34/43] fix: parse call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index a14fb71..f20c93e 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -670,10 +670,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
+    TRY(functionArguments, parseFunctionCallArgs());
 
     auto callee = std::make_unique<ComponentReference>(loc);
     loc.end = getLocation().end;
-- 
2.43.0


From 32f9aacf6fd0325e16630e47ef0198133d0f2187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 35/43] fix: require commas between the expressions of a tuple

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f20c93e..cf8d8c2 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1734,7 +1734,10 @@ Parser::parseOutputExpressionList() {
 
     TRY(expression, parseExpression());
     expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+
+    if (!lookahead[0].isa<TokenKind::RPar>()) {
+      EXPECT(TokenKind::Comma);
+    }
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 5c80e34009a2aabe19b8a3a80d406f10af0c7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 36/43] fix: locations of powers and elseif blocks

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index cf8d8c2..69e1f84 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -816,7 +816,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseIfStatement() {
       elseIfStatementsBlockLoc.end = stmnt->getLocation().end;
     }
 
-    auto elseIfBlock = std::make_unique<StatementsBlock>(statementsBlockLoc);
+    auto elseIfBlock = std::make_unique<StatementsBlock>(elseIfStatementsBlockLoc);
     elseIfBlock->setBody(elseIfStatements);
     loc.end = elseIfBlock->getLocation().end;
     elseIfBlocks.push_back(std::move(elseIfBlock));
@@ -1325,8 +1325,7 @@ WrappedParseResult<OperationKind> Parser::parseMulOperator() {
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseFactor() {
   TRY(primary, parsePrimary());
-  SourceRange loc = getLocation();
-  loc.end = (*primary)->getLocation().end;
+  SourceRange loc = (*primary)->getLocation();
 
   auto result = std::move(*primary);
 
-- 
2.43.0


From 5ead0cb8b3caacd0203076eb4d3375fdbcf5136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 37/43] fix: parse global component references in expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 69e1f84..7454d3b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1448,7 +1448,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else if (lookahead[0].isa<TokenKind::Identifier>() ||
+             lookahead[0].isa<TokenKind::Dot>()) {
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
-- 
2.43.0


From b5503af2605c168493b1c42a22541897fbdf0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 38/43] fix: kind of the when equations

---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..aa8e2d0 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From 0c4c4e8122c3827c68131b41eeaf0cab1afc319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 39/43] fix: make room for the elseif equations

---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index aa8e2d0..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From 079bdece495c297ad233b5e9b60a0871f9eacb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 40/43] fix: array dimensions starting with an integer

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 7454d3b..75a1add 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1946,7 +1946,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From d4f83f85f01563a35e1aba8e6a762b2454b1c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 41/43] fix: parents of the arguments of copied class
 modifications

---
 lib/AST/BaseModelica/Modification.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fbedeba..fcffdf4 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -127,9 +127,7 @@ ClassModification::ClassModification(SourceRange location)
 
 ClassModification::ClassModification(const ClassModification &other)
     : ASTNode(other) {
-  for (const auto &arg : other.arguments) {
-    this->arguments.push_back(arg->clone());
-  }
+  setArguments(other.arguments);
 }
 
 ClassModification::~ClassModification() = default;
-- 
2.43.0


From 852ddc0024cabc5adbb0f06510ed8b6fcbd0c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 42/43] fix: bounds of variable filters exceeding 32 or 64 bits

---
 include/marco/VariableFilter/Parser.h    |  2 +-
 lib/VariableFilter/LexerStateMachine.cpp | 11 ++++++++++-
 lib/VariableFilter/Parser.cpp            |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..f540916 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<int64_t> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/LexerStateMachine.cpp b/lib/VariableFilter/LexerStateMachine.cpp
index 80e9b8d..71a8c27 100644
--- a/lib/VariableFilter/LexerStateMachine.cpp
+++ b/lib/VariableFilter/LexerStateMachine.cpp
@@ -1,4 +1,5 @@
 #include "marco/VariableFilter/LexerStateMachine.h"
+#include <limits>
 
 using namespace ::marco;
 using namespace ::marco::vf;
@@ -117,7 +118,15 @@ std::optional<Token>
 LexerStateMachine::scan<LexerStateMachine::State::ParsingNum>() {
   if (isDigit(current)) {
     setTokenEndPosition();
-    numberLexer += (current - '0');
+    int digit = current - '0';
+
+    if (getInt() > (std::numeric_limits<int64_t>::max() - digit) / 10) {
+      state = State::Normal;
+      error = "Integer out of range";
+      return makeToken(TokenKind::Error, getError());
+    }
+
+    numberLexer += digit;
   }
 
   if (!isDigit(next)) {
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..498b6cb 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<int64_t> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From 7fa836c371326f5d2cf63f2a64c4dba93cee370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 43/43] fix: lists of index sets could not be written to
 bytecode nor read back from text

---
 lib/Dialect/Modeling/IR/Properties.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 0339d23..245b40a 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -209,7 +209,7 @@ mlir::LogicalResult readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
 }
 
 void writeToMlirBytecode(mlir::DialectBytecodeWriter &writer,
-                         IndexSetsList &prop) {
+                         const IndexSetsList &prop) {
   writer.writeVarInt(prop.size());
 
   for (const IndexSet &indexSet : prop) {
@@ -223,14 +223,10 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSetsList &prop) {
   }
 
   if (mlir::failed(parser.parseOptionalRSquare())) {
-    IndexSet indices;
-
     do {
-      if (mlir::failed(parse(parser, indices))) {
+      if (mlir::failed(parse(parser, prop.emplace_back()))) {
         return mlir::failure();
       }
-
-      prop.push_back(std::move(indices));
     } while (mlir::succeeded(parser.parseOptionalComma()));
 
     if (parser.parseRSquare()) {
-- 
2.43.0

