From 7f3ce0ced8463dcdb42b684bc53d79c646c6921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 01/20] fix: garbageCollect reports reclaimed density-matrix
 nodes in its result

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..939722c 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -980,7 +980,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From 16dabff0fac9160f7fccc531875385601c7375ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 02/20] fix: empty the Toffoli table when complex numbers have
 been reclaimed

---
 include/dd/Package.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 939722c..26bab89 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -975,6 +975,7 @@ namespace dd {
                 vectorInnerProduct.clear();
                 vectorKronecker.clear();
                 matrixKronecker.clear();
+                toffoliTable.clear();
                 stochasticNoiseOperationCache.clear();
                 densityAdd.clear();
                 densityDensityMultiplication.clear();
-- 
2.43.0


From 80cb2f7788fa503da55521adc1e0f244234b08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 03/20] fix: a number of exactly minus the tolerance is
 interned as zero, not as a negative zero

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From 7ae2776a6dd959ab7e13ae86be7bf08887b64229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 04/20] fix: the number table starts with the documented
 initial collection limit, as after clear()

---
 include/dd/ComplexTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..a1830ff 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -502,7 +502,7 @@ namespace dd {
         // garbage collection
         std::size_t gcCalls = 0;
         std::size_t gcRuns  = 0;
-        std::size_t gcLimit = 100000;
+        std::size_t gcLimit = INITIAL_GC_LIMIT;
 
         inline Entry* findOrInsert(const std::int64_t key, const fp val) {
             [[maybe_unused]] const fp valTol = val + TOLERANCE;
-- 
2.43.0


From 0b22b72049a7878c865b583b5a440d5a786e5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 05/20] fix: kronecker keeps the first operand's weight and
 honours incIdx when it is an identity

---
 include/dd/Package.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 26bab89..5272bb5 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1985,15 +1985,15 @@ namespace dd {
             constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
             // special case handling for matrices
             if constexpr (n == NEDGE) {
-                if (x.p->isIdentity()) {
-                    auto idx = incIdx ? static_cast<Qubit>(y.p->v + 1) : y.p->v;
+                if (incIdx && x.p->isIdentity()) {
+                    auto idx = static_cast<Qubit>(y.p->v + 1);
                     auto e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
                     for (auto i = 0; i < x.p->v; ++i) {
-                        idx = incIdx ? static_cast<Qubit>(e.p->v + 1) : e.p->v;
+                        idx = static_cast<Qubit>(e.p->v + 1);
                         e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
@@ -2006,7 +2006,9 @@ namespace dd {
 
             auto idx = incIdx ? static_cast<Qubit>(y.p->v + x.p->v + 1) : x.p->v;
             auto e   = makeDDNode(idx, edge, true);
-            ComplexNumbers::mul(e.w, e.w, x.w);
+            if (!e.w.exactlyZero()) {
+                ComplexNumbers::mul(e.w, e.w, x.w);
+            }
             computeTable.insert(x, y, {e.p, e.w});
             return e;
         }
-- 
2.43.0


From 30a4613f2ee0c5dbeec46fe31263a46ca170f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 06/20] fix: a matrix successor whose normalised weight is zero
 becomes the zero terminal

---
 include/dd/Package.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5272bb5..5cc0688 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -464,6 +464,9 @@ namespace dd {
                         auto c = cn.getTemporary();
                         ComplexNumbers::div(c, r.p->e[i].w, maxc);
                         r.p->e[i].w = cn.lookup(c);
+                        if (r.p->e[i].w == Complex::zero) {
+                            r.p->e[i] = Edge<Node>::zero;
+                        }
                     }
                 }
                 return r;
-- 
2.43.0


From 769234ced6e02ee5222e5dbdb30bca17b4c5ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 07/20] fix: makeDDNode puts the node back when all successors
 of a cached computation are zero

---
 include/dd/Package.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5cc0688..394b93f 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1015,7 +1015,13 @@ namespace dd {
             }
 
             // normalize it
-            e = normalize(e, cached);
+            auto* const node = e.p;
+            e                = normalize(e, cached);
+            if (cached && e.isTerminal()) {
+                // all successors are zero: the node is not needed and has to be put back into the chain
+                // (for computations that are not cached, this is done in normalize)
+                uniqueTable.returnNode(node);
+            }
             assert(e.p->v == var || e.isTerminal());
 
             // look it up in the unique tables
-- 
2.43.0


From 5e1be0d31ffe1aa7b549b37f84f236e2adc54131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 08/20] fix: makeIdent may reuse the cached identity of the
 qubits below only when its lowest qubit is 0

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 394b93f..c078317 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2192,7 +2192,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From 431b2d36945479771a29e016d7427854baa9d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 09/20] fix: multiply ends the recursion at the terminals, also
 when the operands start above level 0

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c078317..50c1d8a 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1606,7 +1606,7 @@ namespace dd {
                 return ResultEdge::zero;
             }
 
-            if (var == start - 1) {
+            if (var == start - 1 || (x.isTerminal() && y.isTerminal())) {
                 return ResultEdge::terminal(cn.mulCached(x.w, y.w));
             }
 
-- 
2.43.0


From e8d7cf9bdb967bb1115635a1c0437cb103c0e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 10/20] fix: makeBasisState checks that the list of states
 covers the levels it is asked for

---
 include/dd/Package.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 50c1d8a..5f1588f 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -254,6 +254,9 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
+            }
             auto f = vEdge::one;
             for (std::size_t p = start; p < n + start; ++p) {
                 if (!state[p]) {
@@ -273,8 +276,8 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
-            if (state.size() < n) {
-                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n) + ", but received " + std::to_string(state.size()));
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
             }
 
             auto f = vEdge::one;
-- 
2.43.0


From 0e73ddc0c3b51da26132576f6327b77f9867c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 11/20] fix: makeDDFromMatrix checks the length of every row,
 not only of the first

---
 include/dd/Package.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5f1588f..159d605 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -352,9 +352,10 @@ namespace dd {
                 throw std::invalid_argument("Matrix must have a length of a power of two.");
             }
 
-            const auto& width = matrix[0].size();
-            if (length != width) {
-                throw std::invalid_argument("Matrix must be square.");
+            for (const auto& row: matrix) {
+                if (row.size() != length) {
+                    throw std::invalid_argument("Matrix must be square.");
+                }
             }
 
             if (length == 1) {
@@ -365,7 +366,7 @@ namespace dd {
 
             const auto level = static_cast<Qubit>(std::log2(length) - 1);
 
-            auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
+            auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, length);
 
             if (matrixDD.w != Complex::zero) {
                 cn.returnToCache(matrixDD.w);
-- 
2.43.0


From 32ce7b6e633ba4a06b5a5828d4caeae060029e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 12/20] fix: states, operators and Kronecker products on more
 qubits than the package has are refused, not built out of bounds

---
 include/dd/Package.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 159d605..a8fd944 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -223,6 +223,7 @@ namespace dd {
         }
 
         dEdge makeZeroDensityOperator(QubitCount n) {
+            checkCapacity(n);
             auto f = dEdge::one;
             for (std::size_t p = 0; p < n; p++) {
                 f = makeDDNode(static_cast<Qubit>(p), std::array{f, dEdge::zero, dEdge::zero, dEdge::zero});
@@ -230,6 +231,17 @@ namespace dd {
             return f;
         }
 
+        // a diagram on more levels than there are unique tables for must not be built
+        void checkCapacity(std::size_t n) const {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested decision diagram with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+        }
+
         // generate |0...0> with n qubits
         vEdge makeZeroState(QubitCount n, std::size_t start = 0) {
             if (n + start > nqubits) {
@@ -323,6 +335,7 @@ namespace dd {
             [[maybe_unused]] const auto before = cn.cacheCount();
 
             const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            checkCapacity(static_cast<std::size_t>(level) + 1);
             auto       state = makeStateFromVector(stateVector.begin(), stateVector.end(), level);
 
             // the recursive function makes use of the cache, so we have to clean it up
@@ -365,6 +378,7 @@ namespace dd {
             [[maybe_unused]] const auto before = cn.cacheCount();
 
             const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            checkCapacity(static_cast<std::size_t>(level) + 1);
 
             auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, length);
 
@@ -1955,6 +1969,9 @@ namespace dd {
             if constexpr (std::is_same_v<Edge, dEdge>) {
                 throw std::invalid_argument("Kronecker is currently not supported for density matrices");
             }
+            if (incIdx && x.p != nullptr && y.p != nullptr) {
+                checkCapacity(static_cast<std::size_t>(x.p->v + 1) + static_cast<std::size_t>(y.p->v + 1));
+            }
 
             auto e = kronecker2(x, y, incIdx);
 
@@ -2192,6 +2209,7 @@ namespace dd {
             if (mostSignificantQubit < leastSignificantQubit) {
                 return mEdge::one;
             }
+            checkCapacity(static_cast<std::size_t>(mostSignificantQubit) + 1);
 
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
-- 
2.43.0


From dcaa2f61257c40a24a19b6f73cd855926ec79ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 13/20] fix: transfer finds the remaining successors of a node
 also behind nodes mapped in the meantime, and does not look at the top of an
 empty stack

---
 include/dd/Package.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index a8fd944..d4a7036 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2946,6 +2946,11 @@ namespace dd {
                     currentEdge = stack.top();
                     stack.pop();
 
+                    // a node that is reached via several edges might have been mapped since it was pushed
+                    while (!stack.empty() && mappedNode.find(stack.top()->p) != mappedNode.end()) {
+                        stack.pop();
+                    }
+
                     bool hasChild = false;
                     for (std::size_t i = 1; i < n && !hasChild; ++i) {
                         auto& edge = currentEdge->p->e[i];
@@ -2955,7 +2960,7 @@ namespace dd {
                         if (mappedNode.find(edge.p) != mappedNode.end()) {
                             continue;
                         }
-                        hasChild = edge.p == stack.top()->p;
+                        hasChild = !stack.empty() && edge.p == stack.top()->p;
                     }
 
                     if (hasChild) {
-- 
2.43.0


From 243c8cc34e37597c6bb9691c537347d1a68bbca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:48 +0000
Subject: [PATCH 14/20] fix: deserialize refuses truncated input, levels the
 package does not have and nodes used before they are defined

---
 include/dd/Package.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index d4a7036..93db6f0 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3027,14 +3027,24 @@ namespace dd {
                     rootweight.readBinary(is);
                 }
 
+                if (!is) {
+                    throw std::runtime_error("Serialized decision diagram ends unexpectedly.");
+                }
+
                 while (is.read(reinterpret_cast<char*>(&nodeIndex), sizeof(decltype(nodeIndex)))) {
                     is.read(reinterpret_cast<char*>(&v), sizeof(decltype(v)));
                     for (std::size_t i = 0U; i < N; i++) {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
+                    if (!is) {
+                        throw std::runtime_error("Serialized decision diagram ends unexpectedly.");
+                    }
                     result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
+                if (is.gcount() != 0) {
+                    throw std::runtime_error("Serialized decision diagram ends unexpectedly.");
+                }
             } else {
                 std::string version;
                 std::getline(is, version);
@@ -3123,6 +3133,14 @@ namespace dd {
                 return Edge::zero;
             }
 
+            if (v < 0 || static_cast<std::size_t>(v) >= nqubits) {
+                throw std::runtime_error("Serialized decision diagram has a node on qubit " +
+                                         std::to_string(v) +
+                                         ", but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance.");
+            }
+
             std::array<Edge, N> edges{};
             for (auto i = 0U; i < N; ++i) {
                 if (edgeIdx[i] == -2) {
@@ -3131,7 +3149,11 @@ namespace dd {
                     if (edgeIdx[i] == -1) {
                         edges[i] = Edge::one;
                     } else {
-                        edges[i].p = nodes[edgeIdx[i]];
+                        const auto node = nodes.find(edgeIdx[i]);
+                        if (node == nodes.end()) {
+                            throw std::runtime_error("Serialized decision diagram refers to node " + std::to_string(edgeIdx[i]) + " before it is defined.");
+                        }
+                        edges[i].p = node->second;
                     }
                     edges[i].w = cn.lookup(edgeWeight[i]);
                 }
-- 
2.43.0


From 722c5b3138d3ddfe2d09ee7f62efeb7291934c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 15/20] fix: transfer refuses a diagram on more qubits than the
 package has

---
 include/dd/Package.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 93db6f0..1566470 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2922,6 +2922,14 @@ namespace dd {
 
             Edge* currentEdge = &original;
             if (!currentEdge->isTerminal()) {
+                if (static_cast<std::size_t>(original.p->v) >= nqubits) {
+                    throw std::runtime_error("Requested transfer of a decision diagram with " +
+                                             std::to_string(original.p->v + 1) +
+                                             " qubits, but current package configuration only supports up to " +
+                                             std::to_string(nqubits) +
+                                             " qubits. Please allocate a larger package instance.");
+                }
+
                 constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
                 do {
                     while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-- 
2.43.0


From efde98bd20bf0368bdb5231d11731aee654a75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:22 +0000
Subject: [PATCH 16/20] fix: reading a density matrix does not take the mark
 off its edge

---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1566470..ff8ec49 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2770,12 +2770,14 @@ namespace dd {
         }
 
         CMat getDensityMatrix(dEdge& e) {
-            dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 2ULL << e.p->v;
+            // the edge itself has to keep its mark
+            auto root = e;
+            dEdge::applyDmChangesToEdge(root);
+            const std::size_t dim = 2ULL << root.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-            getDensityMatrix(e, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(e);
+            getDensityMatrix(root, Complex::one, 0, 0, mat);
+            dd::dEdge::revertDmChangesToEdge(root);
             return mat;
         }
 
-- 
2.43.0


From 7bdc7248a7b1bf1af9d0830ca4ecaaf17edf8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 17/20] fix: products of density matrices are memoised under
 the marks of the operands, not for the bare nodes

---
 include/dd/ComputeTable.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..2bbea4b 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -11,6 +11,7 @@
 
 #include <array>
 #include <cstddef>
+#include <cstdint>
 #include <iostream>
 #include <utility>
 
@@ -30,10 +31,22 @@ namespace dd {
             LeftOperandType  leftOperand;
             RightOperandType rightOperand;
             ResultType       result;
+            std::uint8_t     leftMarks{};
+            std::uint8_t     rightMarks{};
         };
 
         static constexpr std::size_t MASK = NBUCKET - 1;
 
+        // a node of a density matrix stands for different matrices depending on the marks it has at the moment
+        template<class Operand>
+        static std::uint8_t marks([[maybe_unused]] const Operand& operand) {
+            if constexpr (std::is_same_v<Operand, dEdge>) {
+                return static_cast<std::uint8_t>(dNode::getDensityMatrixTempFlags(operand.p->flags));
+            } else {
+                return 0U;
+            }
+        }
+
         static std::size_t hash(const LeftOperandType& leftOperand, const RightOperandType& rightOperand) {
             const auto h1   = std::hash<LeftOperandType>{}(leftOperand);
             const auto h2   = std::hash<RightOperandType>{}(rightOperand);
@@ -46,7 +59,7 @@ namespace dd {
 
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result};
+            table[key]     = {leftOperand, rightOperand, result, marks(leftOperand), marks(rightOperand)};
             ++count;
         }
 
@@ -64,6 +77,9 @@ namespace dd {
             if (entry.rightOperand != rightOperand) {
                 return result;
             }
+            if (entry.leftMarks != marks(leftOperand) || entry.rightMarks != marks(rightOperand)) {
+                return result;
+            }
 
             if constexpr (std::is_same_v<RightOperandType, dEdge>) {
                 // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
-- 
2.43.0


From 329384bbf52130313c5d75f6c5016414e180176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:03 +0000
Subject: [PATCH 18/20] fix: density noise results are memoised under the marks
 of the operand, not for the bare node

---
 include/dd/DensityNoiseTable.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/dd/DensityNoiseTable.hpp b/include/dd/DensityNoiseTable.hpp
index e74e9e2..f86ee4b 100644
--- a/include/dd/DensityNoiseTable.hpp
+++ b/include/dd/DensityNoiseTable.hpp
@@ -7,9 +7,11 @@
 #define DDpackage_NOISECOMPUTETABLE_HPP
 
 #include "Definitions.hpp"
+#include "Node.hpp"
 
 #include <array>
 #include <cstddef>
+#include <cstdint>
 #include <iostream>
 #include <utility>
 
@@ -28,6 +30,7 @@ namespace dd {
             OperandType            operand;
             ResultType             result;
             std::vector<dd::Qubit> usedQubits;
+            std::uint8_t           marks{};
         };
 
         static constexpr size_t MASK = NBUCKET - 1;
@@ -43,12 +46,22 @@ namespace dd {
             return (std::hash<OperandType>{}(a) + i) & MASK;
         }
 
+        // a node of a density matrix stands for different matrices depending on the marks it has at the moment
+        static std::uint8_t marks([[maybe_unused]] const OperandType& operand) {
+            if constexpr (std::is_same_v<OperandType, dEdge>) {
+                return static_cast<std::uint8_t>(dNode::getDensityMatrixTempFlags(operand.p->flags));
+            } else {
+                return 0U;
+            }
+        }
+
         void insert(const OperandType& operand, const ResultType& result, const std::vector<Qubit>& usedQubits) {
             const auto key   = hash(operand, usedQubits);
             auto&      entry = table[key];
             entry.result     = result;
             entry.operand    = operand;
             entry.usedQubits = usedQubits;
+            entry.marks      = marks(operand);
             ++count;
         }
 
@@ -66,6 +79,9 @@ namespace dd {
             if (entry.usedQubits != usedQubits) {
                 return result;
             }
+            if (entry.marks != marks(operand)) {
+                return result;
+            }
             hits++;
             return entry.result;
         }
-- 
2.43.0


From c05aa789eb60aa0e9dd6d12276f2e6bcbbb77e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 19/20] fix: products asked for as density matrices take back
 the changes to the operands also for the successor that is copied

---
 include/dd/Package.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ff8ec49..f9bd4b7 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1731,6 +1731,7 @@ namespace dd {
                                         edge[2] = ResultEdge{edge[1].p, cn.getCached(edge[1].w.r->value, edge[1].w.i->value)};
                                     }
                                 }
+                                dEdge::revertDmChangesToEdges(e1, e2);
                                 continue;
                             } else {
                                 m = multiply2(e1, e2, static_cast<Qubit>(var - 1), start, generateDensityMatrix);
-- 
2.43.0


From b0fd9390d143d2756b7b33f94f2ed33888d0c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 20/20] fix: reduceAncillae keeps the weights of successors
 that share a node and of the reduced node

---
 include/dd/Package.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index f9bd4b7..63b6f82 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2370,7 +2370,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
@@ -2379,20 +2379,18 @@ namespace dd {
                     handled.set(i);
                 }
             }
-            f = makeDDNode(f.p->v, edges);
 
             // something to reduce for this qubit
             if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
                 if (regular) {
-                    if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
-                        f = makeDDNode(f.p->v, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
-                    }
+                    edges[1] = mEdge::zero;
+                    edges[3] = mEdge::zero;
                 } else {
-                    if (f.p->e[2].w != Complex::zero || f.p->e[3].w != Complex::zero) {
-                        f = makeDDNode(f.p->v, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
-                    }
+                    edges[2] = mEdge::zero;
+                    edges[3] = mEdge::zero;
                 }
             }
+            f = makeDDNode(f.p->v, edges);
 
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
-- 
2.43.0

