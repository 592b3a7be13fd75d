From fbef7cb998156ea8639f253ecd405b7fb39b5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 01/71] fix: keep 64-bit edge weights and degrees in priority
 queue keys and contraction tests

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 8 ++++----
 lib/algorithms/global_mincut/ks_minimum_cut.h          | 4 ++--
 lib/coarsening/contraction_tests.h                     | 4 ++--
 lib/common/definitions.h                               | 2 +-
 lib/parallel/coarsening/contraction_tests.h            | 8 ++++----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 14a9f97..4760634 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -509,7 +509,7 @@ class recursive_cactus {
 
     std::tuple<NodeID, EdgeID, NodeID> maximumFlowEdge(
         mutableGraphPtr G) {
-        NodeWeight max_degree = 0;
+        EdgeWeight max_degree = 0;
         NodeID s = UNDEFINED_NODE;
 
         for (NodeID n : G->nodes()) {
@@ -522,7 +522,7 @@ class recursive_cactus {
 
         NodeID t = UNDEFINED_NODE;
         EdgeID e = UNDEFINED_EDGE;
-        NodeWeight max_ngbr = 0;
+        EdgeWeight max_ngbr = 0;
         for (EdgeID edge : G->edges_of(s)) {
             NodeID ngbr = G->getEdgeTarget(s, edge);
             if (G->getUnweightedNodeDegree(ngbr) > max_ngbr &&
@@ -543,7 +543,7 @@ class recursive_cactus {
 
     std::tuple<NodeID, EdgeID, NodeID> maximumWeightedFlowEdge(
         mutableGraphPtr G) {
-        NodeWeight max_degree = 0;
+        EdgeWeight max_degree = 0;
         NodeID s = UNDEFINED_NODE;
 
         for (NodeID n : G->nodes()) {
@@ -556,7 +556,7 @@ class recursive_cactus {
 
         NodeID t = UNDEFINED_NODE;
         EdgeID e = UNDEFINED_EDGE;
-        NodeWeight max_ngbr = 0;
+        EdgeWeight max_ngbr = 0;
         for (EdgeID edge : G->edges_of(s)) {
             NodeID ngbr = G->getEdgeTarget(s, edge);
             if (G->getWeightedNodeDegree(ngbr) > max_ngbr &&
diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..9e16328 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -169,8 +169,8 @@ class ks_minimum_cut : public minimum_cut {
                     NodeID tgt = G->getEdgeTarget(e);
                     EdgeWeight wgte = G->getEdgeWeight(e);
                     if (tgt > n && currentN > 2) {
-                        NodeWeight degn = G->getWeightedNodeDegree(n);
-                        NodeWeight degt = G->getWeightedNodeDegree(tgt);
+                        EdgeWeight degn = G->getWeightedNodeDegree(n);
+                        EdgeWeight degt = G->getWeightedNodeDegree(tgt);
                         if (wgte > G->getMinDegree() || wgte * 2 > degn
                             || wgte * 2 > degt) {
                             NodeID first = uf.Find(n);
diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..2ee43fb 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -61,11 +61,11 @@ class tests {
         G->computeDegrees();
         std::vector<bool> contracted(G->number_of_nodes(), false);
         for (NodeID n : G->nodes()) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                EdgeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/common/definitions.h b/lib/common/definitions.h
index 6a4b870..2554cbb 100644
--- a/lib/common/definitions.h
+++ b/lib/common/definitions.h
@@ -32,7 +32,7 @@ typedef uint64_t PathID;
 typedef uint32_t PartitionID;
 typedef uint32_t NodeWeight;
 typedef uint64_t EdgeWeight;
-typedef NodeWeight Gain;
+typedef EdgeWeight Gain;
 typedef int32_t Color;
 typedef uint64_t Count;
 typedef int64_t FlowType;
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..be1ac6a 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -69,11 +69,11 @@ class tests {
         NodeID end = G->number_of_nodes();
 #pragma omp parallel for schedule(dynamic, 100)
         for (NodeID n = 0; n < end; ++n) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
 
             for (EdgeID e : G->edges_of(n)) {
                 auto [tgt, wgt] = G->getEdge(n, e);
-                NodeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
+                EdgeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
                 if (wgt >= weight_limit) {
                     contracted[n] = true;
                     contracted[tgt] = true;
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
-- 
2.43.0


From d2668b0fc77489856dc72d22cc812c3a4365377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 02/71] fix: sort triangle weights in place in heavy triangle
 test

---
 lib/coarsening/contraction_tests.h          | 3 +--
 lib/parallel/coarsening/contraction_tests.h | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index 2ee43fb..0db1840 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,8 +25,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
-                      w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {  // NOLINT
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index be1ac6a..3b7bac9 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {  // NOLINT
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From 1aaf105aa0fcbcc3b6c98d19563c6afa297ed6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 03/71] fix: do not contract the caller's mutable graph in
 padberg_rinaldi and matula_approx

---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..0c1a0ec 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,14 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(
+                graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(
+                graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From 15b53ae2f6b1a60fafebe07395f2244e88fe3e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 04/71] fix: karger-stein keeps the saved cut of the better
 recursive call

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 9e16328..69714b7 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -197,16 +197,26 @@ class ks_minimum_cut : public minimum_cut {
         EdgeWeight mincut_to_return = 0;
 
         if (graphs.back()->number_of_nodes() > 50) {
+            const bool save_cut = configuration::getConfig()->save_cut;
             auto w1 = recurse(current_position, iteration);
+            // both calls contract G2, keep the cut found by the first one
+            std::vector<bool> first_cut;
+            if (save_cut) {
+                for (NodeID n : G2->nodes()) {
+                    NodeID ctr = G2->getPartitionIndex(n);
+                    first_cut.push_back(graphs[w1.second]->getNodeInCut(ctr));
+                }
+            }
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
-            if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
+            if (save_cut) {
                 for (NodeID n : G2->nodes()) {
                     NodeID ctr = G2->getPartitionIndex(n);
-                    PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
-                    G2->setNodeInCut(n, pid);
+                    G2->setNodeInCut(
+                        n, w1.first < w2.first
+                        ? static_cast<bool>(first_cut[n])
+                        : graphs[w2.second]->getNodeInCut(ctr));
                 }
             }
             mincut_to_return = std::min(w1.first, w2.first);
-- 
2.43.0


From 3821c09ad4defb1121600527e0243213a80e09c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 05/71] fix: karger-stein terminates on disconnected graphs

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 69714b7..3a67781 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -51,6 +51,22 @@ class ks_minimum_cut : public minimum_cut {
         if (!G) {
             return -1;
         }
+
+        // random contraction only terminates on connected graphs
+        union_find components(G->number_of_nodes());
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                components.Union(n, G->getEdgeTarget(e));
+            }
+        }
+
+        if (components.n() > 1) {
+            for (NodeID n : G->nodes()) {
+                G->setNodeInCut(n, components.Find(n) == components.Find(0));
+            }
+            return 0;
+        }
+
         EdgeWeight mincut = std::numeric_limits<EdgeWeight>::max();
         std::vector<PartitionID> best_partition(G->number_of_nodes());
         timer t;
-- 
2.43.0


From f55f7ce69b5a0c6b268a36030e1f6c1a620f656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 06/71] fix: viecut saves the cut found below the label
 propagation level

---
 lib/algorithms/global_mincut/viecut.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..5379f34 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -83,6 +83,13 @@ class viecut : public minimum_cut {
             contraction::findTrivialCuts(G, &mapping, &reverse_mapping, cut);
             LOGC(timing) << "Trivial Cut Local Search: " << t.elapsedToZero();
 
+            if (configuration::getConfig()->save_cut) {
+                // trivial cuts changed the mapping
+                for (NodeID n : G->nodes()) {
+                    G->setPartitionIndex(n, mapping[n]);
+                }
+            }
+
             auto H = contraction::contractGraph(G, mapping, reverse_mapping);
             graphs.push_back(H);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
@@ -106,7 +113,20 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight noi_cut = noi.perform_minimum_cut(graphs.back(), true);
+
+            if (configuration::getConfig()->save_cut && noi_cut < cut) {
+                // transfer cut of coarsest graph to the input graph
+                for (NodeID n : graphs[0]->nodes()) {
+                    NodeID coarse = n;
+                    for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                        coarse = graphs[lv]->getPartitionIndex(coarse);
+                    }
+                    graphs[0]->setNodeInCut(
+                        n, graphs.back()->getNodeInCut(coarse));
+                }
+            }
+            cut = std::min(cut, noi_cut);
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From 5b0f99eb9245f4190bbef03f170e771838f07294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/71] fix: do not read the size of a second block when
 contracting to one vertex

---
 lib/parallel/coarsening/contract_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..ce27450 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -302,7 +302,8 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (num_nodes > 1 &&
+            G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From 17402e3d78e320d661096922351943b27d9bf037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 08/71] fix: do not read past the last vertex after contracting
 it

---
 lib/data_structure/mutable_graph.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..8b192a5 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -505,9 +505,11 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -555,9 +557,11 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -644,9 +648,11 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From 366db7ac824b2c7c0865953398b3968ddb25b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 09/71] fix: track coarse vertices in copying contractions even
 if no cut is saved

---
 lib/coarsening/contract_graph.h          | 7 ++++---
 lib/parallel/coarsening/contract_graph.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 4abb7ba..46bd395 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -132,7 +132,8 @@ class contraction {
 
     static mutableGraphPtr fromUnionFind(mutableGraphPtr G, union_find* uf,
                                          bool copy = false) {
-        bool save_cut = configuration::getConfig()->save_cut;
+        // the levels of a copying contraction are mapped onto each other
+        bool save_cut = copy || configuration::getConfig()->save_cut;
         if (uf->n() == G->n() && !copy) {
             // no contraction
             return G;
@@ -208,14 +209,14 @@ class contraction {
     }
 
     static graphAccessPtr fromUnionFind(graphAccessPtr G, union_find* uf,
-                                        bool = false) {
+                                        bool copy = false) {
         std::vector<std::vector<NodeID> > reverse_mapping(uf->n());
 
         std::vector<NodeID> mapping(G->number_of_nodes());
         std::vector<NodeID> part(G->number_of_nodes(), UNDEFINED_NODE);
         NodeID current_pid = 0;
 
-        const bool save_cut = configuration::getConfig()->save_cut;
+        const bool save_cut = copy || configuration::getConfig()->save_cut;
         for (NodeID n : G->nodes()) {
             NodeID part_id = uf->Find(n);
 
diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index ce27450..2ea1d24 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -183,7 +183,8 @@ class contraction {
 
     static mutableGraphPtr fromUnionFind(mutableGraphPtr G, union_find* uf,
                                          bool copy = false) {
-        bool save_cut = configuration::getConfig()->save_cut;
+        // the levels of a copying contraction are mapped onto each other
+        bool save_cut = copy || configuration::getConfig()->save_cut;
         std::vector<std::vector<NodeID> > reverse_mapping(uf->n());
         std::vector<NodeID> part(G->number_of_nodes(), UNDEFINED_NODE);
         std::vector<NodeID> mapping(G->n());
@@ -252,9 +253,9 @@ class contraction {
     static graphAccessPtr fromUnionFind(
         graphAccessPtr G,
         union_find* uf,
-        bool = false) {
+        bool copy = false) {
         std::vector<std::vector<NodeID> > rev_mapping;
-        const bool save_cut = configuration::getConfig()->save_cut;
+        const bool save_cut = copy || configuration::getConfig()->save_cut;
 
         std::vector<NodeID> mapping(G->number_of_nodes());
         std::vector<NodeID> part(G->number_of_nodes(), UNDEFINED_NODE);
-- 
2.43.0


From 140dd726c2146da8db4be21a44d400b22c1b264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 10/71] fix: count weight of double edges once in
 from_graph_access

---
 lib/data_structure/mutable_graph.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 8b192a5..dd01afe 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -809,6 +809,11 @@ class mutable_graph {
             m_G->new_node();
             for (EdgeID e : G->edges_of(n)) {
                 NodeID t = G->getEdgeTarget(e);
+                if (t < n) {
+                    // edge was inserted from the other side
+                    continue;
+                }
+
                 if (last_incident[t] == n) {
                     // double edge
                     // LOG1 << "double edge";
-- 
2.43.0


From 7ce3ab8df93e225d9ff5eb112213f3bf219e07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 11/71] fix: deleteVertex drops the containment record of the
 deleted vertex

---
 lib/data_structure/mutable_graph.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index dd01afe..43de1eb 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -369,15 +369,15 @@ class mutable_graph {
         last_node--;
         NodeID back = number_of_nodes() - 1;
 
+        for (NodeID n : contained_in_this[node]) {
+            current_position[n] = UNDEFINED_NODE;
+        }
+
         if (node < back) {
             for (NodeID n : contained_in_this[back]) {
                 current_position[n] = node;
             }
 
-            for (NodeID n : contained_in_this[node]) {
-                current_position[n] = back;
-            }
-
             contained_in_this[node] = contained_in_this[back];
         }
 
@@ -406,6 +406,7 @@ class mutable_graph {
         weighted_degree.pop_back();
         partition_index.pop_back();
         node_in_cut.pop_back();
+        contained_in_this.pop_back();
     }
 
     // Contraction methods
-- 
2.43.0


From b8eb680691e3f6cfa065ece323366f72658e72da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 12/71] fix: cactus construction forgets positions of vertices
 that are set aside

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 4760634..511763e 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -187,6 +187,10 @@ class recursive_cactus {
                 for (NodeID n : elementsInOther) {
                     G->setCurrentPosition(n, contracted_v);
                 }
+                // these are not in G anymore until they are reinserted below
+                for (NodeID n : elementsInCtr) {
+                    G->setCurrentPosition(n, UNDEFINED_NODE);
+                }
 
                 VIECUT_ASSERT_TRUE(graph_modification::isCNCR(G, mincut));
                 auto ret = recursiveCactus(G, depth + 1);
-- 
2.43.0


From 8c34d4fd8fb1e5a64798fa39704a29fc3de55b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 13/71] fix: drop guaranteed cactus edges if a lighter cut is
 found last

---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 11 +++++++++--
 lib/parallel/algorithm/parallel_cactus.h            | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..1fc8660 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -164,8 +164,15 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight remaining_cut = noi.perform_minimum_cut(graphs.back());
+            if (remaining_cut < mincut) {
+                // heavier edges are not cactus edges
+                mincut = remaining_cut;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..e315394 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -191,8 +191,14 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight remaining_cut =
+                mc.perform_minimum_cut(graphs.back(), true);
+            if (remaining_cut < mincut) {
+                // heavier edges are not cactus edges
+                mincut = remaining_cut;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From 14e97df22422608f575b52337209f73c9eccf6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 14/71] fix: contract exactly the vertices between bridges and
 cycles when an inserted edge is added to the cactus

---
 .../global_mincut/dynamic/cactus_path.h       | 91 +++++++++----------
 .../global_mincut/dynamic/dynamic_mincut.h    |  4 +-
 2 files changed, 47 insertions(+), 48 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/cactus_path.h b/lib/algorithms/global_mincut/dynamic/cactus_path.h
index 7a6afb7..915f2fd 100644
--- a/lib/algorithms/global_mincut/dynamic/cactus_path.h
+++ b/lib/algorithms/global_mincut/dynamic/cactus_path.h
@@ -11,9 +11,8 @@
 
 #pragma once
 
-#include <queue>
-#include <tuple>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #include "common/definitions.h"
@@ -24,56 +23,56 @@ class cactus_path {
     cactus_path() { }
     ~cactus_path() { }
 
+    // Vertices that have to be contracted when an edge {s,t} is inserted: s, t
+    // and every vertex in which the way from s to t leaves one bridge or cycle
+    // of the cactus and enters the next. The inner vertices of the arcs of a
+    // cycle are not part of this set, as there still are minimum cuts which
+    // separate them from s and t.
     static std::unordered_set<NodeID> findPath(mutableGraphPtr cactus, NodeID s,
-                                               NodeID t, EdgeWeight mincut) {
-        // BFS from both vertices
-        std::vector<std::tuple<NodeID, NodeID, bool> > parents(
-            cactus->n(), std::make_tuple(UNDEFINED_NODE, UNDEFINED_NODE, true));
-        std::queue<NodeID> nodes;
-        nodes.push(s);
-        nodes.push(t);
-        parents[s] = std::make_tuple(s, s, true);
-        parents[t] = std::make_tuple(t, t, true);
+                                               NodeID t) {
+        // DFS from s, every edge that is not on the DFS tree closes a cycle
+        std::vector<NodeID> parent(cactus->n(), UNDEFINED_NODE);
+        std::vector<NodeID> depth(cactus->n(), 0);
+        // cycle of the edge to the parent, UNDEFINED_NODE if it is a bridge
+        std::vector<NodeID> cycle(cactus->n(), UNDEFINED_NODE);
+        std::vector<std::pair<NodeID, EdgeID> > stack;
+        NodeID num_cycles = 0;
+        parent[s] = s;
+        stack.emplace_back(s, cactus->get_first_edge(s));
 
-        while (!nodes.empty()) {
-            NodeID n = nodes.front();
-            nodes.pop();
-            NodeID myRoot = std::get<1>(parents[n]);
-            for (EdgeID e : cactus->edges_of(n)) {
-                auto [tgt, wgt] = cactus->getEdge(n, e);
-                NodeID tgtRoot = std::get<1>(parents[tgt]);
-                if (tgtRoot != UNDEFINED_NODE && tgtRoot != myRoot) {
-                    // found path!
-                    std::unordered_set<NodeID> pathST;
-                    pathST.insert(tgt);
-                    pathST.insert(n);
-                    NodeID nToS = myRoot == s ? n : tgt;
-                    bool onTree = std::get<2>(parents[n]);
-                    while (nToS != s) {
-                        nToS = std::get<0>(parents[nToS]);
-                        if (onTree || std::get<2>(parents[nToS]))
-                            pathST.insert(nToS);
-                        onTree = std::get<2>(parents[nToS]);
-                    }
-                    NodeID tgtToT = myRoot == s ? tgt : n;
-                    onTree = std::get<2>(parents[tgt]);
-                    while (tgtToT != t) {
-                        tgtToT = std::get<0>(parents[tgtToT]);
-                        if (onTree || std::get<2>(parents[tgtToT]))
-                            pathST.insert(tgtToT);
-                        onTree = std::get<2>(parents[tgtToT]);
-                    }
-                    return pathST;
-                }
+        while (!stack.empty()) {
+            NodeID n = stack.back().first;
+            EdgeID e = stack.back().second++;
+            if (e >= cactus->get_first_invalid_edge(n)) {
+                stack.pop_back();
+                continue;
+            }
 
-                if (tgtRoot == UNDEFINED_NODE) {
-                    parents[tgt] = std::make_tuple(n, myRoot, wgt == mincut);
-                    nodes.push(tgt);
+            NodeID tgt = cactus->getEdgeTarget(n, e);
+            if (parent[tgt] == UNDEFINED_NODE) {
+                parent[tgt] = n;
+                depth[tgt] = depth[n] + 1;
+                stack.emplace_back(tgt, cactus->get_first_edge(tgt));
+            } else if (tgt != parent[n] && depth[tgt] < depth[n]) {
+                for (NodeID v = n; v != tgt; v = parent[v]) {
+                    cycle[v] = num_cycles;
                 }
+                num_cycles++;
             }
         }
 
-        LOG1 << "Error: didn't find path!";
-        return std::unordered_set<NodeID> { };
+        if (parent[t] == UNDEFINED_NODE) {
+            LOG1 << "Error: didn't find path!";
+            return std::unordered_set<NodeID> { };
+        }
+
+        std::unordered_set<NodeID> pathST = { s, t };
+        for (NodeID v = t; parent[v] != s; v = parent[v]) {
+            NodeID p = parent[v];
+            if (cycle[v] == UNDEFINED_NODE || cycle[v] != cycle[p]) {
+                pathST.insert(p);
+            }
+        }
+        return pathST;
     }
 };
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..9d3d0c2 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -109,7 +109,7 @@ class dynamic_mincut {
                 }
             } else {
                 auto vtxset = cactus_path::findPath(out_cactus, sCactusPos,
-                                                    tCactusPos, current_cut);
+                                                    tCactusPos);
                 if (vtxset.size() == out_cactus->n()) {
                     LOGC(verbose) << "full recompute";
                     checkCacheAndRecompute();
@@ -163,7 +163,7 @@ class dynamic_mincut {
             NodeID tCactusPos = cachedCactus[mincut]->getCurrentPosition(t);
             if (sCactusPos != tCactusPos) {
                 auto vtxset = cactus_path::findPath(
-                    cachedCactus[mincut], sCactusPos, tCactusPos, current_cut);
+                    cachedCactus[mincut], sCactusPos, tCactusPos);
                 if (vtxset.size() == cachedCactus[mincut]->n()) {
                     auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
                     callsOfStaticAlgorithm++;
-- 
2.43.0


From 613cd199bec74944ed9e7ab68e1385a8c7569bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 15/71] fix: keep cached insertions when a cached cactus is
 replaced

---
 .../global_mincut/dynamic/dynamic_mincut.h       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 9d3d0c2..f51a5f3 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -330,7 +330,6 @@ class dynamic_mincut {
     }
 
     void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
-        numCachedMincuts++;
         if (cactusCut < lowestCachedMincut) {
             lowestCachedMincut = cactusCut;
         }
@@ -341,6 +340,21 @@ class dynamic_mincut {
             currentlyCaching.resize(cactusCut + 1, false);
         }
 
+        if (currentlyCaching[cactusCut]) {
+            // replaces an older cactus of the same cut value. Its list of
+            // insertions is still needed by the next larger cached cut
+            for (size_t i = cactusCut + 1; i < currentlyCaching.size(); ++i) {
+                if (currentlyCaching[i]) {
+                    cachedInserts[i].insert(cachedInserts[i].end(),
+                                            cachedInserts[cactusCut].begin(),
+                                            cachedInserts[cactusCut].end());
+                    break;
+                }
+            }
+        } else {
+            numCachedMincuts++;
+        }
+
         cachedCactus[cactusCut] = cactusToCache;
         cachedInserts[cactusCut].clear();
         currentlyCaching[cactusCut] = true;
-- 
2.43.0


From 3e12dd85798a2ec69505629911f9229ba74b6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 16/71] fix: initial distance labels of limited push-relabel
 stay within the label range

---
 lib/algorithms/flow/push_relabel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index eb6a41a..120d0c0 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -84,7 +84,7 @@ class push_relabel {
         size_t depthPR = configuration::getConfig()->depthOfPartialRelabeling;
 
         if constexpr (limited && initial) {
-            size_t fillValue = depthPR + 1;
+            size_t fillValue = std::min<size_t>(depthPR + 1, m_G->n());
             std::fill(m_distance.begin(), m_distance.end(), fillValue);
             m_count[0] = 0;
             m_count[fillValue] = m_G->n() - 1;
-- 
2.43.0


From 4b2fe7d13085b280b177274bd734230ac03bcf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 17/71] fix: concurrent union-find links roots with one
 compare-and-swap on parent and rank

Checking and changing parent and rank separately, and overwriting the rank of
the linked root, lost unions and formed cycles under contention.
---
 lib/parallel/data_structure/union_find.h | 71 ++++++++++++++----------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..8284b58 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <utility>
 #include <vector>
 
@@ -22,10 +23,9 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
-        for (unsigned i = 0; i < m_parent.size(); i++) {
-            m_parent[i] = i;
-            m_rank[i] = 0;
+    explicit union_find(unsigned n) : m_node(n) {
+        for (unsigned i = 0; i < m_node.size(); i++) {
+            m_node[i] = pack(i, 0);
         }
     }
 
@@ -42,15 +42,15 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
+            r_lhs = rank(lhs);
+            r_rhs = rank(rhs);
 
             if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
                 std::swap(lhs, rhs);
                 std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
+            if (UpdateRoot(lhs, r_lhs, rhs, r_lhs))
                 break;
         }
 
@@ -67,27 +67,32 @@ class union_find {
             y = Find(y);
             if (x == y)
                 return true;
-            if (m_parent[x] == x) {
+            if (parent(x) == x) {
                 return false;
             }
         }
     }
 
     inline unsigned Find(unsigned element) {
-        while (m_parent[element] != element) {
-            unsigned next = m_parent[element];
+        while (true) {
+            uint64_t node = load(element);
+            unsigned next = static_cast<unsigned>(node);
+            if (next == element) {
+                break;
+            }
             // CAS path halving
-            __sync_bool_compare_and_swap(&m_parent[element], next,
-                                         m_parent[next]);
-            element = m_parent[next];
+            unsigned grandparent = parent(next);
+            __sync_bool_compare_and_swap(
+                &m_node[element], node, pack(grandparent, node >> 32));
+            element = grandparent;
         }
         return element;
     }
 
     inline unsigned n() {
-        std::vector<bool> found(m_parent.size(), false);
+        std::vector<bool> found(m_node.size(), false);
         unsigned n = 0;
-        for (auto& e : m_parent) {
+        for (unsigned e = 0; e < m_node.size(); ++e) {
             if (!found[Find(e)]) {
                 ++n;
                 found[Find(e)] = true;
@@ -97,22 +102,30 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
+    // parent and rank of an element are kept in one word, as both need to be
+    // checked and changed at once: linking a root whose rank was changed by
+    // another thread can lose unions or form cycles
+    static inline uint64_t pack(unsigned parent, uint64_t rank) {
+        return (rank << 32) | parent;
+    }
 
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
+    inline uint64_t load(unsigned x) const {
+        return __atomic_load_n(&m_node[x], __ATOMIC_ACQUIRE);
+    }
 
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
+    inline unsigned parent(unsigned x) const {
+        return static_cast<unsigned>(load(x));
+    }
+
+    inline unsigned rank(unsigned x) const {
+        return static_cast<unsigned>(load(x) >> 32);
+    }
+
+    // x is a root of rank xr: set its parent to y and its rank to yr
+    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
+        return __sync_bool_compare_and_swap(
+            &m_node[x], pack(x, xr), pack(y, yr));
     }
 
-    std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
+    std::vector<uint64_t> m_node;
 };
-- 
2.43.0


From 7d958adcd37a12eb57362f555d1527dfa183f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 18/71] fix: serialised graphs with more vertices than arcs and
 with contracted originals

Vertex markers collided with edge targets if there are at least as many vertices
as arcs; positions beyond the original vertices overran the buffer; positions of
deleted vertices were out of range when reading.
---
 lib/data_structure/mutable_graph.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 43de1eb..f3d1320 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -861,13 +861,15 @@ class mutable_graph {
         G->setOriginalNodes(original_nodes);
         size_t n = 0;
         size_t deserial = 4;
+        // values starting from here mark a vertex and can not be a target
+        const uint64_t marker = std::max<uint64_t>(num_nodes, num_edges);
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= marker) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - marker;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -882,7 +884,9 @@ class mutable_graph {
         for (size_t i = 0; i < original_nodes; ++i) {
             NodeID pos = static_cast<NodeID>(v[deserial++]);
             G->setCurrentPosition(i, pos);
-            G->addContainedVertex(pos, i);
+            if (pos < num_nodes) {
+                G->addContainedVertex(pos, i);
+            }
         }
 
         G->finish_construction();
@@ -897,9 +901,10 @@ class mutable_graph {
         serial[2] = static_cast<uint64_t>(partition_count);
         serial[3] = static_cast<uint64_t>(original_nodes);
         size_t next = 4;
+        const uint64_t marker = std::max<uint64_t>(vertices.size(), num_edges);
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            serial[next++] = marker + n;
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
@@ -920,8 +925,8 @@ class mutable_graph {
             serial[next++] = static_cast<uint64_t>(p);
         }
 
-        for (const auto& c : current_position) {
-            serial[next++] = static_cast<uint64_t>(c);
+        for (NodeID o = 0; o < original_nodes; ++o) {
+            serial[next++] = static_cast<uint64_t>(current_position[o]);
         }
 
         return serial;
-- 
2.43.0


From b97634dd0cb91147d6f87f2b72cf7e5cf72a1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 19/71] fix: find all minimum cuts of graphs with parallel
 edges

The reductions and contractions of the all-minimum-cut algorithms expect
simple graphs. Inserting an edge that already exists in the dynamic
algorithm, or parallel edges in the input, resulted in wrong cacti and
out-of-bounds accesses. Merge parallel edges in an additional level first.
---
 .../global_mincut/cactus/cactus_mincut.h      |  1 +
 .../global_mincut/minimum_cut_helpers.h       | 41 +++++++++++++++++++
 lib/parallel/algorithm/parallel_cactus.h      |  1 +
 3 files changed, 43 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 1fc8660..db869a1 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -87,6 +87,7 @@ class cactus_mincut : public minimum_cut {
         std::vector<size_t> ge_ids;
 
         minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
+        minimum_cut_helpers<GraphPtr>::mergeParallelEdges(&graphs);
 
         NodeID previous_size = UNDEFINED_NODE;
         while (graphs.back()->number_of_nodes() * 1.01 < previous_size) {
diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index f1e8615..3ed9418 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -85,6 +85,47 @@ class minimum_cut_helpers {
         }
     }
 
+    // The reductions and contractions used to find all minimum cuts expect
+    // that there is at most one edge between each pair of vertices. If this is
+    // not the case, continue with a copy in which parallel edges are merged.
+    static void mergeParallelEdges(std::vector<GraphPtr>* levels) {
+        GraphPtr G = levels->back();
+        std::vector<NodeID> seen_from(G->number_of_nodes(), UNDEFINED_NODE);
+        bool parallel_edges = false;
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                NodeID t = G->getEdgeTarget(n, e);
+                parallel_edges |= (seen_from[t] == n);
+                seen_from[t] = n;
+            }
+        }
+        if (!parallel_edges)
+            return;
+
+        auto merged = std::make_shared<typename GraphPtr::element_type>();
+        merged->start_construction(G->number_of_nodes(), G->number_of_edges());
+        std::vector<EdgeWeight> weights(G->number_of_nodes(), 0);
+        for (NodeID n : G->nodes()) {
+            merged->new_node();
+            G->setPartitionIndex(n, n);
+            std::vector<NodeID> targets;
+            for (EdgeID e : G->edges_of(n)) {
+                auto [t, wgt] = G->getEdge(n, e);
+                if (wgt == 0)
+                    continue;
+                if (weights[t] == 0)
+                    targets.emplace_back(t);
+                weights[t] += wgt;
+            }
+            for (NodeID t : targets) {
+                merged->new_edge(n, t, weights[t]);
+                weights[t] = 0;
+            }
+        }
+        merged->finish_construction();
+        levels->emplace_back(merged);
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index e315394..314b081 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -105,6 +105,7 @@ class parallel_cactus : public minimum_cut {
 #ifndef PARALLEL
         minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
 #endif
+        minimum_cut_helpers<GraphPtr>::mergeParallelEdges(&graphs);
 
         NodeID previous_size = UNDEFINED_NODE;
         bool disable_blacklist = false;
-- 
2.43.0


From da12fcef95bc6a72d0661a14bcbc1f5570890e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 20/71] fix: all-cuts degree test joined vertices across
 minimum cuts

The degree of contracted blocks was overestimated, as there may be more edges
between two blocks than the one that is contracted. Thus, blocks whose cut is
a minimum cut could be contracted. Use the degrees of the vertices instead.
---
 .../global_mincut/cactus/all_cut_local_red.h  | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
index f92a43e..9b5f89a 100644
--- a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
+++ b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
@@ -31,7 +31,6 @@ class all_cut_local_red {
                                        EdgeWeight limit) {
         union_find uf(G->number_of_nodes());
         std::vector<EdgeWeight> degrees;
-        std::vector<bool> contracted(G->number_of_nodes(), false);
 
         for (NodeID n : G->nodes()) {
             degrees.push_back(G->getWeightedNodeDegree(n));
@@ -39,22 +38,18 @@ class all_cut_local_red {
 
         for (NodeID n : G->nodes()) {
             for (EdgeID e : G->edges_of(n)) {
-                NodeID target = uf.Find(G->getEdgeTarget(n, e));
-                NodeID source = uf.Find(n);
+                NodeID target = G->getEdgeTarget(n, e);
                 EdgeWeight wgt = G->getEdgeWeight(n, e);
 
-                if (target != source
-                    && (wgt > limit
-                        || 2 * wgt > degrees[source]
-                        || 2 * wgt > degrees[target])
-                    && degrees[source] > limit
+                // use the degrees of the vertices, as the degree of a block of
+                // contracted vertices is not known: there may be more edges
+                // between two blocks than the ones that were contracted
+                if ((wgt > limit
+                     || 2 * wgt > degrees[n]
+                     || 2 * wgt > degrees[target])
+                    && degrees[n] > limit
                     && degrees[target] > limit) {
-                    EdgeWeight new_w =
-                        degrees[source] + degrees[target] - (2 * wgt);
-
-                    degrees[source] = new_w;
-                    degrees[target] = new_w;
-                    uf.Union(source, target);
+                    uf.Union(n, target);
                 }
             }
         }
-- 
2.43.0


From 239ba4d761e66168948a1bc3f361eca26148b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 21/71] fix: contraction::contractEdge returned stale terminals
 without save_cut

---
 lib/coarsening/contract_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 46bd395..a109edf 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -63,7 +63,8 @@ class contraction {
         union_find uf(G->number_of_nodes());
         uf.Union(src, tgt);
 
-        auto G_out = contraction::fromUnionFind(G, &uf);
+        // copy, as this sets the partition indices that we use below
+        auto G_out = contraction::fromUnionFind(G, &uf, true);
         std::vector<NodeID> terminals_out;
         for (NodeID t : terminals) {
             terminals_out.emplace_back(G->getPartitionIndex(t));
-- 
2.43.0


From 6ae310f51dcac0492c2d640f4844148ae0fc7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 22/71] fix: sparsify::remove_heavy_vertices dropped edge
 weights

---
 lib/coarsening/sparsify.h          | 3 ++-
 lib/parallel/coarsening/sparsify.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index ca6af7f..db16208 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -204,7 +204,8 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        G_out->new_edge(pre, pretgt,
+                                        G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 124226c..b6e80d1 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -446,7 +446,8 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        G_out->new_edge(pre, pretgt,
+                                        G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
-- 
2.43.0


From 89786b62250ad9f6a2fb925e6be1cc1b1def20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 23/71] fix: edge sampling of parallel sparsify

Weighted sampling allocated its buffers for a single worker, raced on the
number of vertices to contract and did not terminate if the edges of a worker
do not suffice. Geometric sampling did not terminate with a contraction factor
of zero and used negative probabilities.
---
 lib/parallel/coarsening/sparsify.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index b6e80d1..21302f0 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -53,9 +53,9 @@ class sparsify {
  public:
     NodeID sample_contractible_weighted(graphAccessPtr G,
                                         union_find* uf) {
-        NodeID n_reduce;
+        std::atomic<NodeID> all_contracted = 0;
         timer t;
-        size_t num_threads = omp_get_num_threads();
+        size_t num_threads = 1;
         std::vector<std::vector<EdgeWeight> > prefixsum;
 
         std::vector<EdgeWeight> processor_prefixes;
@@ -63,6 +63,7 @@ class sparsify {
 #pragma omp parallel
         {
             if (!omp_get_thread_num()) {
+                num_threads = omp_get_num_threads();
                 prefixsum.resize(num_threads);
                 processor_prefixes.resize(num_threads);
             }
@@ -77,7 +78,8 @@ class sparsify {
             auto id = omp_get_thread_num();
             prefixsum[id].reserve(per_thread);
 
-            EdgeID my_start = id * per_thread;
+            EdgeID my_start = std::min(id * per_thread,
+                                       G->number_of_edges());
             EdgeID my_end = std::min((id + 1) * per_thread,
                                      G->number_of_edges());
 
@@ -99,7 +101,7 @@ class sparsify {
             }
 
             double factor = configuration::getConfig()->contraction_factor;
-            n_reduce = std::min(static_cast<NodeID>(
+            NodeID n_reduce = std::min(static_cast<NodeID>(
                                     static_cast<double>(G->number_of_nodes())
                                     * factor),
                                 G->number_of_nodes() - 2);
@@ -108,7 +110,11 @@ class sparsify {
             n_reduce /= num_threads;
 
 #pragma omp barrier
-            while (contracted < n_reduce) {
+            // not all vertices can be contracted using the edges of this
+            // worker, so limit the number of tries
+            size_t max_tries = (wgt > 0) ? 10 * n_reduce : 0;
+            for (size_t tries = 0;
+                 contracted < n_reduce && tries < max_tries; ++tries) {
                 auto random = m_mt();
                 EdgeWeight e_rand = (random % processor_prefixes[id])
                                     + my_prefix;
@@ -130,9 +136,10 @@ class sparsify {
                     }
                 }
             }
+            all_contracted += contracted;
         }
 
-        return G->number_of_nodes() - n_reduce * num_threads;
+        return G->number_of_nodes() - all_contracted;
     }
 
     NodeID sample_contractible_separate(graphAccessPtr G,
@@ -186,7 +193,10 @@ class sparsify {
             double prob =
                 samples / (m * configuration::getConfig()->threads - samples);
 
-            if (prob > 1) {
+            if (samples <= 0) {
+                // nothing to contract
+                prob = 0;
+            } else if (!(prob > 0 && prob < 1)) {
                 LOG1 << "WARNING: Edge Sampling Probability larger than 1.";
                 LOG1 << "Setting it to a valid value of 0.5.";
                 prob = 0.5;
@@ -194,10 +204,11 @@ class sparsify {
 
             std::default_random_engine generator(
                 configuration::getConfig()->seed + omp_get_thread_num());
-            std::geometric_distribution<EdgeID> distribution(prob);
+            std::geometric_distribution<EdgeID> distribution(
+                prob > 0 ? prob : 0.5);
 
             EdgeID prev = 0;
-            EdgeID e = prev;
+            EdgeID e = (prob > 0) ? prev : G->number_of_edges();
             NodeID src = 0;
             while (e < G->number_of_edges()) {
                 while (e >= G->get_first_edge(src + 1)) {
-- 
2.43.0


From 98979a7e82e57dd3928536393222401ca69c1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 24/71] fix: sparsify::random_matching with isolated vertices
 and already assigned neighbors

---
 lib/coarsening/sparsify.h          | 7 +++++--
 lib/parallel/coarsening/sparsify.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index db16208..f0d0408 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -64,7 +64,9 @@ class sparsify {
 
         for (NodeID n : G_in->nodes()) {
             if (edge_matching[n] == n) {
-                size_t no_try = 0;
+                // vertices without neighbors can not be matched
+                size_t no_try =
+                    (G_in->getUnweightedNodeDegree(n) > 0) ? 0 : MAX_TRIES;
                 NodeID matchingPartner = n;
                 while (no_try < MAX_TRIES) {
                     // match with a random neighbor
@@ -72,7 +74,8 @@ class sparsify {
                     EdgeID modulo = G_in->getUnweightedNodeDegree(n);
                     EdgeID r = s + (random_functions::next() % modulo);
                     NodeID tgt = G_in->getEdgeTarget(r);
-                    if (edge_matching[tgt] == tgt) {
+                    // smaller vertices are already assigned, matched or not
+                    if (tgt > n && edge_matching[tgt] == tgt) {
                         matchingPartner = tgt;
                         break;
                     }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 21302f0..c8e6e77 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -306,7 +306,9 @@ class sparsify {
 
         for (NodeID n : G_in->nodes()) {
             if (edge_matching[n] == n) {
-                size_t no_try = 0;
+                // vertices without neighbors can not be matched
+                size_t no_try =
+                    (G_in->getUnweightedNodeDegree(n) > 0) ? 0 : MAX_TRIES;
                 NodeID matchingPartner = n;
                 while (no_try < MAX_TRIES) {
                     // match with a random neighbor
@@ -316,7 +318,8 @@ class sparsify {
 
                     NodeID tgt = G_in->getEdgeTarget(r);
 
-                    if (edge_matching[tgt] == tgt) {
+                    // smaller vertices are already assigned, matched or not
+                    if (tgt > n && edge_matching[tgt] == tgt) {
                         matchingPartner = tgt;
                         break;
                     }
-- 
2.43.0


From 1d3baea817db5760529da92477a6e00d3dec4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 25/71] fix: readers accept any whitespace between numbers and
 do not read past the end of a line

---
 lib/io/graph_io.h | 777 +++++++++++++++++++++++-----------------------
 1 file changed, 394 insertions(+), 383 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..cf5335c 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -1,383 +1,394 @@
-/******************************************************************************
- * graph_io.h
- *
- * Source of VieCut.
- *
- * Adapted from KaHIP.
- *
- ******************************************************************************
- * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
- * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
- *
- * Published under the MIT license in the LICENSE file.
- *****************************************************************************/
-
-#pragma once
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#include <algorithm>
-#include <fstream>
-#include <iostream>
-#include <limits>
-#include <memory>
-#include <ostream>
-#include <string>
-#include <tuple>
-#include <utility>
-#include <vector>
-
-#include "common/definitions.h"
-#include "data_structure/flow_graph.h"
-#include "data_structure/graph_access.h"
-#include "tools/string.h"
-
-class graph_io {
- public:
-    graph_io() { }
-
-    virtual ~graph_io() { }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readDimacs(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        std::getline(instream, line);
-        size_t line_ptr = 2;
-        NodeID numV = fast_atoi(line, &line_ptr);
-
-        uint64_t counter = 1;
-        while (std::getline(instream, line)) {
-            line_ptr = 2;
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            if (target > source) {
-                edges.emplace_back(source, target, 1, counter++);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-        return std::make_pair(numV, edges);
-    }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readTemporalGraph(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        NodeID numVtxs = 0;
-
-        while (std::getline(instream, line)) {
-            if (line[0] == 'p') {
-                return readDimacs(file);
-            }
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            int64_t wgt;
-            uint64_t timestamp;
-
-            // remove additional whitespaces inbetween
-            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
-                ++line_ptr;
-
-            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
-                bool isNegative = line[line_ptr] == '-';
-                line_ptr++;
-                wgt = fast_atoi(line, &line_ptr);
-                if (isNegative) {
-                    wgt = (-1) * wgt;
-                }
-                timestamp = fast_atoi(line, &line_ptr);
-            } else {
-                wgt = 1;
-                timestamp = fast_atoi(line, &line_ptr);
-                if (line_ptr < line.size()) {
-                    wgt = timestamp;
-                    timestamp = fast_atoi(line, &line_ptr);
-                }
-            }
-
-            edges.emplace_back(source, target, wgt, timestamp);
-
-            NodeID largerVtx = std::max(source, target);
-            if (largerVtx >= numVtxs) {
-                numVtxs = largerVtx + 1;
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
-
-        return std::pair(numVtxs, edges);
-    }
-
-    template <class Graph = graph_access>
-    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
-        std::shared_ptr<Graph> G = std::make_shared<Graph>();
-        std::string line;
-        // open file for reading
-        std::ifstream instream(file.c_str());
-        if (!instream) {
-            std::cerr << "Error opening " << file << std::endl;
-            exit(2);
-        }
-
-        uint64_t nmbNodes;
-        uint64_t nmbEdges;
-
-        std::getline(instream, line);
-        // skip comments
-        while (line[0] == '%') {
-            std::getline(instream, line);
-        }
-
-        int ew = 0;
-        std::stringstream ss(line);
-        ss >> nmbNodes;
-        ss >> nmbEdges;
-        ss >> ew;
-
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
-        }
-        nmbEdges *= 2;  // since we have forward and backward edges
-
-        NodeID node_counter = 0;
-        EdgeID edge_counter = 0;
-
-        G->start_construction(nmbNodes, nmbEdges);
-
-        while (std::getline(instream, line)) {
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            NodeID node = G->new_node();
-            node_counter++;
-            G->setPartitionIndex(node, 0);
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            while (line_ptr < line.size()) {
-                NodeID target = fast_atoi(line, &line_ptr);
-                if (!target) break;
-                // check for self-loops
-                if (target - 1 == node) {
-                    LOG0 << "The graph file contains self-loops. "
-                         << "This is not supported. "
-                         << "Please remove them from the file.";
-                    continue;
-                }
-
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
-                edge_counter++;
-                G->new_edge(node, target - 1, edge_weight);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        if (edge_counter != (EdgeID)nmbEdges) {
-            std::cerr << "number of specified edges mismatch" << std::endl;
-            std::cerr << edge_counter << " " << nmbEdges << std::endl;
-            // As we discard self-loops, this might happen. Thus, no exiting!
-            // Node counter not matching is however probably a problem with G.
-        }
-
-        if (node_counter != (NodeID)nmbNodes) {
-            std::cerr << "number of specified nodes mismatch" << std::endl;
-            std::cerr << node_counter << " " << nmbNodes << std::endl;
-            exit(4);
-        }
-
-        G->finish_construction();
-        G->computeDegrees();
-        return G;
-    }
-
-    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
-        return writeGraphWeighted(G->to_graph_access(), filename);
-    }
-
-    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 1" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " "
-                  << G->getEdgeWeight(e) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraph(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 0" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraphDimacsKS(graphAccessPtr G,
-                           std::string filename,
-                           std::string format = "FORMAT") {
-        std::ofstream f(filename.c_str());
-        f << "p " << format << " " << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                if (G->getEdgeTarget(e) > node) {
-                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
-                      << " " << G->getEdgeWeight(e) << std::endl;
-                }
-            }
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static void writeCut(graphAccessPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static void writeCut(mutableGraphPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static std::shared_ptr<flow_graph> createFlowGraph(
-        graphAccessPtr G) {
-        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
-        fg->start_construction(G->number_of_nodes());
-
-        for (NodeID n : G->nodes()) {
-            for (EdgeID e : G->edges_of(n)) {
-                NodeID tgt = G->getEdgeTarget(e);
-                fg->new_edge(n, tgt, G->getEdgeWeight(e));
-            }
-        }
-
-        fg->finish_construction();
-
-        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
-        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
-
-        return fg;
-    }
-
-    template <typename vectortype>
-    static std::vector<vectortype> readVector(std::string filename) {
-        std::vector<vectortype> vec;
-        std::string line;
-        // open file for reading
-        std::ifstream instream(filename.c_str());
-        if (!instream) {
-            std::cerr << "Error opening vectorfile" << filename << std::endl;
-            exit(5);
-        }
-
-        std::getline(instream, line);
-        while (!instream.eof()) {
-            if (line[0] == '%') {         // Comment
-                continue;
-            }
-
-            vectortype value = (vectortype)atof(line.c_str());
-            vec.emplace_back(value);
-            std::getline(instream, line);
-        }
-
-        instream.close();
-        return vec;
-    }
-
-    template <typename vectortype>
-    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
-        std::ofstream f(filename.c_str());
-        for (unsigned i = 0; i < vec.size(); ++i) {
-            f << vec[i] << std::endl;
-        }
-        f.close();
-    }
-
- private:
-// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
-    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
-        uint64_t x = 0;
-
-        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
-            x = (x * 10) + (str[*line_ptr] - '0');
-            ++(*line_ptr);
-        }
-        ++(*line_ptr);
-        return x;
-    }
-};
+/******************************************************************************
+ * graph_io.h
+ *
+ * Source of VieCut.
+ *
+ * Adapted from KaHIP.
+ *
+ ******************************************************************************
+ * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
+ * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
+ *
+ * Published under the MIT license in the LICENSE file.
+ *****************************************************************************/
+
+#pragma once
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#include <algorithm>
+#include <fstream>
+#include <iostream>
+#include <limits>
+#include <memory>
+#include <ostream>
+#include <string>
+#include <tuple>
+#include <utility>
+#include <vector>
+
+#include "common/definitions.h"
+#include "data_structure/flow_graph.h"
+#include "data_structure/graph_access.h"
+#include "tools/string.h"
+
+class graph_io {
+ public:
+    graph_io() { }
+
+    virtual ~graph_io() { }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readDimacs(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        std::getline(instream, line);
+        size_t line_ptr = 2;
+        NodeID numV = fast_atoi(line, &line_ptr);
+
+        uint64_t counter = 1;
+        while (std::getline(instream, line)) {
+            line_ptr = 2;
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            if (target > source) {
+                edges.emplace_back(source, target, 1, counter++);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+        return std::make_pair(numV, edges);
+    }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readTemporalGraph(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        NodeID numVtxs = 0;
+
+        while (std::getline(instream, line)) {
+            if (line[0] == 'p') {
+                return readDimacs(file);
+            }
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            skipWhitespace(line, &line_ptr);
+
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            int64_t wgt;
+            uint64_t timestamp;
+
+            // remove additional whitespaces inbetween
+            skipWhitespace(line, &line_ptr);
+
+            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
+                bool isNegative = line[line_ptr] == '-';
+                line_ptr++;
+                wgt = fast_atoi(line, &line_ptr);
+                if (isNegative) {
+                    wgt = (-1) * wgt;
+                }
+                timestamp = fast_atoi(line, &line_ptr);
+            } else {
+                wgt = 1;
+                timestamp = fast_atoi(line, &line_ptr);
+                if (line_ptr < line.size()) {
+                    wgt = timestamp;
+                    timestamp = fast_atoi(line, &line_ptr);
+                }
+            }
+
+            edges.emplace_back(source, target, wgt, timestamp);
+
+            NodeID largerVtx = std::max(source, target);
+            if (largerVtx >= numVtxs) {
+                numVtxs = largerVtx + 1;
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        std::sort(edges.begin(), edges.end(),
+                  [](const auto& e1, const auto& e2) {
+                      return std::get<3>(e1) < std::get<3>(e2);
+                  });
+
+        return std::pair(numVtxs, edges);
+    }
+
+    template <class Graph = graph_access>
+    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
+        std::shared_ptr<Graph> G = std::make_shared<Graph>();
+        std::string line;
+        // open file for reading
+        std::ifstream instream(file.c_str());
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
+
+        uint64_t nmbNodes;
+        uint64_t nmbEdges;
+
+        std::getline(instream, line);
+        // skip comments
+        while (line[0] == '%') {
+            std::getline(instream, line);
+        }
+
+        int ew = 0;
+        std::stringstream ss(line);
+        ss >> nmbNodes;
+        ss >> nmbEdges;
+        ss >> ew;
+
+        bool read_ew = false;
+
+        if (ew == 1) {
+            read_ew = true;
+        } else if (ew == 11) {
+            read_ew = true;
+        }
+        nmbEdges *= 2;  // since we have forward and backward edges
+
+        NodeID node_counter = 0;
+        EdgeID edge_counter = 0;
+
+        G->start_construction(nmbNodes, nmbEdges);
+
+        while (std::getline(instream, line)) {
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            NodeID node = G->new_node();
+            node_counter++;
+            G->setPartitionIndex(node, 0);
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            skipWhitespace(line, &line_ptr);
+
+            while (line_ptr < line.size()) {
+                NodeID target = fast_atoi(line, &line_ptr);
+                if (!target) break;
+                // check for self-loops
+                if (target - 1 == node) {
+                    LOG0 << "The graph file contains self-loops. "
+                         << "This is not supported. "
+                         << "Please remove them from the file.";
+                    continue;
+                }
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
+                edge_counter++;
+                G->new_edge(node, target - 1, edge_weight);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        if (edge_counter != (EdgeID)nmbEdges) {
+            std::cerr << "number of specified edges mismatch" << std::endl;
+            std::cerr << edge_counter << " " << nmbEdges << std::endl;
+            // As we discard self-loops, this might happen. Thus, no exiting!
+            // Node counter not matching is however probably a problem with G.
+        }
+
+        if (node_counter != (NodeID)nmbNodes) {
+            std::cerr << "number of specified nodes mismatch" << std::endl;
+            std::cerr << node_counter << " " << nmbNodes << std::endl;
+            exit(4);
+        }
+
+        G->finish_construction();
+        G->computeDegrees();
+        return G;
+    }
+
+    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
+        return writeGraphWeighted(G->to_graph_access(), filename);
+    }
+
+    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 1" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " "
+                  << G->getEdgeWeight(e) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraph(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 0" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraphDimacsKS(graphAccessPtr G,
+                           std::string filename,
+                           std::string format = "FORMAT") {
+        std::ofstream f(filename.c_str());
+        f << "p " << format << " " << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                if (G->getEdgeTarget(e) > node) {
+                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
+                      << " " << G->getEdgeWeight(e) << std::endl;
+                }
+            }
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static void writeCut(graphAccessPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static void writeCut(mutableGraphPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static std::shared_ptr<flow_graph> createFlowGraph(
+        graphAccessPtr G) {
+        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
+        fg->start_construction(G->number_of_nodes());
+
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                NodeID tgt = G->getEdgeTarget(e);
+                fg->new_edge(n, tgt, G->getEdgeWeight(e));
+            }
+        }
+
+        fg->finish_construction();
+
+        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
+        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
+
+        return fg;
+    }
+
+    template <typename vectortype>
+    static std::vector<vectortype> readVector(std::string filename) {
+        std::vector<vectortype> vec;
+        std::string line;
+        // open file for reading
+        std::ifstream instream(filename.c_str());
+        if (!instream) {
+            std::cerr << "Error opening vectorfile" << filename << std::endl;
+            exit(5);
+        }
+
+        std::getline(instream, line);
+        while (!instream.eof()) {
+            if (line[0] == '%') {         // Comment
+                continue;
+            }
+
+            vectortype value = (vectortype)atof(line.c_str());
+            vec.emplace_back(value);
+            std::getline(instream, line);
+        }
+
+        instream.close();
+        return vec;
+    }
+
+    template <typename vectortype>
+    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
+        std::ofstream f(filename.c_str());
+        for (unsigned i = 0; i < vec.size(); ++i) {
+            f << vec[i] << std::endl;
+        }
+        f.close();
+    }
+
+ private:
+// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
+    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
+        uint64_t x = 0;
+
+        skipWhitespace(str, line_ptr);
+        while (*line_ptr < str.size()
+               && str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
+            x = (x * 10) + (str[*line_ptr] - '0');
+            ++(*line_ptr);
+        }
+        // skip one separator and whitespace up to the next number (if any)
+        if (*line_ptr < str.size()) {
+            ++(*line_ptr);
+        }
+        skipWhitespace(str, line_ptr);
+        return x;
+    }
+
+    static void skipWhitespace(const std::string& str, size_t* line_ptr) {
+        while (*line_ptr < str.size()
+               && (str[*line_ptr] == ' ' || str[*line_ptr] == '\t'
+                   || str[*line_ptr] == '\r')) {
+            ++(*line_ptr);
+        }
+    }
+};
-- 
2.43.0


From bfa8ddd8a264cc378ba2ef8947e0e16a19e59aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 26/71] fix: skip the weight of a discarded self-loop

---
 lib/io/graph_io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index cf5335c..6f515eb 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -188,6 +188,12 @@ class graph_io {
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
+
                 // check for self-loops
                 if (target - 1 == node) {
                     LOG0 << "The graph file contains self-loops. "
@@ -196,10 +202,6 @@ class graph_io {
                     continue;
                 }
 
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
                 edge_counter++;
                 G->new_edge(node, target - 1, edge_weight);
             }
-- 
2.43.0


From 3ad8647a0451a6d9b91c7ab59c39b41e1cc9de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 27/71] fix: skip vertex sizes and weights in METIS files

---
 lib/io/graph_io.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 6f515eb..eddeb8a 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -151,18 +151,25 @@ class graph_io {
             std::getline(instream, line);
         }
 
-        int ew = 0;
+        int fmt = 0;
+        size_t num_weights = 1;
         std::stringstream ss(line);
         ss >> nmbNodes;
         ss >> nmbEdges;
-        ss >> ew;
-
-        bool read_ew = false;
+        ss >> fmt;
+        if (!(ss >> num_weights)) {
+            num_weights = 1;
+        }
 
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
+        // fmt consists of three flags: vertex sizes, vertex weights (possibly
+        // multiple per vertex), edge weights. We only use edge weights.
+        const bool read_ew = (fmt % 10 == 1);
+        size_t skip = 0;
+        if (fmt / 10 % 10 == 1) {
+            skip += num_weights;
+        }
+        if (fmt / 100 == 1) {
+            skip += 1;
         }
         nmbEdges *= 2;  // since we have forward and backward edges
 
@@ -185,6 +192,11 @@ class graph_io {
             // remove leading whitespaces
             skipWhitespace(line, &line_ptr);
 
+            // ignore vertex size and weights
+            for (size_t i = 0; i < skip; ++i) {
+                fast_atoi(line, &line_ptr);
+            }
+
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
-- 
2.43.0


From 877f61be5902aba174ba367da2a06bb7c9ead3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 28/71] fix: readVector terminates on comments and reads a last
 line without newline

---
 lib/io/graph_io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index eddeb8a..ef051c3 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -355,15 +355,13 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
+        while (std::getline(instream, line)) {
             if (line[0] == '%') {         // Comment
                 continue;
             }
 
             vectortype value = (vectortype)atof(line.c_str());
             vec.emplace_back(value);
-            std::getline(instream, line);
         }
 
         instream.close();
-- 
2.43.0


From 3cafe5553fde6e1ca29a0eb5d5947d8809fb88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 29/71] fix: temporal updates of equal time keep their order

---
 lib/io/graph_io.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index ef051c3..a5c4859 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -123,10 +123,11 @@ class graph_io {
             }
         }
 
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
+        // updates with equal timestamps stay in the order of the file
+        std::stable_sort(edges.begin(), edges.end(),
+                         [](const auto& e1, const auto& e2) {
+                             return std::get<3>(e1) < std::get<3>(e2);
+                         });
 
         return std::pair(numVtxs, edges);
     }
-- 
2.43.0


From afbb50e10ce1965a536635f8f2437d5240c78900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 30/71] fix: extract core graphs of weighted graphs

---
 lib/algorithms/misc/core_decomposition.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/misc/core_decomposition.h b/lib/algorithms/misc/core_decomposition.h
index 2bb0e7f..b8bb4fe 100644
--- a/lib/algorithms/misc/core_decomposition.h
+++ b/lib/algorithms/misc/core_decomposition.h
@@ -13,6 +13,7 @@
 
 #include <stdlib.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <memory>
 #include <vector>
@@ -134,8 +135,15 @@ class core_decomposition {
 
         core_graph->finish_construction();
 
-        if (core_graph->getMinDegree() != min_degree) {
-            LOG1 << "ERROR: Wrong min degree " << core_graph->getMinDegree()
+        // cores are defined on the unweighted degree
+        size_t core_min_degree = core_graph->getUnweightedNodeDegree(0);
+        for (NodeID n : core_graph->nodes()) {
+            core_min_degree = std::min<size_t>(
+                core_min_degree, core_graph->getUnweightedNodeDegree(n));
+        }
+
+        if (core_min_degree != min_degree) {
+            LOG1 << "ERROR: Wrong min degree " << core_min_degree
                  << " instead of " << min_degree;
             exit(1);
         }
-- 
2.43.0


From 2d11cf42d02920eaf55d0d671a7428391c863801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 31/71] fix: component sizes of repeated strong_components
 calls

---
 lib/algorithms/misc/strongly_connected_components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/misc/strongly_connected_components.h b/lib/algorithms/misc/strongly_connected_components.h
index 39d7096..eb94199 100644
--- a/lib/algorithms/misc/strongly_connected_components.h
+++ b/lib/algorithms/misc/strongly_connected_components.h
@@ -36,6 +36,7 @@ class strongly_connected_components {
         m_comp_num.resize(G->number_of_nodes());
         m_dfscount = 0;
         m_comp_count = 0;
+        m_blocksizes.clear();
         m_fpid = fpid;
 
         for (NodeID node : G->nodes()) {
-- 
2.43.0


From 33adcdfbf8819792fbd26118bf07e530842e5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 32/71] fix: flow problems without given id do not share ids
 after reseeding

---
 lib/algorithms/flow/push_relabel.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index 120d0c0..16bce50 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <iostream>
 #include <memory>
 #include <queue>
@@ -40,6 +41,13 @@ class push_relabel {
     virtual ~push_relabel() { }
 
  private:
+    // flow of earlier problems on the same graph is only ignored if every
+    // problem has its own id. Starts above all ids that fit into 32 bits.
+    static size_t nextProblemId() {
+        static std::atomic<size_t> next_id { 1ull << 40 };
+        return next_id++;
+    }
+
     void init(mutableGraphPtr G,
               std::vector<NodeID> sources,
               NodeID source) {
@@ -343,7 +351,7 @@ class push_relabel {
         NodeID curr_source,
         bool compute_source_set,
         FlowType limit = 0,
-        size_t problem_id = random_functions::nextInt(0, UNDEFINED_NODE)) {
+        size_t problem_id = nextProblemId()) {
         t.restart();
         for (NodeID s : sources) {
             if (s >= G->number_of_nodes()) {
-- 
2.43.0


From 5d37b9baa1e67b3ed075d79d904105c96cf77919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 33/71] fix: karger-stein does not follow stale partition
 indices without save_cut

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 3a67781..8fc9ba9 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -241,7 +241,7 @@ class ks_minimum_cut : public minimum_cut {
             mincut_to_return = mc.perform_minimum_cut(G2, true);
         }
 
-        if (!current) {
+        if (!current && configuration::getConfig()->save_cut) {
             // last graph, propagate to top.
             std::vector<size_t> up(2, 0);
             for (NodeID n : G->nodes()) {
-- 
2.43.0


From fb1bbe50a0a3efcde0cb990ba3549d7423ad2e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 34/71] fix: multiterminal cuts heavier than 2^32

---
 lib/algorithms/multicut/mpi_communication.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..c437c72 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -25,7 +25,7 @@ class mpi_communication {
     static const bool debug = false;
 
     mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+                          best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
-- 
2.43.0


From cc7d5e37ba069dafd389f02cb6e6db3e2edf7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 35/71] fix: multiterminal cut problems that cannot improve the
 best solution

---
 lib/algorithms/multicut/branch_multicut.h     |  3 +-
 .../multicut/kernelization_criteria.h         | 31 +++++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..73c1d4c 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -362,7 +362,8 @@ class branch_multicut {
         if (outOfMemory())
             return;
 
-        if (problem->deleted_weight > static_cast<EdgeWeight>(pm.bestCut())) {
+        if (problem->deleted_weight > static_cast<EdgeWeight>(pm.bestCut())
+            || !pm.checkProblem(problem)) {
             return;
         }
 
diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 50c16a1..a5a0f7d 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -79,11 +79,20 @@ class kernelization_criteria {
             if (flow_values.size() >= 2)
                 contr_flow = sum - flow_values[flow_values.size() - 1]
                              - flow_values[flow_values.size() - 2];
+            EdgeWeight certain_weight = problem->deleted_weight
+                                        + tlx::div_ceil(contr_flow, 4);
+            if (certain_weight >= global_upper_bound) {
+                // every solution of this problem has at least this weight
+                return cannotImprove(problem, global_upper_bound);
+            }
             noi_minimum_cut<mutableGraphPtr> noi;
-            EdgeWeight noi_limit = global_upper_bound
-                                   - problem->deleted_weight
-                                   - tlx::div_ceil(contr_flow, 4);
+            EdgeWeight noi_limit = global_upper_bound - certain_weight;
             auto uf_noi = noi.modified_capforest(problem->graph, noi_limit);
+            if (mergesTerminals(&uf_noi, problem)) {
+                // separating these terminals is at least as heavy
+                // as the best known solution
+                return cannotImprove(problem, global_upper_bound);
+            }
             contractIfImproved(&uf_noi, problem, "noi", &active_n);
 
             find_articulation_points find_aps(problem->graph);
@@ -109,6 +118,22 @@ class kernelization_criteria {
     }
 
  private:
+    std::optional<std::pair<NodeID, EdgeID> > cannotImprove(
+        problemPointer problem, size_t global_upper_bound) {
+        problem->lower_bound = std::max(
+            problem->lower_bound, static_cast<FlowType>(global_upper_bound));
+        return std::nullopt;
+    }
+
+    bool mergesTerminals(union_find* uf, problemPointer problem) {
+        std::unordered_set<NodeID> terminal_sets;
+        for (const auto& t : problem->terminals) {
+            if (!terminal_sets.insert(uf->Find(t.position)).second)
+                return true;
+        }
+        return false;
+    }
+
     void contractIfImproved(union_find* uf,
                             problemPointer problem,
                             const std::string& str,
-- 
2.43.0


From 81c68c2352c71c2d1f96a74e4a9284f8e5f50883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 36/71] fix: blocks of solutions in which terminals are
 isolated or contracted

---
 lib/algorithms/multicut/branch_multicut.h    |  1 +
 lib/algorithms/multicut/graph_contraction.h  | 15 +++++++++++++++
 lib/algorithms/multicut/problem_management.h | 13 ++++++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 73c1d4c..59e5d54 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -547,6 +547,7 @@ class branch_multicut {
         graph_contraction::deleteTermEdges(problem, original_terminals);
         if (!problem->graph->number_of_edges()) {
             problem->upper_bound = problem->deleted_weight;
+            graph_contraction::setBlocks(problem, original_terminals, 0);
             auto sol = msm.getSolution(problem);
             updateBestSolution(&sol, problem->terminals.size());
             return;
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index e1354e4..2a57365 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -109,6 +109,21 @@ class graph_contraction {
         setTerminals(mcp, original_terminals);
     }
 
+    // assign each terminal to its own block and all other vertices to 'block'
+    static void setBlocks(problemPointer problem,
+                          const std::vector<NodeID>& original_terminals,
+                          NodeID block) {
+        for (NodeID n : problem->graph->nodes()) {
+            problem->graph->setPartitionIndex(n, block);
+        }
+
+        for (size_t i = 0; i < original_terminals.size(); ++i) {
+            NodeID o = problem->mapped(original_terminals[i]);
+            NodeID node = problem->graph->getCurrentPosition(o);
+            problem->graph->setPartitionIndex(node, i);
+        }
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..11ef823 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -216,9 +216,16 @@ class problem_management {
     std::optional<FlowType> processNewProblem(
         problemPointer new_p, size_t thread_id) {
         size_t numTerminals = new_p->terminals.size();
-        if (numTerminals < 2 && runLocalSearch(new_p)) {
-            auto sol = msm.getSolution(new_p);
-            return findBestSolution(&sol, numTerminals);
+        if (numTerminals < 2) {
+            NodeID block = numTerminals == 0
+                           ? 0 : new_p->terminals[0].original_id;
+            graph_contraction::setBlocks(new_p, original_terminals, block);
+            new_p->upper_bound = new_p->deleted_weight;
+            if (runLocalSearch(new_p)) {
+                auto sol = msm.getSolution(new_p);
+                return findBestSolution(&sol, numTerminals);
+            }
+            return std::nullopt;
         }
 
         if (numTerminals == 2) {
-- 
2.43.0


From 4cd9dec882fe501e86d47dd8a1cdfe165220982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 37/71] fix: bounded search for the source of non-terminal
 flows

---
 lib/algorithms/multicut/maximum_flow.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 17d418c..081f4cd 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -10,6 +10,7 @@
  *****************************************************************************/
 #pragma once
 
+#include <algorithm>
 #include <future>
 #include <memory>
 #include <queue>
@@ -118,12 +119,15 @@ class maximum_flow {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
             size_t num_tries = 0;
+            // there might not be any vertex left that satisfies all criteria
+            size_t max_tries = std::min<EdgeWeight>(
+                max, 1000 + problem->graph->n());
             while (((max >= (problem->graph->getWeightedNodeDegree(r)
                              + num_tries++))
                     || uf.Find(r) != r
                     || previous.count(r) > 0
                     || !active[r])
-                   && num_tries < max) {
+                   && num_tries < max_tries) {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
-- 
2.43.0


From 8428a30c3618ce11cef4ed4acaeaf75b242f7fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 38/71] fix: single branch keeps edges that need not be cut

---
 lib/algorithms/multicut/problem_management.h | 46 +++-----------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 11ef823..a775480 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -83,40 +83,6 @@ class problem_management {
         best_solution.resize(original_graph.number_of_nodes());
     }
 
-    bool degreeThreeContraction(problemPointer problem,
-                                NodeID b_vtx, EdgeID b_edge) {
-        auto& g = problem->graph;
-        auto c = g->getEdgeWeight(b_vtx, b_edge);
-        NodeID term = g->getEdgeTarget(b_vtx, b_edge);
-        EdgeWeight max_incident_wgt = 0;
-        if (!(g->getUnweightedNodeDegree(b_vtx) == 3))
-            return false;
-
-        for (EdgeID e : g->edges_of(b_vtx)) {
-            auto wgt = g->getEdgeWeight(b_vtx, e);
-            if (wgt > max_incident_wgt) {
-                max_incident_wgt = wgt;
-            }
-        }
-
-        if (max_incident_wgt != c)
-            return false;
-
-        for (EdgeID e = 0; e < g->getUnweightedNodeDegree(b_vtx); ++e) {
-            if (g->getEdgeTarget(b_vtx, e) != term) {
-                problem->deleted_weight += g->getEdgeWeight(b_vtx, e);
-                g->deleteEdge(b_vtx, e);
-                --e;
-            }
-        }
-        g->contractEdge(b_vtx, 0);
-
-        for (auto& t : problem->terminals) {
-            t.invalid_flow = true;
-        }
-        return true;
-    }
-
     std::optional<problemPointer> pullProblem(
         size_t thread_id, bool send) {
         return problems.pullProblem(thread_id, send);
@@ -344,13 +310,11 @@ class problem_management {
             processNewProblem(del_p, thread_id);
         }
         // |-> edge not in multicut
-        if (!degreeThreeContraction(problem, b_vtx, b_edge)) {
-            problem->graph->contractEdge(b_vtx, b_edge);
-            problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
-            for (size_t i = 0; i < problem->terminals.size(); ++i) {
-                if (i == target_terminal_id) {
-                    problem->terminals[i].invalid_flow = true;
-                }
+        problem->graph->contractEdge(b_vtx, b_edge);
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
+        for (size_t i = 0; i < problem->terminals.size(); ++i) {
+            if (i == target_terminal_id) {
+                problem->terminals[i].invalid_flow = true;
             }
         }
 
-- 
2.43.0


From 64b6a86f9eb38a1d6ee7ef7c3c1b32aa5cd2969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 39/71] fix: no problem is lost when several threads add to the
 queue

---
 .../problem_queues/per_thread_problem_queue.h | 28 ++++++-------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..b0a552a 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -160,37 +160,27 @@ class per_thread_problem_queue {
         }
 
         pop_mutex[min_index].lock();
+        send_problem_mutex.lock();
 
         if (!haveSendProblem) {
-            send_problem_mutex.lock();
-
             sendProblem = p;
             sendProblemWeight = sendProblem->lower_bound;
             haveSendProblem = true;
-            pop_mutex[min_index].unlock();
             send_problem_mutex.unlock();
+            pop_mutex[min_index].unlock();
             return local_id;
         }
 
         sizes[min_index].first += 1;
 
-        bool movedProblem = false;
         if (sendProblemWeight > p->lower_bound) {
-            send_problem_mutex.lock();
-            if (haveSendProblem) {
-                problemPointer mcp = sendProblem;
-                pq[min_index].push(mcp);
-                sendProblem = p;
-                sendProblemWeight = sendProblem->lower_bound;
-                movedProblem = true;
-                send_problem_mutex.unlock();
-            }
-            send_problem_mutex.unlock();
-        }
-
-        if (!movedProblem) {
+            pq[min_index].push(sendProblem);
+            sendProblem = p;
+            sendProblemWeight = sendProblem->lower_bound;
+        } else {
             pq[min_index].push(p);
         }
+        send_problem_mutex.unlock();
         pop_mutex[min_index].unlock();
         return min_index;
     }
@@ -287,10 +277,10 @@ class per_thread_problem_queue {
                                              const problemPointer&)> > > pq;
 
     problemPointer sendProblem;
-    bool haveSendProblem;
+    std::atomic<bool> haveSendProblem;
     FlowType sendProblemWeight;
 
     std::vector<std::mutex> pop_mutex;
     std::mutex send_problem_mutex;
-    std::vector<std::pair<std::atomic<size_t>, bool> > sizes;
+    std::vector<std::pair<std::atomic<size_t>, std::atomic<bool> > > sizes;
 };
-- 
2.43.0


From e1faad361cf5b2bde1fb3e8c4e8bf0113e01266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 40/71] fix: best multiterminal solution is updated by one
 thread at a time

---
 lib/algorithms/multicut/problem_management.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index a775480..37216e3 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -11,9 +11,11 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <unordered_set>
 #include <vector>
 
@@ -47,7 +49,7 @@ class problem_management {
     bool is_finished;
     std::atomic<uint> idle_threads;
 
-    FlowType global_upper_bound;
+    std::atomic<FlowType> global_upper_bound;
     std::vector<FlowType> terminalGUB;
     std::vector<FlowType> beforeLSGUB;
 
@@ -240,20 +242,21 @@ class problem_management {
         if (prev_gub > beforeLSGUB[numTerminals])
             return std::nullopt;
 
+        bestsol_mutex.lock();
         if (prev_gub < global_upper_bound) {
             global_upper_bound = prev_gub;
             LOG1 << "Improvement after " << t.elapsed()
                  << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
         }
+        bestsol_mutex.unlock();
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
         if (ls_bound <= terminalGUB[numTerminals]) {
             terminalGUB[numTerminals] = ls_bound;
             beforeLSGUB[numTerminals] = prev_gub;
@@ -263,12 +266,10 @@ class problem_management {
             global_upper_bound = ls_bound;
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
 
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
             return ls_bound;
         }
         return std::nullopt;
@@ -357,7 +358,10 @@ class problem_management {
     }
 
     void updateBound(FlowType newSolution) {
-        global_upper_bound = std::min(newSolution, global_upper_bound);
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
+        if (newSolution < global_upper_bound) {
+            global_upper_bound = newSolution;
+        }
     }
 
     FlowType bestCut() {
-- 
2.43.0


From 84f64070f988073ef6ec44e2178730024a2bec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 41/71] fix: written multiterminal solutions of graphs with
 several components

---
 lib/algorithms/multicut/multiterminal_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 801884b..8853ff7 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -265,7 +265,7 @@ class multiterminal_cut {
 
                 for (size_t i = 0; i < mapping.size(); ++i) {
                     NodeID n = mapping[i];
-                    nodeProblemMapping[n] = problem;
+                    nodeProblemMapping[n] = problems.size();
                     if (positionInProblem[n] != UNDEFINED_NODE) {
                         LOG1 << "ERROR: NODE IN MULTIPLE CCs";
                         exit(1);
-- 
2.43.0


From 2b0c5668d7f2707f35d96f01ce6e301fd966ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 42/71] fix: received problems do not prefer an arbitrary edge

---
 lib/algorithms/multicut/mpi_communication.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index c437c72..bb17c0c 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -111,6 +111,7 @@ class mpi_communication {
         problem->lower_bound = data[0];
         problem->upper_bound = data[1];
         problem->deleted_weight = data[2];
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
         size_t num_terminals = data[3];
         size_t next_index = 4;
         for (size_t i = 0; i < num_terminals; ++i) {
@@ -125,15 +126,16 @@ class mpi_communication {
             problem->mappings.emplace_back(
                 std::make_shared<std::vector<NodeID> >());
             problem->mappings[i]->insert(problem->mappings[i]->end(),
-                                         &data[next_index],
-                                         &data[next_index + map_size_i]);
+                                         data.begin() + next_index,
+                                         data.begin() + next_index
+                                         + map_size_i);
             next_index += map_size_i;
         }
 
         size_t serialsize = data[next_index++];
         std::vector<uint64_t> serial;
-        serial.insert(serial.end(), &data[next_index],
-                      &data[next_index + serialsize]);
+        serial.insert(serial.end(), data.begin() + next_index,
+                      data.begin() + next_index + serialsize);
 
         problem->graph = mutable_graph::deserialize(serial);
         LOG << mpi_rank << " returns new problem";
-- 
2.43.0


From 3738e1e384700ef5c7c62db4311245e27d31275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 43/71] fix: heavy triangles are only contracted if that
 preserves the optimum

---
 .../multicut/kernelization_criteria.h         | 71 ++++++++++++++-----
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index a5a0f7d..c2ede36 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -303,6 +303,18 @@ class kernelization_criteria {
         return uf;
     }
 
+    // a and b are two vertices of a triangle with c, both of them with at least
+    // half of their weight in the triangle. Checks whether it is also safe to
+    // contract a and b if a, b and c are in three different blocks: then one of
+    // them can join the other or both can join c without increasing the cut.
+    static bool heavyInThreeBlocks(EdgeWeight weight_a, EdgeWeight weight_b,
+                                   EdgeWeight ab, EdgeWeight ac,
+                                   EdgeWeight bc) {
+        return weight_a <= 2 * ab + ac
+               || weight_b <= 2 * ab + bc
+               || weight_a + weight_b <= 3 * ab + 2 * (ac + bc);
+    }
+
     union_find triangleDetection(problemPointer problem,
                                  const std::vector<bool>& active) {
         auto graph = problem->graph;
@@ -353,7 +365,8 @@ class kernelization_criteria {
                         for (EdgeID e2 : graph->edges_of(v2)) {
                             NodeID v3 = graph->getEdgeTarget(v2, e2);
                             if (v3 > v2 && marked[v3] != UNDEFINED_EDGE
-                                && !terminals[v3] && !done[v3]) {
+                                && !terminals[v3] && !done[v3]
+                                && !done[v1] && !done[v2]) {
                                 EdgeID e3 = marked[v3];
                                 if (graph->getEdgeTarget(v1, e3) == v3) {
                                     EdgeWeight weight_v1 =
@@ -370,27 +383,51 @@ class kernelization_criteria {
                                     EdgeWeight weight_e3 =
                                         graph->getEdgeWeight(v1, e3);
 
-                                    bool heavy_v1 =
-                                        ((weight_v1 <=
-                                          (weight_e1 + weight_e3) * 2)
-                                         && (uf.Find(v1) == v1));
-                                    bool heavy_v2 =
-                                        ((weight_v2 <=
-                                          (weight_e1 + weight_e2) * 2)
-                                         && (uf.Find(v2) == v2));
-                                    bool heavy_v3 =
-                                        ((weight_v3 <=
-                                          (weight_e2 + weight_e3) * 2)
-                                         && (uf.Find(v3) == v3));
-
-                                    if (heavy_v1 && heavy_v2)
+                                    bool heavy_v1 = (weight_v1 <=
+                                                     (weight_e1 + weight_e3)
+                                                     * 2);
+                                    bool heavy_v2 = (weight_v2 <=
+                                                     (weight_e1 + weight_e2)
+                                                     * 2);
+                                    bool heavy_v3 = (weight_v3 <=
+                                                     (weight_e2 + weight_e3)
+                                                     * 2);
+
+                                    bool c12 = heavy_v1 && heavy_v2
+                                               && heavyInThreeBlocks(
+                                        weight_v1, weight_v2,
+                                        weight_e1, weight_e3, weight_e2);
+                                    bool c13 = heavy_v1 && heavy_v3
+                                               && heavyInThreeBlocks(
+                                        weight_v1, weight_v3,
+                                        weight_e3, weight_e1, weight_e2);
+                                    bool c23 = heavy_v2 && heavy_v3
+                                               && heavyInThreeBlocks(
+                                        weight_v2, weight_v3,
+                                        weight_e2, weight_e1, weight_e3);
+
+                                    // a vertex takes part in one contraction
+                                    // only, as the weights change afterwards
+                                    if (c12 || (c13 && heavy_v2)
+                                        || (c23 && heavy_v1)) {
                                         uf.Union(v1, v2);
+                                        done[v1] = true;
+                                        done[v2] = true;
+                                    }
 
-                                    if (heavy_v1 && heavy_v3)
+                                    if (c13 || (c12 && heavy_v3)
+                                        || (c23 && heavy_v1)) {
                                         uf.Union(v1, v3);
+                                        done[v1] = true;
+                                        done[v3] = true;
+                                    }
 
-                                    if (heavy_v2 && heavy_v3)
+                                    if (c23 || (c12 && heavy_v3)
+                                        || (c13 && heavy_v2)) {
                                         uf.Union(v2, v3);
+                                        done[v2] = true;
+                                        done[v3] = true;
+                                    }
                                 } else {
                                     LOG1 << "Graph corrupted!";
                                     exit(1);
-- 
2.43.0


From 8a6a5727827eec597175ada00cac3a980cd5bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 44/71] fix: overlapping source sets of non-terminal flows are
 not contracted into one vertex

---
 lib/algorithms/multicut/maximum_flow.h | 37 +++++++++++++++++++-------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 081f4cd..aad1382 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -96,6 +96,28 @@ class maximum_flow {
         union_find uf(problem->graph->n());
         std::unordered_set<NodeID> previous;
 
+        // if the source sets of two flows overlap and neither of them contains
+        // the other source, the vertices in both sets can be contracted with
+        // either source, but not with both of them.
+        std::vector<NodeID> source(problem->graph->n(), UNDEFINED_NODE);
+        auto contractSourceSet = [&uf, &source](
+            const std::vector<NodeID>& sourceSet, NodeID r) {
+            std::unordered_set<NodeID> vertices(sourceSet.begin(),
+                                                sourceSet.end());
+            if (source[r] != UNDEFINED_NODE) {
+                // r is in a previous source set, which contains all of sourceSet
+                return;
+            }
+            for (const auto& s : sourceSet) {
+                if (source[s] == UNDEFINED_NODE
+                    || vertices.count(source[s]) > 0) {
+                    uf.Union(s, r);
+                    source[s] = r;
+                }
+            }
+        };
+
+        std::vector<NodeID> flow_sources;
         std::vector<std::future<std::vector<NodeID> > > futures;
         std::vector<push_relabel<false, true> > prs(
             configuration::getConfig()->random_flows +
@@ -140,6 +162,7 @@ class maximum_flow {
             size_t num_t = terms.size() - 1;
 
             if (parallel) {
+                flow_sources.emplace_back(r);
                 futures.emplace_back(
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
@@ -149,9 +172,7 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSourceSet(sourceSet, r);
             }
         }
 
@@ -176,6 +197,7 @@ class maximum_flow {
             size_t num_t = terms.size() - 1;
 
             if (parallel) {
+                flow_sources.emplace_back(r);
                 futures.emplace_back(
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
@@ -185,19 +207,14 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSourceSet(sourceSet, r);
             }
         }
 
         for (size_t i = 0; i < futures.size(); ++i) {
             auto& t = futures[i];
             const auto& vec = t.get();
-            NodeID head = vec[0];
-            for (const auto& n : vec) {
-                uf.Union(n, head);
-            }
+            contractSourceSet(vec, flow_sources[i]);
         }
 
         return uf;
-- 
2.43.0


From 14df3036ce8a1ec76b75ed6a11ff8a399732fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 45/71] fix: edge selection by distance finds edges to vertices
 of degree one

---
 lib/algorithms/multicut/edge_selection.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/edge_selection.h b/lib/algorithms/multicut/edge_selection.h
index 764fa22..53f50a8 100644
--- a/lib/algorithms/multicut/edge_selection.h
+++ b/lib/algorithms/multicut/edge_selection.h
@@ -47,13 +47,16 @@
     EdgeWeight max_wgt = 0;
     NodeID max_id_t = 0;
     EdgeID max_id_e = 0;
+    bool found = false;
     for (const auto& term : problem->terminals) {
         NodeID t = term.position;
         for (EdgeID e : problem->graph->edges_of(t)) {
             NodeID tgt = problem->graph->getEdgeTarget(t, e);
             EdgeWeight curr_wgt = problem->graph->getWeightedNodeDegree(tgt)
                                   - (problem->graph->getEdgeWeight(t, e));
-            if (curr_wgt > max_wgt) {
+            // the terminal can be the only neighbor of tgt
+            if (curr_wgt > max_wgt || !found) {
+                found = true;
                 max_wgt = curr_wgt;
                 max_id_t = t;
                 max_id_e = e;
-- 
2.43.0


From 94c47f02b9806765fa9fc3dac1a247eb6ac12303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 46/71] fix: inexact multiterminal cuts in which terminals lose
 all their edges

---
 lib/algorithms/multicut/branch_multicut.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 59e5d54..64976bc 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -458,6 +458,11 @@ class branch_multicut {
                 }
             }
 
+            if (lightest_weight == UNDEFINED_FLOW) {
+                // no terminal has any edges left
+                return;
+            }
+
             for (size_t i = 0; i < original_terminals.size(); ++i) {
                 if (i != lightest_oid) {
                     problem->addFinishedPair(
@@ -545,7 +550,7 @@ class branch_multicut {
         }
 
         graph_contraction::deleteTermEdges(problem, original_terminals);
-        if (!problem->graph->number_of_edges()) {
+        if (!problem->graph->number_of_edges() || problem->terminals.empty()) {
             problem->upper_bound = problem->deleted_weight;
             graph_contraction::setBlocks(problem, original_terminals, 0);
             auto sol = msm.getSolution(problem);
-- 
2.43.0


From 6935c667e75dc2d3c065197268c8a5028915a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 47/71] fix: random terminals are different vertices

---
 lib/algorithms/multicut/multiterminal_cut.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 8853ff7..50bbfdd 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -314,8 +314,16 @@ class multiterminal_cut {
 
     std::vector<NodeID> randomTerminals(mutableGraphPtr G) {
         std::vector<NodeID> terminals;
-        for (int i = 0; i < configuration::getConfig()->random_k; ++i) {
-            terminals.emplace_back(random_functions::nextInt(0, G->n() - 1));
+        std::vector<bool> is_terminal(G->n(), false);
+        int num_terminals = std::min<size_t>(
+            configuration::getConfig()->random_k, G->n());
+        for (int i = 0; i < num_terminals; ++i) {
+            NodeID terminal = random_functions::nextInt(0, G->n() - 1);
+            while (is_terminal[terminal]) {
+                terminal = random_functions::nextInt(0, G->n() - 1);
+            }
+            is_terminal[terminal] = true;
+            terminals.emplace_back(terminal);
             LOG << "Set random terminal " << terminals.back();
         }
         return terminals;
-- 
2.43.0


From 5a96b2433531ba17bc0484c807a694c2342561d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 48/71] fix: distant terminals are different vertices

---
 lib/algorithms/multicut/multiterminal_cut.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 50bbfdd..a385a44 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -332,7 +332,9 @@ class multiterminal_cut {
     std::vector<NodeID> distantTerminals(mutableGraphPtr G) {
         std::vector<NodeID> terminals;
         size_t r = random_functions::nextInt(0, G->n() - 1);
-        int dt = configuration::getConfig()->distant_terminals;
+        int dt = std::min<size_t>(
+            configuration::getConfig()->distant_terminals, G->n());
+        std::vector<bool> is_terminal(G->n(), false);
         for (int i = 0; i < dt; ++i) {
             std::queue<NodeID> Q;
             std::vector<bool> found(G->n(), false);
@@ -356,6 +358,15 @@ class multiterminal_cut {
                 }
 
                 if (Q.empty()) {
+                    // there might be no other vertex in the components of r
+                    // and the previous terminals
+                    if (is_terminal[t]) {
+                        t = r;
+                    }
+                    for (NodeID v = 0; is_terminal[t]; ++v) {
+                        t = v;
+                    }
+                    is_terminal[t] = true;
                     terminals.emplace_back(t);
                     break;
                 }
-- 
2.43.0


From aa2104ea4432eb29670ad7e3ee966f4a37583556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 49/71] fix: mincut uses the selected priority queue

---
 app/mincut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index b8b3034..1051941 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -50,7 +50,7 @@ int main(int argn, char** argv) {
     cmdl.add_stringlist('p', "proc", procs, "number of processes");
 #endif
     cmdl.add_param_string("algo", cfg->algorithm, "algorithm name");
-    cmdl.add_string('q', "pq", cfg->queue_type,
+    cmdl.add_string('q', "pq", cfg->pq,
                     "name of priority queue implementation");
     cmdl.add_size_t('i', "iter", num_iterations, "number of iterations");
     cmdl.add_bool('l', "disable_limiting", cfg->disable_limiting,
-- 
2.43.0


From 78756857fd65bd12850082ea35dc9337b4452942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 50/71] fix: parallel cactus writes the requested cactus file

---
 lib/parallel/algorithm/parallel_cactus.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 314b081..c91e29e 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -22,6 +22,7 @@
 #include <utility>
 #include <vector>
 
+#include "algorithms/global_mincut/cactus/cactus_mincut.h"
 #include "algorithms/global_mincut/cactus/most_balanced_minimum_cut.h"
 #include "algorithms/global_mincut/cactus/recursive_cactus.h"
 #include "algorithms/global_mincut/minimum_cut_helpers.h"
@@ -216,6 +217,12 @@ class parallel_cactus : public minimum_cut {
             most_balanced_minimum_cut<GraphPtr> mbmc;
             mb_edges = mbmc.findCutFromCactus(out_graph, mincut, graphs[0]);
         }
+
+        auto cactus_filename = configuration::getConfig()->cactus_filename;
+        if (cactus_filename != "") {
+            _write_cactus_graphml_file(out_graph, cactus_filename);
+        }
+
         return std::make_tuple(mincut, out_graph, mb_edges);
     }
 };
-- 
2.43.0


From 87255b2b00c59da8fb31a4349a9d72cb94809818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 51/71] fix: algorithm of Karger and Stein can be used for
 mutable graphs

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 8fc9ba9..6f593eb 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -47,6 +47,19 @@ class ks_minimum_cut : public minimum_cut {
 
     ~ks_minimum_cut() { }
 
+    EdgeWeight perform_minimum_cut(mutableGraphPtr G) {
+        if (!G) {
+            return -1;
+        }
+
+        graphAccessPtr GA = G->to_graph_access();
+        EdgeWeight mincut = perform_minimum_cut(GA);
+        for (NodeID n : GA->nodes()) {
+            G->setNodeInCut(n, GA->getNodeInCut(n));
+        }
+        return mincut;
+    }
+
     EdgeWeight perform_minimum_cut(graphAccessPtr G) {
         if (!G) {
             return -1;
-- 
2.43.0


From 3f78610dd84aa00e6ebaa3198de753b351c30d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 52/71] fix: cactus algorithms save a minimum cut

---
 .../global_mincut/cactus/cactus_mincut.h      |  5 +++++
 .../global_mincut/minimum_cut_helpers.h       | 21 +++++++++++++++++++
 lib/parallel/algorithm/parallel_cactus.h      |  5 +++++
 3 files changed, 31 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index db869a1..1774ffb 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -183,6 +183,11 @@ class cactus_mincut : public minimum_cut {
         LOGC(timing)
             << "unpacked - n " << out_graph->n() << " m " << out_graph->m();
 
+        if (configuration::getConfig()->save_cut) {
+            minimum_cut_helpers<GraphPtr>::setCutFromCactus(
+                graphs[0], out_graph, mincut);
+        }
+
         std::vector<std::pair<NodeID, EdgeID> > mb_edges;
         if (configuration::getConfig()->find_most_balanced_cut) {
             most_balanced_minimum_cut<GraphPtr> mbmc;
diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index 3ed9418..867fd9a 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -187,6 +187,27 @@ class minimum_cut_helpers {
         return std::make_pair(mapping, reverse_mapping);
     }
 
+    // the vertices in a cactus vertex whose degree equals the minimum cut are one
+    // side of a minimum cut
+    static void setCutFromCactus(
+        GraphPtr G,
+        mutableGraphPtr cactus,
+        const EdgeWeight mincut) {
+        for (NodeID n : cactus->nodes()) {
+            const auto& side = cactus->containedVertices(n);
+            if (cactus->getWeightedNodeDegree(n) == mincut && side.size() > 0
+                && side.size() < G->number_of_nodes()) {
+                for (NodeID v : G->nodes()) {
+                    G->setNodeInCut(v, false);
+                }
+                for (NodeID v : side) {
+                    G->setNodeInCut(v, true);
+                }
+                return;
+            }
+        }
+    }
+
     static void setVertexLocations(
         mutableGraphPtr out_graph,
         const std::vector<GraphPtr>& graphs,
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index c91e29e..cded590 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -212,6 +212,11 @@ class parallel_cactus : public minimum_cut {
         LOGC(timing) << "t " << t.elapsed() << " unpacked - n "
                      << out_graph->n() << " m " << out_graph->m();
 
+        if (configuration::getConfig()->save_cut) {
+            minimum_cut_helpers<GraphPtr>::setCutFromCactus(
+                graphs[0], out_graph, mincut);
+        }
+
         std::vector<std::pair<NodeID, EdgeID> > mb_edges;
         if (configuration::getConfig()->find_most_balanced_cut) {
             most_balanced_minimum_cut<GraphPtr> mbmc;
-- 
2.43.0


From 76789973c0c2d8492334edf4d99341944f38da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 53/71] fix: mincut_contract takes the graph file once

---
 app/mincut_contract.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 1b118ec..56ff802 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -58,8 +58,6 @@ int main(int argn, char** argv) {
                           "algorithm name ('vc', 'noi', 'matula', 'pr', 'ks')");
 #endif
 
-    cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
-                          "path to graph file");
     cmdl.add_string('q', "pq", configuration::getConfig()->pq,
                     "name of priority queue implementation");
     cmdl.add_int('i', "iter", iter, "number of iterations");
-- 
2.43.0


From f7ade89fdfeb044a824560cb5f36492d339927c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 54/71] fix: mincut_contract uses the contraction factor

---
 app/mincut_contract.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 56ff802..6d0fc72 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -43,7 +43,8 @@ int main(int argn, char** argv) {
     tlx::CmdlineParser cmdl;
 
     int iter = 1;
-    double contraction_factor;
+    double& contraction_factor =
+        configuration::getConfig()->contraction_factor;
 
     cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
                           "path to graph file");
-- 
2.43.0


From 711095e3b7034ef581616c71b47ce18740a9f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 55/71] fix: mincut_contract saves the cut of the original
 graph

---
 app/mincut_contract.cpp            | 4 ++++
 lib/parallel/coarsening/sparsify.h | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 6d0fc72..7e561f8 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -121,6 +121,10 @@ int main(int argn, char** argv) {
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
+                for (NodeID n : G->nodes()) {
+                    G->setNodeInCut(n, G2->getNodeInCut(
+                                        G->getPartitionIndex(n)));
+                }
                 graph_io::writeCut(G,
                                    configuration::getConfig()->graph_filename
                                    + ".cut");
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index c8e6e77..fab4c75 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -46,6 +46,9 @@ class sparsify {
             }
 
             mapping[n] = part[part_id];
+            if (configuration::getConfig()->save_cut) {
+                G->setPartitionIndex(n, part[part_id]);
+            }
         }
         return std::make_tuple(mapping, current_pid);
     }
-- 
2.43.0


From 545f97447ed404a98266ab300a229b4e659336ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 56/71] fix: mincut_contract and mincut_heavy print the number
 of edges

---
 app/mincut_contract.cpp | 2 +-
 app/mincut_heavy.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 7e561f8..14d5efe 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -138,7 +138,7 @@ int main(int argn, char** argv) {
                       << " time=" << time
                       << " cut=" << cut
                       << " n=" << G->number_of_nodes()
-                      << " m=" << G->number_of_edges() << " processes="
+                      << " m=" << G->number_of_edges() / 2 << " processes="
                       << omp_get_max_threads() << std::endl;
         }
     }
diff --git a/app/mincut_heavy.cpp b/app/mincut_heavy.cpp
index e506635..58e9d39 100644
--- a/app/mincut_heavy.cpp
+++ b/app/mincut_heavy.cpp
@@ -166,7 +166,7 @@ int main(int argn, char** argv) {
                       << graphname << " time=" << t.elapsed()
                       << " cut=" << qm.edge_cut(*G)
                       << " n=" << G->number_of_nodes()
-                      << " m=" << G->number_of_edges() << " processes="
+                      << " m=" << G->number_of_edges() / 2 << " processes="
                       << omp_get_max_threads() << std::endl;
         }
     }
-- 
2.43.0


From 87f52d26ff7365ea2a3c622d6b97f6653b331d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:07 +0000
Subject: [PATCH 57/71] fix: mincut_contract keeps at least two vertices

---
 app/mincut_contract.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 14d5efe..fa895ed 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -117,13 +117,20 @@ int main(int argn, char** argv) {
 
             auto G2 = sf.one_ks(G);
 
+            if (G2->number_of_nodes() < 2) {
+                // everything was contracted, so no cut is left to be found
+                G2 = G;
+            }
+
             LOGC(timing) << "Contraction: " << t.elapsed() << "s";
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
-                for (NodeID n : G->nodes()) {
-                    G->setNodeInCut(n, G2->getNodeInCut(
-                                        G->getPartitionIndex(n)));
+                if (G2 != G) {
+                    for (NodeID n : G->nodes()) {
+                        G->setNodeInCut(n, G2->getNodeInCut(
+                                            G->getPartitionIndex(n)));
+                    }
                 }
                 graph_io::writeCut(G,
                                    configuration::getConfig()->graph_filename
-- 
2.43.0


From 4a58a7d626f39efbef73a0c936aa27ba83e596de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 58/71] fix: make_graph_weighted handles vertices without edges

---
 app/make_graph_weighted.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/make_graph_weighted.cpp b/app/make_graph_weighted.cpp
index 7557358..23801aa 100644
--- a/app/make_graph_weighted.cpp
+++ b/app/make_graph_weighted.cpp
@@ -75,6 +75,10 @@ int main(int argn, char** argv) {
     size_t edges = 0;
     for (NodeID n : G->nodes()) {
         // if (!covered[n]) {
+        if (G->getUnweightedNodeDegree(n) == 0) {
+            // no edge that could have a higher weight
+            continue;
+        }
         EdgeID e_highweight = random_functions::nextInt(
             G->get_first_edge(n), G->get_first_invalid_edge(n) - 1);
         NodeID t = G->getEdgeTarget(e_highweight);
-- 
2.43.0


From 72217033c79ab08405d3189de7b9571717219d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 59/71] fix: largest_cc writes next to the graph file

---
 app/largest_cc.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/largest_cc.cpp b/app/largest_cc.cpp
index 11697f3..e4998ee 100644
--- a/app/largest_cc.cpp
+++ b/app/largest_cc.cpp
@@ -44,9 +44,15 @@ int main(int argn, char** argv) {
     strongly_connected_components scc;
 
     auto out = scc.largest_scc(G);
+
+    // replace the extension of the file, directories can have dots as well
+    size_t name = path.find_last_of('/');
+    size_t dot = path.find('.', (name == std::string::npos) ? 0 : name);
+    std::string output_path = path.substr(0, dot) + ".cc";
+
     if (weighted) {
-        graph_io::writeGraphWeighted(out, tlx::split(".", path)[0] + ".cc");
+        graph_io::writeGraphWeighted(out, output_path);
     } else {
-        graph_io::writeGraph(out, tlx::split(".", path)[0] + ".cc");
+        graph_io::writeGraph(out, output_path);
     }
 }
-- 
2.43.0


From 0952a62849c309c191e93a96c82100bc4adffc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 60/71] fix: decremental_gnp uses the random seed

---
 app/decremental_gnp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index c512529..f1a0e4c 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -71,6 +71,8 @@ int main(int argn, char** argv) {
     if (!cmdl.process(argn, argv))
         return -1;
 
+    random_functions::setSeed(cfg->seed);
+
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
 
-- 
2.43.0


From cca8c74e6dd95ace7a1583a9580ce99cea67bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 61/71] fix: decremental_gnp keeps track of the vertices of the
 cactus

---
 app/decremental_gnp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index f1a0e4c..05f6a06 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -73,6 +73,9 @@ int main(int argn, char** argv) {
 
     random_functions::setSeed(cfg->seed);
 
+    // the dynamic algorithm needs the vertices contained in the cactus
+    cfg->save_cut = true;
+
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
 
-- 
2.43.0


From 638e86b3c5f3fdf464bf24ed84b637021cc05771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:54 +0000
Subject: [PATCH 62/71] fix: initialising a dynamic minimum cut again forgets
 cached cacti

The caches of an earlier run stayed marked as in use, so that insertions
were not recorded for them and outdated cacti were restored.
---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index f51a5f3..fb915b2 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -62,6 +62,9 @@ class dynamic_mincut {
         timer t;
         auto [cut, outgraph, balanced] = cactus.findAllMincuts(graph);
         numCachedMincuts = 0;
+        cachedCactus.clear();
+        cachedInserts.clear();
+        currentlyCaching.clear();
         callsOfStaticAlgorithm = 1;
         lowestCachedMincut = UNDEFINED_EDGE;
         original_graph = graph;
-- 
2.43.0


From 3f41bf0d246949df03ff73700c2e5584ac4c1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 63/71] fix: push_relabel variants draw default problem ids
 from one counter

---
 lib/algorithms/flow/push_relabel.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index 16bce50..c4ae597 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -34,6 +34,14 @@ const int WORK_OP_RELABEL = 9;
 const double GLOBAL_UPDATE_FRQ = 0.51;
 const int WORK_NODE_TO_EDGES = 4;
 
+// flow of earlier problems on the same graph is only ignored if every
+// problem has its own id, no matter which push_relabel variant solves it.
+// Starts above all ids that fit into 32 bits.
+inline size_t nextFlowProblemId() {
+    static std::atomic<size_t> next_id { 1ull << 40 };
+    return next_id++;
+}
+
 template <bool limited = false, bool parallel_flows = false>
 class push_relabel {
  public:
@@ -41,13 +49,6 @@ class push_relabel {
     virtual ~push_relabel() { }
 
  private:
-    // flow of earlier problems on the same graph is only ignored if every
-    // problem has its own id. Starts above all ids that fit into 32 bits.
-    static size_t nextProblemId() {
-        static std::atomic<size_t> next_id { 1ull << 40 };
-        return next_id++;
-    }
-
     void init(mutableGraphPtr G,
               std::vector<NodeID> sources,
               NodeID source) {
@@ -351,7 +352,7 @@ class push_relabel {
         NodeID curr_source,
         bool compute_source_set,
         FlowType limit = 0,
-        size_t problem_id = nextProblemId()) {
+        size_t problem_id = nextFlowProblemId()) {
         t.restart();
         for (NodeID s : sources) {
             if (s >= G->number_of_nodes()) {
-- 
2.43.0


From 0e897ec110f8c57f21a886f3673add59d8b4a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 64/71] fix: multiterminal cut ignores earlier flow when
 finding components

---
 lib/algorithms/multicut/multiterminal_cut.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index a385a44..fe652b0 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -21,6 +21,7 @@
 #include <utility>
 #include <vector>
 
+#include "algorithms/flow/push_relabel.h"
 #include "algorithms/misc/strongly_connected_components.h"
 #include "algorithms/multicut/branch_multicut.h"
 #include "data_structure/graph_access.h"
@@ -211,7 +212,9 @@ class multiterminal_cut {
 
         auto config = configuration::getConfig();
 
-        auto [components, num_comp, blocksizes] = cc.strong_components(G);
+        // new problem id, as flow of earlier problems on G does not count
+        auto [components, num_comp, blocksizes] =
+            cc.strong_components(G, nextFlowProblemId());
         (void)blocksizes;
 
         std::vector<NodeID> nodeProblemMapping(G->n(), UNDEFINED_NODE);
-- 
2.43.0


From 9126cdc33a8bba8b1faa6631cd8217babd51076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:07 +0000
Subject: [PATCH 65/71] fix: cacti and dynamic minimum cuts use unique flow
 problem ids

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 6 +++---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h  | 6 ++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 511763e..e4e00b6 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -51,7 +51,7 @@ class recursive_cactus {
  public:
     recursive_cactus() { }
     explicit recursive_cactus(EdgeWeight mincut)
-        : mincut(mincut), problem_id(random_functions::next()) { }
+        : mincut(mincut) { }
     ~recursive_cactus() { }
 
     static constexpr bool debug = false;
@@ -153,7 +153,7 @@ class recursive_cactus {
         {
             std::vector<NodeID> vtcs = { s, tgt };
             push_relabel pr;
-            problem_id++;
+            problem_id = nextFlowProblemId();
             max_flow = pr.solve_max_flow_min_cut(
                 G, vtcs, 0, false, false, problem_id).first;
         }
@@ -617,5 +617,5 @@ class recursive_cactus {
 
     timer t;
     EdgeWeight mincut;
-    size_t problem_id;
+    size_t problem_id = 0;
 };
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index fb915b2..883b091 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -33,7 +33,6 @@ class dynamic_mincut {
     mutableGraphPtr original_graph;
     mutableGraphPtr out_cactus;
     EdgeWeight current_cut;
-    size_t flow_problem_id;
     size_t max_cache_size = 1000;
     size_t callsOfStaticAlgorithm;
 
@@ -70,7 +69,6 @@ class dynamic_mincut {
         original_graph = graph;
         out_cactus = outgraph;
         current_cut = cut;
-        flow_problem_id = random_functions::next();
         LOGC(verbose) << "initialize t " << t.elapsed() << " cut " << cut
                       << " cactus_vtcs " << outgraph->n();
         return cut;
@@ -283,7 +281,7 @@ class dynamic_mincut {
             out_cactus = outg;
             current_cut = cut;   */
             putIntoCache(out_cactus, current_cut);
-            size_t fpid = flow_problem_id++;
+            size_t fpid = nextFlowProblemId();
             recursive_cactus<mutableGraphPtr> rc;
             size_t flow = pr.solve_max_flow_min_cut(
                 original_graph, { s, t }, 0, false, current_cut, fpid).first;
@@ -292,7 +290,7 @@ class dynamic_mincut {
             current_cut = flow;
             out_cactus = new_g;
         } else {
-            size_t fp = flow_problem_id++;
+            size_t fp = nextFlowProblemId();
             auto [flow, sourceset] = pr.solve_max_flow_min_cut(
                 original_graph, { s, t }, 0, false,
                 current_cut, fp);
-- 
2.43.0


From c87aca046300b1d09364923065848db933d61bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 66/71] fix: most balanced cut search does not recurse

---
 .../global_mincut/cactus/balanced_cut_dfs.h   | 111 ++++++++++++------
 1 file changed, 76 insertions(+), 35 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/balanced_cut_dfs.h b/lib/algorithms/global_mincut/cactus/balanced_cut_dfs.h
index 7db1bfa..8352060 100644
--- a/lib/algorithms/global_mincut/cactus/balanced_cut_dfs.h
+++ b/lib/algorithms/global_mincut/cactus/balanced_cut_dfs.h
@@ -67,54 +67,95 @@ class balanced_cut_dfs {
     }
 
  private:
-    void processVertex(NodeID n) {
+    // Starts to process vertex n, returns whether it has neighbors to look at
+    bool discoverVertex(NodeID n) {
         status[n] = ACTIVE;
 
         if (G->get_first_invalid_edge(n) == 1 && n != start_vertex) {
             // leaf
             subtree_weight[n] = findVertexWeight(n);
             status[n] = FINISHED;
-            return;
+            return false;
         }
+        return true;
+    }
 
-        EdgeWeight children_weight = 0;
-        for (EdgeID e : G->edges_of(n)) {
-            NodeID t = G->getEdgeTarget(n, e);
-            switch (status[t]) {
-            case UNDISCOVERED:
-                parent[t] = n;
-                processVertex(t);
-                if (lighterBlock(subtree_weight[t]) > best_weight
-                    && G->getEdgeWeight(n, e) == mincut) {
-                    best_in_cycle = false;
-                    best_n = n;
-                    best_e = e;
-                    best_weight = lighterBlock(subtree_weight[t]);
-                }
-                children_weight += subtree_weight[t];
-                break;
-
-            case ACTIVE:
-            case CYCLE:
-                if (parent[n] != t) {
-                    // found a cycle, mark it, process it when we are back at t
-                    status[t] = CYCLE;
-                    outgoing_cycles[t].emplace_back(n);
+    // The stack of the search is explicit, as the cactus can be a long path.
+    void processVertex(NodeID start) {
+        struct active_vertex {
+            NodeID     n;
+            EdgeID     next_edge;
+            EdgeWeight children_weight;
+        };
+        std::vector<active_vertex> stack;
+
+        if (discoverVertex(start)) {
+            stack.push_back({ start, 0, 0 });
+        }
+
+        while (!stack.empty()) {
+            NodeID n = stack.back().n;
+
+            if (stack.back().next_edge < G->get_first_invalid_edge(n)) {
+                EdgeID e = stack.back().next_edge;
+                NodeID t = G->getEdgeTarget(n, e);
+                switch (status[t]) {
+                case UNDISCOVERED:
+                    parent[t] = n;
+                    if (discoverVertex(t)) {
+                        // edge is done when t is finished
+                        stack.push_back({ t, 0, 0 });
+                        continue;
+                    }
+                    finishChild(n, e, t, &stack.back().children_weight);
+                    break;
+
+                case ACTIVE:
+                case CYCLE:
+                    if (parent[n] != t) {
+                        // found a cycle, mark it,
+                        // process it when we are back at t
+                        status[t] = CYCLE;
+                        outgoing_cycles[t].emplace_back(n);
+                    }
+                    break;
+                default:
+                    break;
+                    // do nothing
                 }
-                break;
-            default:
-                break;
-                // do nothing
+                stack.back().next_edge++;
+                continue;
             }
-        }
 
-        if (status[n] == CYCLE) {
-            checkForCycles(n);
-        }
+            if (status[n] == CYCLE) {
+                checkForCycles(n);
+            }
+
+            subtree_weight[n] =
+                stack.back().children_weight + findVertexWeight(n);
+
+            status[n] = FINISHED;
+            stack.pop_back();
 
-        subtree_weight[n] = children_weight + findVertexWeight(n);
+            if (!stack.empty()) {
+                auto& par = stack.back();
+                finishChild(par.n, par.next_edge, n, &par.children_weight);
+                par.next_edge++;
+            }
+        }
+    }
 
-        status[n] = FINISHED;
+    // Edge e from vertex n leads to child t, whose subtree is finished
+    void finishChild(NodeID n, EdgeID e, NodeID t,
+                     EdgeWeight* children_weight) {
+        if (lighterBlock(subtree_weight[t]) > best_weight
+            && G->getEdgeWeight(n, e) == mincut) {
+            best_in_cycle = false;
+            best_n = n;
+            best_e = e;
+            best_weight = lighterBlock(subtree_weight[t]);
+        }
+        *children_weight += subtree_weight[t];
     }
 
     EdgeWeight findVertexWeight(NodeID n) {
-- 
2.43.0


From 31cbc26f5a5f99094858fadd6db14665280f9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 67/71] fix: cactus of graphs with large minimum cuts does not
 need memory linear in the cut

---
 .../global_mincut/cactus/recursive_cactus.h   | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index e4e00b6..4b92b72 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -33,7 +33,6 @@
 #include "common/configuration.h"
 #include "common/definitions.h"
 #include "data_structure/mutable_graph.h"
-#include "data_structure/priority_queues/node_bucket_pq.h"
 #include "tlx/logger.hpp"
 #include "tools/random_functions.h"
 #include "tools/string.h"
@@ -367,15 +366,20 @@ class recursive_cactus {
         stcactus->start_construction(num_vertices);
         stcactus->resizePositions(contract->getOriginalNodes());
         s = contract->getCurrentPosition(contained);
-        node_bucket_pq pq(num_vertices, mincut + 1);
+        // vertices are ordered by their connectivity (at most mincut) to the
+        // vertices before them, equal ones by component number. As every vertex
+        // is a neighbour of all others, scanning for the next vertex is as fast
+        // as updating its neighbours. A bucket queue would need memory linear
+        // in mincut.
+        std::vector<EdgeWeight> connectivity(num_vertices, 0);
+        std::vector<bool> is_ordered(num_vertices, false);
+        is_ordered[s] = true;
         for (NodeID n = 0; n < num_vertices; ++n) {
             stcactus->new_node();
-            if (n != s)
-                pq.insert(n, 0);
         }
         for (EdgeID e : contract->edges_of(s)) {
             NodeID tgt = contract->getEdgeTarget(s, e);
-            pq.increaseKey(tgt, contract->getEdgeWeight(s, e));
+            connectivity[tgt] = contract->getEdgeWeight(s, e);
         }
         std::vector<NodeID> node_mapping(contract->number_of_nodes());
         std::vector<NodeID> rev_node_mapping(contract->number_of_nodes());
@@ -385,14 +389,19 @@ class recursive_cactus {
             stcactus->setCurrentPosition(v, 0);
         }
         for (NodeID n = 1; n < num_vertices; ++n) {
-            NodeID next = pq.deleteMax();
+            NodeID next = s;
+            for (NodeID v = 0; v < num_vertices; ++v) {
+                if (!is_ordered[v] && (next == s || connectivity[v]
+                                       >= connectivity[next])) {
+                    next = v;
+                }
+            }
+            is_ordered[next] = true;
             for (EdgeID e : contract->edges_of(next)) {
                 NodeID tgt = contract->getEdgeTarget(next, e);
-                EdgeWeight wgt = pq.getKey(tgt);
-                if (pq.contains(tgt)) {
-                    EdgeWeight new_wgt = wgt + contract->getEdgeWeight(next, e);
-                    pq.increaseKey(tgt, std::min(new_wgt, mincut));
-                }
+                EdgeWeight new_wgt = connectivity[tgt]
+                                     + contract->getEdgeWeight(next, e);
+                connectivity[tgt] = std::min(new_wgt, mincut);
             }
             node_mapping[next] = n;
             rev_node_mapping[n] = next;
-- 
2.43.0


From 7a9ee7929a0c0a61ca3069d966ded24c0a2d8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 68/71] fix: parallel certificate scan with large minimum cuts

---
 .../algorithm/exact_parallel_minimum_cut.h    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 287e3d5..81910f6 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -29,6 +29,7 @@
 #include "data_structure/priority_queues/fifo_node_bucket_pq.h"
 #include "data_structure/priority_queues/maxNodeHeap.h"
 #include "data_structure/priority_queues/node_bucket_pq.h"
+#include "data_structure/priority_queues/vecMaxNodeHeap.h"
 #include "tools/random_functions.h"
 #include "tools/timer.h"
 
@@ -181,21 +182,28 @@ class exact_parallel_minimum_cut : public minimum_cut {
 
 #pragma omp parallel for
         for (int i = 0; i < omp_get_num_threads(); ++i) {
-            fifo_node_bucket_pq pq(G->number_of_nodes(), mincut + 1);
+            // size of a bucket queue is linear in the minimum cut
+            std::unique_ptr<priority_queue_interface> pq;
+            if (mincut > 10000 && mincut > G->number_of_nodes()) {
+                pq = std::make_unique<vecMaxNodeHeap>(G->number_of_nodes());
+            } else {
+                pq = std::make_unique<fifo_node_bucket_pq>(
+                    G->number_of_nodes(), mincut + 1);
+            }
             std::vector<bool> blacklisted(G->number_of_nodes(), false);
-            std::vector<NodeID> r_v(G->number_of_nodes(), 0);
+            std::vector<EdgeWeight> r_v(G->number_of_nodes(), 0);
             std::vector<bool> local_visited(G->number_of_nodes(), false);
 
             NodeID starting_node = start_nodes[i];
             NodeID current_node = starting_node;
 
-            pq.insert(current_node, 0);
+            pq->insert(current_node, 0);
 
             timer t;
             size_t elements = 0;
 
-            while (!pq.empty()) {
-                current_node = pq.deleteMax();
+            while (!pq->empty()) {
+                current_node = pq->deleteMax();
                 elements++;
                 local_visited[current_node] = true;
 
@@ -224,10 +232,10 @@ class exact_parallel_minimum_cut : public minimum_cut {
                                              mincut);
                                 r_v[tgt] = new_rv;
                                 if (!visited[tgt] && !local_visited[tgt]) {
-                                    if (pq.contains(tgt)) {
-                                        pq.increaseKey(tgt, new_rv);
+                                    if (pq->contains(tgt)) {
+                                        pq->increaseKey(tgt, new_rv);
                                     } else {
-                                        pq.insert(tgt, new_rv);
+                                        pq->insert(tgt, new_rv);
                                     }
                                 }
                             }
-- 
2.43.0


From b021795dfa1dd78a699ba19cdbf7baffa66a04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 69/71] fix: parallel cactus starts from the known minimum cut

---
 lib/parallel/algorithm/parallel_cactus.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index cded590..422ea73 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -86,7 +86,7 @@ class parallel_cactus : public minimum_cut {
         EdgeWeight mincut = graphs.back()->getMinDegree();
         recursive_cactus<GraphPtr> rc;
         exact_parallel_minimum_cut<GraphPtr> mc;
-        if (known_mincut != UNDEFINED_NODE) {
+        if (known_mincut == UNDEFINED_NODE) {
 #ifdef PARALLEL
             viecut<GraphPtr> heuristic_mc;
             auto G2 = graphs.back();
-- 
2.43.0


From 86e7488be1a08ccfd316e980f754ccf1a115b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:34 +0000
Subject: [PATCH 70/71] fix: memory of the dynamic cactus cache does not depend
 on the cut value

---
 .../global_mincut/dynamic/dynamic_mincut.h    | 54 ++++++++++---------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 883b091..396d427 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -11,6 +11,7 @@
 
 #pragma once
 
+#include <map>
 #include <tuple>
 #include <unordered_set>
 #include <vector>
@@ -38,10 +39,11 @@ class dynamic_mincut {
 
     size_t numCachedMincuts;
     EdgeWeight lowestCachedMincut;
-    std::vector<mutableGraphPtr> cachedCactus;
-    std::vector<std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > >
+    // by value of the minimum cut, which can be much larger than the graph
+    std::map<EdgeWeight, mutableGraphPtr> cachedCactus;
+    std::map<EdgeWeight, std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > >
     cachedInserts;
-    std::vector<bool> currentlyCaching;
+    std::map<EdgeWeight, bool> currentlyCaching;
     push_relabel<true, false> pr;
 
 #ifdef PARALLEL
@@ -82,7 +84,7 @@ class dynamic_mincut {
         }
 
         if (mincut == lowestCachedMincut &&
-            2 * cachedInserts.size() < cachedCactus[mincut]->n()) {
+            2 * cachedInserts[mincut].size() < cachedCactus[mincut]->n()) {
             buildCactusFromCache(mincut);
         } else {
             auto [cut, outg, b] = cactus.findAllMincuts(
@@ -135,9 +137,10 @@ class dynamic_mincut {
         if (numCachedMincuts == 0) {
             lowestCachedMincut = UNDEFINED_EDGE;
         } else {
-            for (size_t i = mincut + 1; i < currentlyCaching.size(); ++i) {
-                if (currentlyCaching[i]) {
-                    lowestCachedMincut = i;
+            for (auto i = currentlyCaching.upper_bound(mincut);
+                 i != currentlyCaching.end(); ++i) {
+                if (i->second) {
+                    lowestCachedMincut = i->first;
                     break;
                 }
             }
@@ -145,10 +148,8 @@ class dynamic_mincut {
             if (cachedInserts[mincut].size()
                 + cachedInserts[lowestCachedMincut].size() > max_cache_size) {
                 if (numCachedMincuts > 0) {
-                    // delete all larger mincut cacti by shrinking the vector
-                    cachedCactus.resize(mincut + 1);
-                    cachedInserts.resize(mincut + 1);
-                    currentlyCaching.resize(mincut + 1);
+                    // delete all larger mincut cacti
+                    deleteLargerFromCache(mincut);
                     numCachedMincuts = 0;
                 }
                 lowestCachedMincut = UNDEFINED_EDGE;
@@ -335,20 +336,15 @@ class dynamic_mincut {
             lowestCachedMincut = cactusCut;
         }
 
-        if (cachedCactus.size() < cactusCut + 1) {
-            cachedCactus.resize(cactusCut + 1);
-            cachedInserts.resize(cactusCut + 1);
-            currentlyCaching.resize(cactusCut + 1, false);
-        }
-
         if (currentlyCaching[cactusCut]) {
             // replaces an older cactus of the same cut value. Its list of
             // insertions is still needed by the next larger cached cut
-            for (size_t i = cactusCut + 1; i < currentlyCaching.size(); ++i) {
-                if (currentlyCaching[i]) {
-                    cachedInserts[i].insert(cachedInserts[i].end(),
-                                            cachedInserts[cactusCut].begin(),
-                                            cachedInserts[cactusCut].end());
+            const auto& inserts = cachedInserts[cactusCut];
+            for (auto i = currentlyCaching.upper_bound(cactusCut);
+                 i != currentlyCaching.end(); ++i) {
+                if (i->second) {
+                    auto& next = cachedInserts[i->first];
+                    next.insert(next.end(), inserts.begin(), inserts.end());
                     break;
                 }
             }
@@ -361,6 +357,14 @@ class dynamic_mincut {
         currentlyCaching[cactusCut] = true;
     }
 
+    void deleteLargerFromCache(EdgeWeight cut) {
+        cachedCactus.erase(cachedCactus.upper_bound(cut), cachedCactus.end());
+        cachedInserts.erase(cachedInserts.upper_bound(cut),
+                            cachedInserts.end());
+        currentlyCaching.erase(currentlyCaching.upper_bound(cut),
+                               currentlyCaching.end());
+    }
+
     void cacheEdge(NodeID s, NodeID t, EdgeWeight wgt) {
         if (numCachedMincuts > 0
             && cachedInserts[lowestCachedMincut].size() <= max_cache_size) {
@@ -370,10 +374,8 @@ class dynamic_mincut {
                 numCachedMincuts--;
                 currentlyCaching[lowestCachedMincut] = false;
                 if (numCachedMincuts > 0) {
-                    // delete all larger mincut cacti by shrinking the vector
-                    cachedCactus.resize(lowestCachedMincut + 1);
-                    cachedInserts.resize(lowestCachedMincut + 1);
-                    currentlyCaching.resize(lowestCachedMincut + 1);
+                    // delete all larger mincut cacti
+                    deleteLargerFromCache(lowestCachedMincut);
                     numCachedMincuts = 0;
                 }
                 lowestCachedMincut = UNDEFINED_EDGE;
-- 
2.43.0


From ae4316c1c9ab9d6a63a2d326439ed6040bbb0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:28 +0000
Subject: [PATCH 71/71] fix: edge selection summed terminal connections in 16
 bits

findEdgeWithManyTerminals kept the weight of the connection to each terminal in
a uint16_t, so a weight that is a multiple of 65536 counted as no connection and
no edge was selected at all.
---
 lib/algorithms/multicut/edge_selection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/edge_selection.h b/lib/algorithms/multicut/edge_selection.h
index 53f50a8..52d4db1 100644
--- a/lib/algorithms/multicut/edge_selection.h
+++ b/lib/algorithms/multicut/edge_selection.h
@@ -112,8 +112,8 @@
 
 [[maybe_unused]] static std::tuple<NodeID, EdgeID> findEdgeWithManyTerminals(
     const problemPointer problem) {
-    std::unordered_map<NodeID, uint16_t> terms;
-    NodeID max_num = 0;
+    std::unordered_map<NodeID, EdgeWeight> terms;
+    EdgeWeight max_num = 0;
     NodeID max_ngbr = 0;
     std::unordered_set<NodeID> termset;
     for (const auto& term : problem->terminals) {
-- 
2.43.0

