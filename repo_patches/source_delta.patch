From 74f13d3e27f4fa822c02caee7ce4571960707489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:27 +0000
Subject: [PATCH 01/22] fix: raise an error when an unbuilt graph is reset or
 inspected

reset_search() and _vertex_neighbors() used the graph without checking
that one has been loaded. On a default-constructed Graph or NWGraph this
dereferenced a null pointer and crashed the interpreter.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 95a9dd2..9955394 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -37,6 +37,7 @@ namespace core
     // Computation
     void pygraph::reset_search()
     {
+        check_loaded();
         this->G->CUR_MAX_CLIQUE_SIZE = 1;
         this->finished_all = false;
         this->current_vertex = 0;
@@ -305,6 +306,7 @@ namespace core
 
     std::set<u64> pygraph::get_vertex_data(u64 i) const
     {
+        check_loaded();
         if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
         return this->G->vertex_data(i);
     }
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 4da54a6..ed46d12 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -36,6 +36,7 @@ namespace core
     // Computation
     void pynwgraph::reset_search()
     {
+        check_loaded();
         this->G->CUR_MAX_CLIQUE_SIZE = 0;
         this->finished_all = false;
         this->current_vertex = 0;
@@ -289,6 +290,7 @@ namespace core
 
     std::pair<double, std::set<u64>> pynwgraph::get_vertex_data(u64 i) const
     {
+        check_loaded();
         if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
         return this->G->vertex_data(i);
     }
-- 
2.43.0


From 49d65f54fb2e0cd28975bc83912db0289ebb9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:43 +0000
Subject: [PATCH 02/22] fix: make n_edges the number of edges stored in the
 graph

The edge count was taken from the input, before duplicates and loops are
dropped, and was halved even for asymmetric matrices. to_edgelist() sizes
its output with it, so an asymmetric matrix made it write past the end of
the array, and duplicate edges left uninitialised rows.
---
 src/cliquematch/core/pygraph.cpp   | 7 ++++---
 src/cliquematch/core/pynwgraph.cpp | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 9955394..4b8e063 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -24,9 +24,10 @@ namespace core
                              std::pair<std::vector<u64>, std::vector<u64>>&& edges)
     {
         this->nvert = n_vertices;
-        this->nedges = n_edges;
-        this->G = std::make_shared<detail::graph>(this->nvert, this->nedges,
-                                                  std::move(edges));
+        this->G = std::make_shared<detail::graph>(this->nvert, n_edges, std::move(edges));
+        // loops, duplicates and invalid edges are dropped, count what is stored
+        this->nedges = 0;
+        this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pygraph::check_loaded() const
     {
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index ed46d12..58c8f36 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -23,9 +23,11 @@ namespace core
                                std::vector<double>&& weights)
     {
         this->nvert = n_vertices;
-        this->nedges = n_edges;
-        this->G = std::make_shared<detail::nwgraph>(
-            this->nvert, this->nedges, std::move(edges), std::move(weights));
+        this->G = std::make_shared<detail::nwgraph>(this->nvert, n_edges,
+                                                    std::move(edges), std::move(weights));
+        // loops, duplicates and invalid edges are dropped, count what is stored
+        this->nedges = 0;
+        this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pynwgraph::check_loaded() const
     {
-- 
2.43.0


From 1699f272bc846ff2f1c6c027e09d1889d0b2d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:59 +0000
Subject: [PATCH 03/22] fix: keep vertex weights aligned in
 NWGraph.from_adjlist

The other constructors put the weight of the sentinel vertex in front of
the user's weights. from_adjlist did not, so vertex v got the weight of
vertex v + 1 and the last vertex read past the end of the array.
---
 src/cliquematch/core/pynwgraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 58c8f36..34b27e5 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -233,6 +233,7 @@ namespace core
             }
         }
         if (e / 2 != n_edges) throw CM_ERROR("Number of edges don't match!\n");
+        weights.insert(weights.begin(), 0);  // weight of the sentinel
         pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(weights));
         return pg;
     }
-- 
2.43.0


From fea18c2d993b3f3ad0d75bfda5739e863abd86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:23 +0000
Subject: [PATCH 04/22] fix: enumerate cliques rooted at the first vertex

The enumerators advance to the next vertex before searching it, but were
constructed at vertex 1 already, so vertex 1 was never searched.
all_cliques(3) on a triangle returned nothing.
---
 src/cliquematch/detail/graph/dfs.h        | 4 +++-
 src/cliquematch/detail/nwgraph/nwclique.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs.h b/src/cliquematch/detail/graph/dfs.h
index 03b7337..5f4a238 100644
--- a/src/cliquematch/detail/graph/dfs.h
+++ b/src/cliquematch/detail/graph/dfs.h
@@ -68,7 +68,9 @@ namespace detail
         u64 process_graph(graph&);
         void process_vertex(graph&);
         bool load_vertex(graph&);
-        CliqueEnumerator(u64 size) : cur(1), REQUIRED_SIZE(size){};
+        // process_vertex moves to the next vertex before searching, so start behind
+        // the first vertex; the search for cliques of size 1 starts at vertex 1
+        CliqueEnumerator(u64 size) : cur(size == 1 ? 1 : 0), REQUIRED_SIZE(size){};
         CliqueEnumerator() = delete;
         ~CliqueEnumerator() = default;
     };
diff --git a/src/cliquematch/detail/nwgraph/nwclique.h b/src/cliquematch/detail/nwgraph/nwclique.h
index 65da05a..80cd5c7 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.h
+++ b/src/cliquematch/detail/nwgraph/nwclique.h
@@ -82,7 +82,9 @@ namespace detail
         u64 process_graph(nwgraph&);
         void process_vertex(nwgraph&);
         bool load_vertex(nwgraph&);
-        NWCliqueEnumerator(double weight) : cur(1), REQUIRED_WEIGHT(weight){};
+        // process_vertex moves to the next vertex before searching, so start behind
+        // the first vertex
+        NWCliqueEnumerator(double weight) : cur(0), REQUIRED_WEIGHT(weight){};
         NWCliqueEnumerator() = delete;
         ~NWCliqueEnumerator() = default;
     };
-- 
2.43.0


From 7037fd9ba46469d62a5606e1a3837c812b94de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:30 +0000
Subject: [PATCH 05/22] fix: keep bitsets valid when the search memory is
 enlarged

Enlarging edge_bits can move it, but the bitset of every vertex kept
pointing to the old memory. The check for enlarging also wrapped around
for graphs without enough edges. Searching small graphs such as a single
edge or a graph without edges corrupted the heap.
---
 src/cliquematch/detail/graph/graph.cpp     | 9 ++++++---
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index 43a2506..ff44952 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -113,7 +113,8 @@ namespace detail
 
         const u64 size_per_step =
             (max_degree % BITS_PER_U64 != 0) + max_degree / BITS_PER_U64;
-        const u64 spread = (search_end - search_start);
+        // search_start is past the end if every vertex uses up its share of edge_bits
+        const u64 spread = search_end > search_start ? search_end - search_start : 0;
         const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);
         /*
          * Available memory in edge_bits ~= (|V| + 2|E|) - ceil(2|E|/64) max.
@@ -132,9 +133,11 @@ namespace detail
         {
             std::cerr << "search spread: " << spread
                       << "; max requirement: " << max_space << "; ratio = "
-                      << (1.0 * (search_end - search_start)) / (max_space) << std::endl;
-            edge_bits.resize(eb_size + max_space + 1);
+                      << (1.0 * spread) / (max_space) << std::endl;
+            edge_bits.resize(search_start + max_space + 1);
             search_end = edge_bits.size();
+            // resizing may move the data, so point the bitsets to the new location
+            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);
         }
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 9782456..4a9ab2f 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -114,7 +114,8 @@ namespace detail
 
         const u64 size_per_step =
             (max_neighbors % BITS_PER_U64 != 0) + max_neighbors / BITS_PER_U64;
-        const u64 spread = (search_end - search_start);
+        // search_start is past the end if every vertex uses up its share of edge_bits
+        const u64 spread = search_end > search_start ? search_end - search_start : 0;
         const u64 max_space = 2 * (max_depth + 1) * (size_per_step);
         /*
          * Available memory in edge_bits ~= (|V| + 2|E|) - ceil(2|E|/64) max.
@@ -133,9 +134,11 @@ namespace detail
         {
             std::cerr << "search spread: " << spread
                       << "; max requirement: " << max_space << "; ratio = "
-                      << (1.0 * (search_end - search_start)) / (max_space) << std::endl;
-            edge_bits.resize(eb_size + max_space + 1);
+                      << (1.0 * spread) / (max_space) << std::endl;
+            edge_bits.resize(search_start + max_space + 1);
             search_end = edge_bits.size();
+            // resizing may move the data, so point the bitsets to the new location
+            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);
         }
     }
 
-- 
2.43.0


From 44639f7d2d01080da660c4ee347995cd8d167c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:37 +0000
Subject: [PATCH 06/22] fix: do not return the sentinel vertex as a clique

The sentinel has the same bound as any isolated vertex and comes first,
so the search on a graph without edges returned [0].
---
 src/cliquematch/detail/graph/graph.cpp     | 3 ++-
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index ff44952..e621618 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -84,7 +84,8 @@ namespace detail
 
         // this loop doesn't benefit from being parallelized
         // because the CLIQUE_LIMIT check requires atomics
-        for (cur = 0; cur < size; cur++)
+        // (vertex 0 is a sentinel, so it cannot be the location of a clique)
+        for (cur = 1; cur < size; cur++)
         {
             mcs = 0;
             for (j = 0; j < this->vertices[cur].spos; j++)
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 4a9ab2f..2fe5199 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -81,7 +81,8 @@ namespace detail
 
         // this loop doesn't benefit from being parallelized
         // because the CLIQUE_LIMIT check requires atomics
-        for (cur = 0; cur < size; cur++)
+        // (vertex 0 is a sentinel, so it cannot be the location of a clique)
+        for (cur = 1; cur < size; cur++)
         {
             mcs = 0;
             depth = 0;
@@ -104,7 +105,7 @@ namespace detail
                 if (vertices[vert].N >= vertices[cur].N) depth += 1;
             }
             vertices[cur].mcs = mcs;
-            if (mcs > CLIQUE_LIMIT)
+            if (mcs > CLIQUE_LIMIT || cur == 1)
             {
                 CUR_MAX_CLIQUE_LOCATION = cur;
                 CLIQUE_LIMIT = mcs;
-- 
2.43.0


From c9dac2abfd9fc0c385dbec37e9e53af7b8a845ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:32 +0000
Subject: [PATCH 07/22] fix: allow correspondence sets with a single element

A set with one element has no pairwise distances, and searching the empty
list of distances read far outside of it.
---
 src/cliquematch/templates/pair_dist.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cliquematch/templates/pair_dist.hpp b/src/cliquematch/templates/pair_dist.hpp
index 2d5fa7c..9c92a4b 100644
--- a/src/cliquematch/templates/pair_dist.hpp
+++ b/src/cliquematch/templates/pair_dist.hpp
@@ -30,6 +30,11 @@ namespace ext
     template <class T>
     short binary_find2(const pair_dist<T> *const a, const u64 N, const T &val, u64 &loc)
     {
+        if (N == 0)
+        {
+            loc = 0;
+            return -1;
+        }
         u64 beg = 0, end = N - 1, mid = beg + ((end - beg) >> 1);
         if (a[end] < val)
         {
-- 
2.43.0


From 17f7179c92df72def9f1df4e3174e6c606251fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:53 +0000
Subject: [PATCH 08/22] fix: match distances only if they differ by at most
 epsilon

The range of matching distances was taken from two binary searches, which
stop at a neighboring element if the bound itself is not in the list, and
anywhere in a run of equal elements. Pairs outside the range were added
as edges, and pairs at the boundary were missed: with epsilon = 0 only one
pair was matched for each distance.
---
 src/cliquematch/templates/ext_template.hpp | 30 ++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 001b6f1..9252640 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -39,22 +39,21 @@ namespace ext
         u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);
 
         EpsType cur_ub = 0, cur_lb = 0;
-        u64 ub_loc = len2, lb_loc = 0;
-
-        short found1, found2;
+        u64 lb_loc = 0;
 
         for (i = 0; i < len1; i++)
         {
             cur_lb = s1.dists[i].dist - epsilon;
             cur_ub = cur_lb + 2 * epsilon;
 
-            found1 = binary_find2(base, len2, cur_lb, lb_loc);
-            if (found1 == -1) break;
-            found2 = binary_find2(base, len2, cur_ub, ub_loc);
-            if (found2 == -1) ub_loc = len2 - 1;
+            if (binary_find2(base, len2, cur_lb, lb_loc) == -1) break;
+            // the search may end anywhere in a run of distances equal to cur_lb,
+            // or next to it if there are none
+            while (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;
 
-            for (j = lb_loc; j <= ub_loc; j++)
+            for (j = lb_loc; j < len2 && !(base[j] > cur_ub); j++)
             {
+                if (base[j] < cur_lb) continue;
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
                 v2 = s1.dists[i].second * N + s2.dists[j].second + 1;
@@ -111,22 +110,21 @@ namespace ext
         u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);
 
         EpsType cur_ub = 0, cur_lb = 0;
-        u64 ub_loc = len2, lb_loc = 0;
-
-        short found1, found2;
+        u64 lb_loc = 0;
 
         for (i = 0; i < len1; i++)
         {
             cur_lb = s1.dists[i].dist - epsilon;
             cur_ub = cur_lb + 2 * epsilon;
 
-            found1 = binary_find2(base, len2, cur_lb, lb_loc);
-            if (found1 == -1) break;
-            found2 = binary_find2(base, len2, cur_ub, ub_loc);
-            if (found2 == -1) ub_loc = len2 - 1;
+            if (binary_find2(base, len2, cur_lb, lb_loc) == -1) break;
+            // the search may end anywhere in a run of distances equal to cur_lb,
+            // or next to it if there are none
+            while (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;
 
-            for (j = lb_loc; j <= ub_loc; j++)
+            for (j = lb_loc; j < len2 && !(base[j] > cur_ub); j++)
             {
+                if (base[j] < cur_lb) continue;
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
                 v2 = s1.dists[i].second * N + s2.dists[j].second + 1;
-- 
2.43.0


From bb1de72f353dc36039a2e812736b41f20570a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:16 +0000
Subject: [PATCH 09/22] fix: check the condition on both mappings of a pair

With use_cfunc_only=True the mapping (i1 -> j2, i2 -> j1) was accepted
whenever the condition held for (i1 -> j1, i2 -> j2), and never checked
otherwise. Conditions that are not symmetric got wrong edges.
---
 src/cliquematch/templates/ext_template.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 9252640..ca24924 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -219,16 +219,19 @@ namespace ext
                             edges.second.push_back(v2);
                             edges.first.push_back(v2);
                             edges.second.push_back(v1);
+                            no_of_edges++;
+                        }
 
-                            // ouch
+                        // the alternate mapping has to satisfy the condition as well
+                        if (cfunc(pts1, i1, i2, pts2, j2, j1))
+                        {
                             v1 = i2 * pts2_len + j1 + 1;
                             v2 = i1 * pts2_len + j2 + 1;
                             edges.first.push_back(v1);
                             edges.second.push_back(v2);
                             edges.first.push_back(v2);
                             edges.second.push_back(v1);
-
-                            no_of_edges += 2;
+                            no_of_edges++;
                         }
                     }
                 }
-- 
2.43.0


From 6643d3bc751be4d964dd672c6e0e2e1f2371a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:21 +0000
Subject: [PATCH 10/22] fix: restrict the second subgraph of IsoGraph to its
 own vertices

The neighbors in the second graph were intersected with the vertices
chosen from the first graph, so get_correspondence(return_indices=False)
returned wrong subgraphs or failed with a KeyError.
---
 src/cliquematch/wrappers/isograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/wrappers/isograph.py b/src/cliquematch/wrappers/isograph.py
index fb48e95..981051a 100644
--- a/src/cliquematch/wrappers/isograph.py
+++ b/src/cliquematch/wrappers/isograph.py
@@ -24,7 +24,7 @@ class IsoGraph(Graph):
 
     def _format_correspondence(self, indices):
         v1 = set(indices[0])
-        v2 = set(indices[0])
+        v2 = set(indices[1])
         G1 = dict()
         G2 = dict()
         mapping = dict()
-- 
2.43.0


From 0c79259c7038ff675b344e9933abb9a0610f3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:26 +0000
Subject: [PATCH 11/22] fix: make IsoGraph.all_correspondences work

It called len() on the graphs, which have no length, and always failed
with a TypeError.
---
 src/cliquematch/wrappers/isograph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/wrappers/isograph.py b/src/cliquematch/wrappers/isograph.py
index 981051a..d71fe46 100644
--- a/src/cliquematch/wrappers/isograph.py
+++ b/src/cliquematch/wrappers/isograph.py
@@ -112,11 +112,15 @@ class IsoGraph(Graph):
         offset = lambda l: [x + 1 for x in l]
         if return_indices:
             return WrappedIterator(
-                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
+                Graph._all_correspondences(
+                    self, self.S1.n_vertices, self.S2.n_vertices, size
+                ),
                 lambda x: [offset(x[0]), offset(x[1])],
             )
         else:
             return WrappedIterator(
-                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
+                Graph._all_correspondences(
+                    self, self.S1.n_vertices, self.S2.n_vertices, size
+                ),
                 lambda x: self._format_correspondence([offset(x[0]), offset(x[1])]),
             )
-- 
2.43.0


From 16e4d6e055671d37d508a3a8f0c7412cb6d24900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:33 +0000
Subject: [PATCH 12/22] fix: ignore edges to vertex 0 when reading a file

Vertices are numbered from 1 and vertex 0 is the sentinel. An edge to
vertex 0 in a file was stored and counted like any other edge.
---
 src/cliquematch/detail/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index 3e254e4..821cc45 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -55,7 +55,7 @@ namespace detail
             f.ignore(2048, '\n');
 
             // ignore any invalid edges or loops
-            if (v1 > n_vert || v2 > n_vert || v1 == v2)
+            if (v1 == 0 || v2 == 0 || v1 > n_vert || v2 > n_vert || v1 == v2)
             {
                 (v1 != v2) ? n_invalids++ : n_loops++;
                 Edges.first[j] = 0;
-- 
2.43.0


From 68f21c71ea8dcb7e7276f7e3a850fa5ae6eebbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:05 +0000
Subject: [PATCH 13/22] fix: avoid shifting by 64 in the padding mask

If the number of bits is a multiple of 64 every bit of the last word is
in use and the shift count was 64, which is undefined.
---
 src/cliquematch/detail/gbits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/gbits.h b/src/cliquematch/detail/gbits.h
index 2f091c0..2fd39b4 100644
--- a/src/cliquematch/detail/gbits.h
+++ b/src/cliquematch/detail/gbits.h
@@ -95,7 +95,7 @@ namespace detail
             this->data = ext_data;  // CALLER gives me the data,
             // they should have initialized it and checked bounds
             this->valid_len = n_bits;
-            this->pad_cover = ALL_ONES << (64 - (n_bits & 0x3fu));
+            this->pad_cover = ALL_ONES << ((64 - (n_bits & 0x3fu)) & 0x3fu);
             if (cleanout) this->clear();
         }
         void clear(const u64 N = 0)
-- 
2.43.0


From 601e25c03e4178331abe7e5b0b1bf4160ac6e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:20 +0000
Subject: [PATCH 14/22] fix: start over after a graph is rebuilt

Building the edges again replaced the graph but kept the position of the
previous search, so search_done was True for a graph that has not been
searched, and continue_search skipped most of it.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 4b8e063..5d85872 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -27,6 +27,8 @@ namespace core
         this->G = std::make_shared<detail::graph>(this->nvert, n_edges, std::move(edges));
         // loops, duplicates and invalid edges are dropped, count what is stored
         this->nedges = 0;
+        this->current_vertex = 0;
+        this->finished_all = false;
         this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pygraph::check_loaded() const
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 34b27e5..bd140be 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -27,6 +27,8 @@ namespace core
                                                     std::move(edges), std::move(weights));
         // loops, duplicates and invalid edges are dropped, count what is stored
         this->nedges = 0;
+        this->current_vertex = 0;
+        this->finished_all = false;
         this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pynwgraph::check_loaded() const
-- 
2.43.0


From 5861c759005bb02ed51b6fbf89cea83a1c4d92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:34 +0000
Subject: [PATCH 15/22] fix: do not report the search as done before the last
 vertex

Vertices are numbered from 1 to nvert, so an interrupted search that still
has to process the last vertex has current_vertex == nvert.
---
 src/cliquematch/core/pygraph.cpp   | 2 +-
 src/cliquematch/core/pynwgraph.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 5d85872..ec5e7fb 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -62,7 +62,7 @@ namespace core
         this->G->CLIQUE_LIMIT =
             upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
-        finished_all = (current_vertex >= nvert);
+        finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
         if (lower_bound > ans.size())
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index bd140be..059ccea 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -57,7 +57,7 @@ namespace core
         this->G->CLIQUE_LIMIT =
             upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs);
-        finished_all = (current_vertex >= nvert);
+        finished_all = (current_vertex > nvert);
 
         auto ans = this->G->get_max_clique();
         if (lower_bound > this->G->get_clique_weight(ans))
-- 
2.43.0


From aba981ba7f782c929da2b2b68ff5c8b4d7bc2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:51 +0000
Subject: [PATCH 16/22] fix: print the value of search_done

The condition was inverted, so an unsearched graph was printed with
search_done=True.
---
 src/cliquematch/core/pygraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index ec5e7fb..9920a51 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -109,7 +109,7 @@ namespace core
         ss << "cliquematch.core.Graph object at " << this << "(";
         ss << "n_vertices=" << this->nvert << ",";
         ss << "n_edges=" << this->nedges << ",";
-        ss << "search_done=" << (this->current_vertex < this->nvert ? "True" : "False");
+        ss << "search_done=" << (this->finished_all ? "True" : "False");
         ss << ")";
         return ss.str();
     }
-- 
2.43.0


From eca142f08fb4f5d854d810ff09b1237f8e855500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:13 +0000
Subject: [PATCH 17/22] fix: reject edge lists with a single column

Both columns are read without checking bounds.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 9920a51..62a912d 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -133,6 +133,8 @@ namespace core
         u64 no_of_edges = 0;
         u64 v1, v2;
         auto edge_list = edge_list1.unchecked<2>();
+        if (edge_list.shape(1) < 2)
+            throw CM_ERROR("Each edge must contain two vertices\n");
         std::pair<std::vector<u64>, std::vector<u64>> edges;
         edges.first.resize(no_of_vertices + 1);
         edges.second.resize(no_of_vertices + 1);
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 059ccea..0d076df 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -115,6 +115,8 @@ namespace core
         u64 no_of_edges = 0;
         u64 v1, v2;
         auto edge_list = edge_list1.unchecked<2>();
+        if (edge_list.shape(1) < 2)
+            throw CM_ERROR("Each edge must contain two vertices\n");
         auto weights = weights1.unchecked<1>();
 
         std::pair<std::vector<u64>, std::vector<u64>> edges;
-- 
2.43.0


From 47ff2a5ec1110c83b7a74e7b2b931b1c7045e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:18 +0000
Subject: [PATCH 18/22] fix: use the weight of the right neighbor in the
 weighted heuristic

The potential of the candidates was computed after moving to the next
entry, so it used the weight of an unrelated (or uninitialised) neighbor.
---
 src/cliquematch/detail/nwgraph/nw_heuristic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
index 6e2a313..782607f 100644
--- a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
@@ -51,10 +51,10 @@ namespace detail
             if (G.vertices[neighbors[j].id].degree <= G.vertices[cur].degree) continue;
             neighbors[j].N = G.vertices[neighbors[j].id].N;
             neighbors[j].degree = G.vertices[neighbors[j].id].degree;
+            cand_potential += G.vertices[neighbors[j].id].weight;
             j++;
             cand.set(i);
             candidates_left++;
-            cand_potential += G.vertices[neighbors[j].id].weight;
         }
         for (i = G.vertices[cur].spos + 1; i < G.vertices[cur].N; i++)
         {
@@ -62,10 +62,10 @@ namespace detail
             if (G.vertices[neighbors[j].id].degree < G.vertices[cur].degree) continue;
             neighbors[j].N = G.vertices[neighbors[j].id].N;
             neighbors[j].degree = G.vertices[neighbors[j].id].degree;
+            cand_potential += G.vertices[neighbors[j].id].weight;
             j++;
             cand.set(i);
             candidates_left++;
-            cand_potential += G.vertices[neighbors[j].id].weight;
         }
         if (candidates_left <= G.CUR_MAX_CLIQUE_SIZE) return;
         std::sort(neighbors.begin(), neighbors.begin() + candidates_left,
-- 
2.43.0


From ac1aa0fa84da8646191ec41b37d2cc5b2644144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:25 +0000
Subject: [PATCH 19/22] fix: keep the bound of a vertex when its search is cut
 short

The searches overwrote the upper bound of a vertex with the size of the
clique just found, although the vertex may be part of a larger one that
the search did not reach because of a time limit or an upper bound. Later
searches and enumerations then skipped the vertex.
---
 src/cliquematch/detail/graph/dfs_recurse.cpp | 1 -
 src/cliquematch/detail/graph/dfs_stack.cpp   | 1 -
 src/cliquematch/detail/nwgraph/nw_dfs.cpp    | 1 -
 3 files changed, 3 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs_recurse.cpp b/src/cliquematch/detail/graph/dfs_recurse.cpp
index cf9d679..0012962 100644
--- a/src/cliquematch/detail/graph/dfs_recurse.cpp
+++ b/src/cliquematch/detail/graph/dfs_recurse.cpp
@@ -94,7 +94,6 @@ namespace detail
         if (candidates_left == 0)
         {
             G.vertices[cur].bits.copy_data(res);
-            G.vertices[cur].mcs = clique_potential;
             G.CUR_MAX_CLIQUE_SIZE = clique_potential;
             G.CUR_MAX_CLIQUE_LOCATION = cur;
             return;
diff --git a/src/cliquematch/detail/graph/dfs_stack.cpp b/src/cliquematch/detail/graph/dfs_stack.cpp
index 2c8017b..7580682 100644
--- a/src/cliquematch/detail/graph/dfs_stack.cpp
+++ b/src/cliquematch/detail/graph/dfs_stack.cpp
@@ -141,7 +141,6 @@ namespace detail
                         // include vert as part of the clique and copy
                         cur_state.res.set(j);
                         G.vertices[cur].bits.copy_data(cur_state.res);
-                        G.vertices[cur].mcs = clique_potential;
                         G.CUR_MAX_CLIQUE_SIZE = clique_potential;
                         G.CUR_MAX_CLIQUE_LOCATION = cur;
 
diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 55758a0..a6d289c 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -126,7 +126,6 @@ namespace detail
                         // include vert as part of the clique and copy
                         cur_state.res.set(j);
                         G.vertices[cur].bits.copy_data(cur_state.res);
-                        G.vertices[cur].mcs = clique_potential;
                         G.CUR_MAX_CLIQUE_SIZE = clique_potential;
                         G.CUR_MAX_CLIQUE_LOCATION = cur;
 
-- 
2.43.0


From 7e6803b4a2bab0ca319ef4ee780e2f65ae2dd2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:41 +0000
Subject: [PATCH 20/22] fix: apply the upper bound only to the call it is given
 to

The upper bound replaced the limit stored in the graph, so every later
search was limited as well, even after reset_search().
---
 src/cliquematch/core/pygraph.cpp   | 6 ++++--
 src/cliquematch/core/pynwgraph.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 62a912d..61ccbc0 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -59,9 +59,11 @@ namespace core
         this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
-        this->G->CLIQUE_LIMIT =
-            upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
+        // the upper bound applies only to this call
+        const u64 clique_limit = this->G->CLIQUE_LIMIT;
+        this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
+        this->G->CLIQUE_LIMIT = clique_limit;
         finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
         if (lower_bound > ans.size())
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 0d076df..0dc9eee 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -54,9 +54,11 @@ namespace core
         this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
-        this->G->CLIQUE_LIMIT =
-            upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
+        // the upper bound applies only to this call
+        const double clique_limit = this->G->CLIQUE_LIMIT;
+        this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs);
+        this->G->CLIQUE_LIMIT = clique_limit;
         finished_all = (current_vertex > nvert);
 
         auto ans = this->G->get_max_clique();
-- 
2.43.0


From 0ad775d6d266468c209ba2c909fd5eb2928f63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 21/22] fix: consider isolated vertices in the weighted search

Only cliques with at least two vertices were recorded, so an isolated
vertex was never returned even if its weight is the maximum.
---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index a6d289c..a2d1af0 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -65,6 +65,14 @@ namespace detail
             return;
         }
 
+        if (G.vertices[cur].weight > G.CUR_MAX_CLIQUE_SIZE)
+        {
+            // the vertex alone beats the existing maximum (it may be isolated)
+            G.vertices[cur].bits.copy_data(x.res);
+            G.CUR_MAX_CLIQUE_SIZE = G.vertices[cur].weight;
+            G.CUR_MAX_CLIQUE_LOCATION = cur;
+        }
+
         x.potential = this->clique_potential;
 
         // always use std::move when pushing on to stack
-- 
2.43.0


From 7f8b864ff5299b227cf106a2aa27018940fb2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:20 +0000
Subject: [PATCH 22/22] fix: make reset_search forget the clique found before

The vertex holding the best clique and the members kept for every vertex
survived a reset. A heuristic or bounded search after a reset then started
from that vertex and gave another answer than on a new graph.
---
 src/cliquematch/core/pygraph.cpp           |  1 +
 src/cliquematch/core/pynwgraph.cpp         |  1 +
 src/cliquematch/detail/graph/graph.cpp     | 13 +++++++++++++
 src/cliquematch/detail/graph/graph.h       |  3 +++
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 13 +++++++++++++
 src/cliquematch/detail/nwgraph/nwgraph.h   |  3 +++
 6 files changed, 34 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 61ccbc0..d64416f 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -41,6 +41,7 @@ namespace core
     void pygraph::reset_search()
     {
         check_loaded();
+        this->G->reset_cliques();
         this->G->CUR_MAX_CLIQUE_SIZE = 1;
         this->finished_all = false;
         this->current_vertex = 0;
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 0dc9eee..1928ce1 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -41,6 +41,7 @@ namespace core
     void pynwgraph::reset_search()
     {
         check_loaded();
+        this->G->reset_cliques();
         this->G->CUR_MAX_CLIQUE_SIZE = 0;
         this->finished_all = false;
         this->current_vertex = 0;
diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index e621618..58ae7ba 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -19,6 +19,7 @@ namespace detail
         search_start = 0;
         search_end = 0;
         CUR_MAX_CLIQUE_LOCATION = 0;
+        FIRST_LOCATION = 0;
         CUR_MAX_CLIQUE_SIZE = 0;
         CLIQUE_LIMIT = 0xFFFF;
     }
@@ -112,6 +113,8 @@ namespace detail
             }
         }
 
+        FIRST_LOCATION = CUR_MAX_CLIQUE_LOCATION;
+
         const u64 size_per_step =
             (max_degree % BITS_PER_U64 != 0) + max_degree / BITS_PER_U64;
         // search_start is past the end if every vertex uses up its share of edge_bits
@@ -142,6 +145,16 @@ namespace detail
         }
     }
 
+    void graph::reset_cliques()
+    {
+        CUR_MAX_CLIQUE_LOCATION = FIRST_LOCATION;
+        for (auto& v : vertices)
+        {
+            v.bits.clear();
+            v.bits.set(v.spos);
+        }
+    }
+
     void graph::disp() const
     {
         for (u64 i = 0; i < this->n_vert; i++)
diff --git a/src/cliquematch/detail/graph/graph.h b/src/cliquematch/detail/graph/graph.h
index 6783b32..f5204ee 100644
--- a/src/cliquematch/detail/graph/graph.h
+++ b/src/cliquematch/detail/graph/graph.h
@@ -104,6 +104,7 @@ namespace detail
         u64 CLIQUE_LIMIT;             // upper bound on the clique size for this graph
         u64 CUR_MAX_CLIQUE_SIZE;      // size of the CUR_MAX_CLIQUE
         u64 CUR_MAX_CLIQUE_LOCATION;  // vertex ID containing the CUR_MAX_CLIQUE
+        u64 FIRST_LOCATION;           // vertex ID from which a new search starts
 
         // basic functions
         graph();
@@ -114,6 +115,8 @@ namespace detail
         // call with starting vertex to compute cliques
         double find_max_cliques(u64& start_vert, bool use_heur = false,
                                 bool use_dfs = true, double time_limit = -1);
+        // forget the cliques found so far
+        void reset_cliques();
         // return the overall max clique
         std::vector<u64> get_max_clique() const;
         // return the max clique stored for vertex i
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 2fe5199..3786dca 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -20,6 +20,7 @@ namespace detail
         max_depth = 0;
 
         CUR_MAX_CLIQUE_LOCATION = 0;
+        FIRST_LOCATION = 0;
         CUR_MAX_CLIQUE_SIZE = 0;
         max_degree = 0;
         CLIQUE_LIMIT = 0xFFFF;
@@ -113,6 +114,8 @@ namespace detail
             if (depth > max_depth) max_depth = depth;
         }
 
+        FIRST_LOCATION = CUR_MAX_CLIQUE_LOCATION;
+
         const u64 size_per_step =
             (max_neighbors % BITS_PER_U64 != 0) + max_neighbors / BITS_PER_U64;
         // search_start is past the end if every vertex uses up its share of edge_bits
@@ -143,6 +146,16 @@ namespace detail
         }
     }
 
+    void nwgraph::reset_cliques()
+    {
+        CUR_MAX_CLIQUE_LOCATION = FIRST_LOCATION;
+        for (auto& v : vertices)
+        {
+            v.bits.clear();
+            v.bits.set(v.spos);
+        }
+    }
+
     void nwgraph::disp() const
     {
         for (u64 i = 0; i < this->n_vert; i++)
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.h b/src/cliquematch/detail/nwgraph/nwgraph.h
index 7ff10e8..b2185fc 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.h
+++ b/src/cliquematch/detail/nwgraph/nwgraph.h
@@ -60,6 +60,7 @@ namespace detail
         double CLIQUE_LIMIT;          // upper bound on the clique size for this graph
         double CUR_MAX_CLIQUE_SIZE;   // size of the CUR_MAX_CLIQUE
         u64 CUR_MAX_CLIQUE_LOCATION;  // vertex ID containing the CUR_MAX_CLIQUE
+        u64 FIRST_LOCATION;           // vertex ID from which a new search starts
 
         // basic functions
         nwgraph();
@@ -71,6 +72,8 @@ namespace detail
         // call with starting vertex to compute cliques
         void find_max_cliques(u64& start_vert, bool use_heur = false,
                               bool use_dfs = true);
+        // forget the cliques found so far
+        void reset_cliques();
         // return the overall max clique
         std::vector<u64> get_max_clique() const;
         // return the max clique stored for vertex i
-- 
2.43.0

