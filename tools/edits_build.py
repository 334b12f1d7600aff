"""Further edits of the builders, queries and wrappers; same layout as in edits.py."""
PG, NW, MM, PH, NWH = "core/pygraph.cpp", "core/pynwgraph.cpp", "detail/mmio.cpp", "core/pygraph.h", "core/pynwgraph.h"
ET, RS, PD = "templates/ext_template.hpp", "templates/relset.hpp", "templates/pair_dist.hpp"
GR, NG, AL, IS = "detail/graph/graph.cpp", "detail/nwgraph/nwgraph.cpp", "ext/Aligngraph.cpp", "ext/Isograph.cpp"
LA, ND = "wrappers/l2agraph.py", "detail/nwgraph/nw_dfs.cpp"
DS, EN, HE, NE, NH = "detail/graph/dfs_stack.cpp", "detail/graph/enumerate.cpp", "detail/graph/heuristic.cpp", "detail/nwgraph/nw_enumerate.cpp", "detail/nwgraph/nw_heuristic.cpp"
IT, IC, WR, CQ = "core/pyiterator.h", "core/pyiterator.cpp", "core/wrap_pygraph.cpp", "detail/graph/clique.cpp"
GG, ISO, LL, AG = "wrappers/_gen_graph.py", "wrappers/isograph.py", "wrappers/l2lgraph.py", "wrappers/aligngraph.py"

PUSH4 = """            edges.first.push_back(v1);
            edges.second.push_back(v2);
            edges.first.push_back(v2);
            edges.second.push_back(v1);
"""
HELPER = """    static void add_edge(std::pair<std::vector<u64>, std::vector<u64>>& edges, const u64 a, const u64 b)
    {
        edges.first.push_back(a);
        edges.second.push_back(b);
        edges.first.push_back(b);
        edges.second.push_back(a);
    }

"""
SELF = """        edges.first.resize(no_of_vertices + 1);
        edges.second.resize(no_of_vertices + 1);
        pygraph pg;

        for (u64 i = 0; i < edges.first.size(); i++)
        {
            edges.first[i] = i;
            edges.second[i] = i;
        }
"""
MATRIX = """            for (u64 i = 0; i < no_of_vertices; i++)
            {
                for (u64 j = 0; j < no_of_vertices; j++)
                {
                    if (adjmat(i, j) || i == j)
                    {
                        edges.first.push_back(i + 1);
                        edges.second.push_back(j + 1);
                        edges.first.push_back(j + 1);
                        edges.second.push_back(i + 1);
                        no_of_edges += (i != j);
                    }
                }
            }

            no_of_edges /= 2;
"""
DEC = """            t1 = (clique[i] - 1) / len2;
            t2 = (clique[i] - 1) % len2;
            ans.first.push_back(t1);
            ans.second.push_back(t2);
"""
PUSHE = """                Edges.first.push_back(v1);
                Edges.second.push_back(v2);
                Edges.first.push_back(v2);
                Edges.second.push_back(v1);
"""
REL = "    template <typename List1, typename List2, typename Delta1, typename Delta2,\n              typename EpsType>\n    std::pair<std::vector<u64>, std::vector<u64>> edges_from_relsets("
STEP = """            v = en->process_graph(*(pg.G));
            if (v > pg.nvert) break;
            return pg.G->get_max_clique(v);
        }
        throw pybind11::stop_iteration();
"""

MORE = [
    ("r30a", [(PG, "    pygraph from_edgelist(", HELPER + "    pygraph from_edgelist("), (PG, PUSH4, "            add_edge(edges, v1, v2);\n")], []),
    ("r30b", PG, SELF, """        pygraph pg;
        edges.first.reserve(no_of_vertices + 1);
        edges.second.reserve(no_of_vertices + 1);
        for (u64 v = 0; v <= no_of_vertices; v++)
        {
            edges.first.push_back(v);
            edges.second.push_back(v);
        }
""", []),
    ("r30c", PG, MATRIX, """            for (u64 i = 0; i < no_of_vertices; i++)
            {
                edges.first.push_back(i + 1);
                edges.second.push_back(i + 1);
                for (u64 j = i + 1; j < no_of_vertices; j++)
                {
                    if (!adjmat(i, j) && !adjmat(j, i)) continue;
                    edges.first.push_back(i + 1);
                    edges.second.push_back(j + 1);
                    edges.first.push_back(j + 1);
                    edges.second.push_back(i + 1);
                    no_of_edges++;
                }
            }
""", []),
    ("r30d", PG, """                if (j == 0 || j > n_vertices || j == i ||
                    edges[j].find(i) == edges[j].end())
                    throw CM_ERROR("Invalid edge in adjacency list!\\n");
""", """                const bool inside = 1 <= j && j <= n_vertices;
                if (!inside || i == j) throw CM_ERROR("Invalid edge in adjacency list!\\n");
                if (edges[j].count(i) == 0)
                    throw CM_ERROR("Invalid edge in adjacency list!\\n");
""", []),
    ("r30e", PG, """        if (this->G.get() == nullptr || this->nvert == 0)
            throw CM_ERROR("Graph is not initialized!!\\n");
""", """        const bool loaded = this->G && this->nvert > 0;
        if (loaded) return;
        throw CM_ERROR("Graph is not initialized!!\\n");
""", []),
    ("r30f", PG, """        if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
        return this->G->vertex_data(i);
""", """        if (i <= this->nvert) return this->G->vertex_data(i);
        throw CM_ERROR("Vertex index out of bounds");
""", []),
    ("r30g", PG, DEC, """            const u64 v = clique[i] - 1;
            t1 = v / len2;
            t2 = v - t1 * len2;
            ans.first.push_back(t1);
            ans.second.push_back(t2);
""", []),
    ("r30h", PG, """        for (i = 0; i < clique.size(); i++)
        {
            if (clique[i] == 0)
            {""", """        ans.first.reserve(clique.size());
        ans.second.reserve(clique.size());
        i = 0;
        for (const u64 v : clique)
        {
            if (v == 0)
            {""", ["NONE"]),
    ("r30i", [(MM, """        f >> n_vert;
        f >> dummy;
        f >> n_edges;
""", "        f >> n_vert >> dummy >> n_edges;\n"), (MM, """            if (v1 == 0 || v2 == 0 || v1 > n_vert || v2 > n_vert || v1 == v2)
            {
                (v1 != v2) ? n_invalids++ : n_loops++;
                Edges.first[j] = 0;
                Edges.second[j] = 0;
                Edges.first[j + 1] = 0;
                Edges.second[j + 1] = 0;
            }
            else
            {
                Edges.first[j] = v1;
                Edges.second[j] = v2;
                Edges.first[j + 1] = v2;
                Edges.second[j + 1] = v1;
            }
""", """            auto put = [&Edges](u64 at, u64 a, u64 b)
            {
                Edges.first[at] = a;
                Edges.second[at] = b;
                Edges.first[at + 1] = b;
                Edges.second[at + 1] = a;
            };
            const bool valid = v1 >= 1 && v2 >= 1 && v1 <= n_vert && v2 <= n_vert && v1 != v2;
            if (valid)
                put(j, v1, v2);
            else
            {
                if (v1 != v2) n_invalids++;
                else n_loops++;
                put(j, 0, 0);
            }
""")], []),
    ("r30j", [(ET, REL, """    template <typename Lists>
    void add_both(Lists& lists, const u64 a, const u64 b)
    {
        lists.first.push_back(a);
        lists.first.push_back(b);
        lists.second.push_back(b);
        lists.second.push_back(a);
    }

""" + REL), (ET, PUSHE, "                add_both(Edges, v1, v2);\n"), (ET, PUSHE, "                add_both(Edges, v1, v2);\n")], []),
    ("r30k", ET, """                v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
                v2 = s1.dists[i].second * N + s2.dists[j].second + 1;
""", """                const auto& a = s1.dists[i];
                const auto& b = s2.dists[j];
                v1 = N * a.first + b.first + 1;
                v2 = N * a.second + b.second + 1;
""", []),
    ("r30l", ET, """                if (!s1.symmetric && !s2.symmetric) continue;
                // if d(i,j) approx= d(i',j') then edge between (i,j') and (j,i')
                v1 = s1.dists[i].second * N + s2.dists[j].first + 1;
                v2 = s1.dists[i].first * N + s2.dists[j].second + 1;

                Edges.first.push_back(v1);
                Edges.second.push_back(v2);
                Edges.first.push_back(v2);
                Edges.second.push_back(v1);
                n_edges++;
""", """                if (s1.symmetric || s2.symmetric)
                {
                    const u64 w1 = s1.dists[i].second * N + s2.dists[j].first + 1;
                    const u64 w2 = s1.dists[i].first * N + s2.dists[j].second + 1;
                    Edges.first.push_back(w1);
                    Edges.second.push_back(w2);
                    Edges.first.push_back(w2);
                    Edges.second.push_back(w1);
                    n_edges++;
                }
""", []),
    ("r30m", ET, """        for (i1 = 0; i1 < pts1_len; ++i1)
        {
            for (i2 = i1 + 1; i2 < pts1_len; ++i2)
            {
                for (j1 = 0; j1 < pts2_len; ++j1)
                {
                    for (j2 = j1 + 1; j2 < pts2_len; ++j2)
                    {""", """        for (j1 = 0; j1 < pts2_len; ++j1)
        {
            for (j2 = j1 + 1; j2 < pts2_len; ++j2)
            {
                for (i1 = 0; i1 < pts1_len; ++i1)
                {
                    for (i2 = i1 + 1; i2 < pts1_len; ++i2)
                    {""", []),
    ("r30n", GR, """                        v1 = (i1 - 1) * (g2.n_vert - 1) + (j1 - 1) + 1;
                        v2 = (i2 - 1) * (g2.n_vert - 1) + (j2 - 1) + 1;
""", """                        v1 = (i1 - 1) * (g2.n_vert - 1) + j1;
                        v2 = (i2 - 1) * (g2.n_vert - 1) + j2;
""", []),
    ("r30o", GR, """                        if ((f1 != 1) && (f2 == 1)) continue;
""", """                        if (f2 == FOUND && !(f1 == FOUND)) continue;
""", []),
    ("r30p", AL, """            if (RCU(k, 1) < m_r && RCU(k, 0) < m_c && msk(RCU(k, 1), RCU(k, 0)))
                msk_score++;
""", """            const u64 row = RCU(k, 1), col = RCU(k, 0);
            if (row >= m_r || col >= m_c) continue;
            if (msk(row, col)) msk_score += 1;
""", []),
    ("r30q", NW, """        wts.resize(no_of_vertices + 1);

        pynwgraph pg;

        if (static_cast<u64>(weights.shape(0)) != no_of_vertices)
            throw CM_ERROR("vertex weights array does not match number of vertices");

        wts[0] = 0;
        for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);
""", """        pynwgraph pg;

        if (static_cast<u64>(weights.shape(0)) != no_of_vertices)
            throw CM_ERROR("vertex weights array does not match number of vertices");

        wts.reserve(no_of_vertices + 1);
        wts.push_back(0);
        u64 at = 0;
        while (at < no_of_vertices) wts.push_back(weights(at++));
""", []),
    ("r30r", NW, """        weights.insert(weights.begin(), 0);  // weight of the sentinel
        pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(weights));
""", """        std::vector<double> wts(1, 0.0);  // weight of the sentinel
        for (u64 i = 0; i < weights.size(); i++) wts.push_back(weights[i]);
        pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(wts));
""", []),
    ("r30s", PG, """        this->nedges = 0;
        this->current_vertex = 0;
        this->finished_all = false;
        this->G->send_data([this](u64, u64) { this->nedges++; });
""", """        u64 stored = 0;
        this->G->send_data([&stored](u64, u64) { ++stored; });
        this->nedges = stored;
        this->finished_all = false;
        this->current_vertex = 0;
""", []),
    ("r30t", PG, """                elist(k, 0) = i;
                elist(k, 1) = j;
                k++;
""", """                const u64 row = k++;
                elist(row, 1) = j;
                elist(row, 0) = i;
""", []),
    ("r30u", PG, """            [&adjmat](u64 i, u64 j)
            {
                adjmat(i - 1, j - 1) = true;
                adjmat(j - 1, i - 1) = true;
            });
""", """            [&adjmat](u64 a, u64 b)
            {
                const u64 r = a - 1, c = b - 1;
                adjmat(c, r) = adjmat(r, c) = true;
            });
""", []),
    ("r30v", PG, """        f << this->nvert << " ";
        f << this->nvert << " ";
        f << this->nedges << "\\n";
        this->G->send_data([&f](u64 i, u64 j) { f << i << " " << j << "\\n"; });
""", """        const u64 n = this->nvert;
        f << n << " " << n << " " << this->nedges << "\\n";
        auto line = [&f](u64 i, u64 j)
        {
            f << i;
            f << " ";
            f << j << "\\n";
        };
        this->G->send_data(line);
""", []),
    ("r30w", PG, """        this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                           ? lower_bound
                                           : this->G->CUR_MAX_CLIQUE_SIZE;
        // the upper bound applies only to this call
        const u64 clique_limit = this->G->CLIQUE_LIMIT;
        this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;
        this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
        this->G->CLIQUE_LIMIT = clique_limit;
        finished_all = (current_vertex > nvert);
        auto ans = this->G->get_max_clique();
""", """        auto& g = *(this->G);
        const u64 clique_limit = g.CLIQUE_LIMIT;
        if (upper_bound < clique_limit) g.CLIQUE_LIMIT = upper_bound;
        if (lower_bound > g.CUR_MAX_CLIQUE_SIZE) g.CUR_MAX_CLIQUE_SIZE = lower_bound;
        g.find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
        g.CLIQUE_LIMIT = clique_limit;
        finished_all = nvert < current_vertex;
        auto ans = g.get_max_clique();
""", []),
    ("r30x", CQ, """        if (use_heur) heur.process_graph((*this));
        if (time_limit <= 0)
        {
            StackDFS dfs;
            if (use_dfs) start_vert = dfs.process_graph((*this));
        }
        else
        {
            RecursionDFS dfs(start_vert, time_limit);
            this->start_time = std::chrono::steady_clock::now();
            if (use_dfs) start_vert = dfs.process_graph((*this));
        }
        return this->elapsed_time();
""", """        auto timed = [&]()
        {
            RecursionDFS dfs(start_vert, time_limit);
            this->start_time = std::chrono::steady_clock::now();
            return dfs.process_graph((*this));
        };
        if (use_heur) heur.process_graph((*this));
        if (use_dfs)
        {
            if (time_limit > 0)
                start_vert = timed();
            else
                start_vert = StackDFS().process_graph((*this));
        }
        return this->elapsed_time();
""", []),
    ("r30y", IC, "        u64 v;\n        while (true)\n        {\n" + STEP, """        const u64 v = en->process_graph(*(pg.G));
        if (v <= pg.nvert) return pg.G->get_max_clique(v);
        throw pybind11::stop_iteration();
""", []),
    ("r30z", IC, "        u64 v;\n        while (true)\n        {\n" + STEP, """        u64 v = en->process_graph(*(pg.G));
        if (v > pg.nvert) throw pybind11::stop_iteration();
        auto members = pg.G->get_max_clique(v);
        return members;
""", []),
    ("r31a", LL, """        return ([self.S1[x] for x in indices[0]], [self.S2[x] for x in indices[1]])
""", """        pick = lambda s, ind: [s[x] for x in ind]
        return (pick(self.S1, indices[0]), pick(self.S2, indices[1]))
""", [], ["C07", "C14", "C18"]),
    ("r31b", LL, """        self.d1 = None
        self.d2 = None
        self.is_d1_symmetric = is_d1_symmetric
        self.is_d2_symmetric = is_d2_symmetric
        if d1 is not None:
            self.d1 = d1
            if d2 is not None:
                self.d2 = d2
            else:
""", """        self.is_d2_symmetric = is_d2_symmetric
        self.is_d1_symmetric = is_d1_symmetric
        self.d1, self.d2 = None, None
        if d1 is not None:
            self.d1 = d1
            self.d2 = d2
            if d2 is None:
""", [], ["C07", "C14", "C18"]),
    ("r31c", AG, """        args = [
            self,
            self.S1,
            len(self.S1),
            self.S2,
            len(self.S2),
            self.epsilon,
            control_points,
            filter_mask,
            percentage,
        ]
        _build_edges_with_filter(*args)
""", """        n1, n2 = len(self.S1), len(self.S2)
        _build_edges_with_filter(
            self, self.S1, n1, self.S2, n2, self.epsilon, control_points, filter_mask, percentage
        )
""", [], ["C07", "C14", "C18"]),
    ("r31d", AG, """        indices = super(AlignGraph, self).get_correspondence(
            lower_bound,
            upper_bound,
            time_limit,
            use_heuristic,
            use_dfs,
            continue_search,
            True,
        )
        if return_indices:
            return indices
        else:
            return self._format_correspondence(indices)
""", """        options = dict(
            lower_bound=lower_bound,
            upper_bound=upper_bound,
            time_limit=time_limit,
            use_heuristic=use_heuristic,
            use_dfs=use_dfs,
            continue_search=continue_search,
        )
        indices = GenGraph.get_correspondence(self, return_indices=True, **options)
        if not return_indices:
            return self._format_correspondence(indices)
        return indices
""", [], ["C07", "C14", "C18"]),
    ("r31e", GG, """        if return_indices:
            return Graph._all_correspondences(self, len(self.S1), len(self.S2), size)
        else:
            return WrappedIterator(
                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
                lambda x: self._format_correspondence(x),
            )
""", """        it = Graph._all_correspondences(self, len(self.S1), len(self.S2), size)
        if not return_indices:
            it = WrappedIterator(it, self._format_correspondence)
        return it
""", [], ["C07", "C13", "C14", "C18"]),
    ("r31f", ISO, """        v1 = set(indices[0])
        v2 = set(indices[1])
        G1 = dict()
        G2 = dict()
        mapping = dict()
        inv_map = dict()
        v2_inv = lambda z: set(inv_map[x] for x in z)
        for i in range(len(indices[0])):
            mapping[indices[0][i]] = indices[1][i]
            inv_map[indices[1][i]] = indices[0][i]
        for i in range(len(indices[0])):
            G2[indices[1][i]] = self.S2._vertex_neighbors(indices[1][i]) & v2
            G1[indices[0][i]] = v2_inv(G2[indices[1][i]])
        return (G1, G2, mapping)
""", """        first, second = indices[0], indices[1]
        v2 = set(second)
        mapping = dict(zip(first, second))
        inv_map = dict(zip(second, first))
        G1, G2 = {}, {}
        for a, b in zip(first, second):
            G2[b] = self.S2._vertex_neighbors(b) & v2
            G1[a] = set(inv_map[x] for x in G2[b])
        return (G1, G2, mapping)
""", [], ["C07", "C14", "C18"]),
    ("r31g", ISO, """        offset = lambda l: [x + 1 for x in l]
        if return_indices:
            return WrappedIterator(
                Graph._all_correspondences(
                    self, self.S1.n_vertices, self.S2.n_vertices, size
                ),
                lambda x: [offset(x[0]), offset(x[1])],
            )
        else:
            return WrappedIterator(
                Graph._all_correspondences(
                    self, self.S1.n_vertices, self.S2.n_vertices, size
                ),
                lambda x: self._format_correspondence([offset(x[0]), offset(x[1])]),
            )
""", """        def shift(x):
            return [[v + 1 for v in x[0]], [v + 1 for v in x[1]]]

        it = Graph._all_correspondences(self, self.S1.n_vertices, self.S2.n_vertices, size)
        if return_indices:
            return WrappedIterator(it, shift)
        return WrappedIterator(it, lambda x: self._format_correspondence(shift(x)))
""", [], ["C07", "C13", "C14", "C18"]),
    # breaking
    ("b30a", NW, "        check_loaded();\n        ndarray<bool> adjmat1", "        ndarray<bool> adjmat1", ["C01"]),
    ("b30b", IT, "if (pg.G.get() == nullptr || pg.nvert == 0)", "if (pg.G.get() == nullptr && pg.nvert == 0)", ["C01"]),
    ("b30c", PG, """        check_loaded();
        this->G->CUR_MAX_CLIQUE_SIZE = lower_bound""", """        this->G->CUR_MAX_CLIQUE_SIZE = lower_bound""", ["C01"]),
    ("b30d", IS, "if (s1.nvert == 0 || s2.nvert == 0)", "if (s1.nvert == 0 && s2.nvert == 0)", ["C01"]),
    ("b30e", NW, """        check_loaded();
        std::vector<std::set<u64>> edges""", """        std::vector<std::set<u64>> edges""", ["C01"]),
    ("b30f", PG, "if (adjmat.shape(0) != adjmat.shape(1))", "if (adjmat.shape(0) > adjmat.shape(1) * 2)", ["C03"]),
    ("b30g", AL, "RCU(k, 1) < m_r &&", "RCU(k, 1) <= m_r &&", ["C03"]),
    ("b30h", NW, "else if (weights.shape(0) != adjmat.shape(0))", "else if (weights.shape(0) > adjmat.shape(0))", ["C03"]),
    ("b30i", NW, "n_vertices + 1 != edges.size() || n_vertices != weights.size()", "n_vertices + 1 != edges.size() || n_vertices > weights.size() + 1", ["C03"]),
    ("b30j", NW, "if (static_cast<u64>(weights.shape(0)) != no_of_vertices)", "if (weights.shape(0) == 0)", ["C03"]),
    ("b30k", PG, "if (n_vertices != edges.size() - 1)", "if (n_vertices > edges.size())", ["C03"]),
    ("b30l", PG, """j == i ||
                    edges[j].find(i) == edges[j].end())""", "j == i)", ["C05"]),
    ("b30m", MM, """                Edges.first[j + 1] = v2;
                Edges.second[j + 1] = v1;
            }
""", """                Edges.first[j + 1] = v1;
                Edges.second[j + 1] = v2;
            }
""", ["C05"]),
    ("b30n", ET, "                Edges.first.push_back(v2);\n                Edges.second.push_back(v1);\n", "                Edges.first.push_back(v2);\n                Edges.second.push_back(v2);\n", ["C05"]),
    ("b30o", NW, "for (u64 i = 0; i < edges.first.size(); i++)", "for (u64 i = 0; i + 1 < edges.first.size(); i++)", ["C05"]),
    ("b30p", GR, """                        edges.first.push_back(v2);
                        edges.second.push_back(v1);
                        num_edges += 2;""", """                        num_edges += 2;""", ["C05"]),
    ("b30q", NW, "if (adjmat(i, j) || i == j)", "if (adjmat(i, j))", ["C05"]),
    ("b30r", ET, "for (v1 = 0; v1 < edges.first.size(); v1++)", "for (v1 = 0; v1 < no_of_vertices; v1++)", ["C05"]),
    ("b30s", NW, "t1 = (clique[i] - 1) / len2;", "t1 = clique[i] / len2;", ["C07"]),
    ("b30t", PG, "            ans.first.push_back(t1);\n            ans.second.push_back(t2);", "            ans.first.push_back(t2);\n            ans.second.push_back(t1);", ["C07"]),
    ("b30u", ET, "v1 = s1.dists[i].second * N + s2.dists[j].first + 1;", "v1 = s1.dists[i].second * N + s2.dists[j].first;", ["C07"]),
    ("b30v", ET, "for (i2 = i1 + 1; i2 < pts1_len; ++i2)", "for (i2 = i1; i2 < pts1_len; ++i2)", ["C08"]),
    ("b30w", ET, "cur_ub = cur_lb + 2 * epsilon;", "cur_ub = cur_lb + epsilon;", ["C08"]),
    ("b30x", ET, "{ return cfunc(pts1, i, j, pts2, i2, j2); };", "{ return cfunc(pts1, i, i2, pts2, j, j2); };", ["C08"]),
    ("b30y", RS, "        std::sort(this->dists.begin(), this->dists.end());", "        std::sort(this->dists.begin(), this->dists.begin() + count / 2);", ["C08"]),
    ("b30z", GR, "f2 = g2.find_if_neighbors(j1, j2, l);", "f2 = g2.find_if_neighbors(j1, i2, l);", ["C08"]),
    ("b31a", ET, "while (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;", "if (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;", ["C08"]),
    ("b31b", ET, "if (binary_find2(base, len2, cur_lb, lb_loc) == -1) break;", "if (binary_find2(base, len2, cur_lb, lb_loc) != 1) continue;", ["C08"]),
    ("r31h", PD, "            else if (a[mid] < val)\n                beg = mid + 1;", "            else if (a[mid] < val)\n                beg = mid + 2;", [], ["C08"]),
    ("b31d", ET, "if (cfunc(pts1, i1, i2, pts2, j2, j1))", "if (cfunc(pts1, i1, i2, pts2, j2, j1) && no_of_edges > 0)", ["C08"]),
    ("b31e", GG, "            args = args + [self.epsilon, condition_func]\n            if self.d1:\n                args = args + [self.d1, self.is_d1_symmetric]\n                if self.d2:\n                    args = args + [self.d2, self.is_d2_symmetric]", "            args = args + [self.epsilon, condition_func]\n            if self.d1:\n                args = args + [self.d1, self.is_d1_symmetric]\n                if self.d2:\n                    args = args + [self.d2, self.is_d1_symmetric]", ["C18"]),
    ("b31f", GG, "                lambda x: self._format_correspondence(x),", "                lambda x: x,", ["C18"]),
    ("b31g", ISO, "                lambda x: [offset(x[0]), offset(x[1])],", "                lambda x: [offset(x[0]), x[1]],", ["C18"]),
    ("b31h", AG, "ans = [self.S1[indices[0], :], self.S2[indices[1], :]]", "ans = [self.S1[indices[0], :], self.S2[indices[0], :]]", ["C18"]),
    ("b31i", LL, "        self.is_d2_symmetric = is_d2_symmetric\n", "        self.is_d2_symmetric = is_d1_symmetric\n", ["C18"]),
    ("b31j", GG, "            use_heuristic,\n            use_dfs,\n            continue_search,\n        )", "            use_dfs,\n            use_heuristic,\n            continue_search,\n        )", ["C14"]),
    ("b31k", AG, "            use_dfs,\n            continue_search,\n            True,", "            use_dfs,\n            False,\n            True,", ["C14"]),
    ("b31l", WR, '"lower_bound"_a = 1, "upper_bound"_a = 0xFFFF, "time_limit"_a = 0.0,', '"upper_bound"_a = 0xFFFF, "lower_bound"_a = 1, "time_limit"_a = 0.0,', ["C14"]),
    ("b31m", WR, '"use_heuristic"_a = true, "use_dfs"_a = true, "continue_search"_a = false)', '"use_heuristic"_a = true, "continue_search"_a = false, "use_dfs"_a = true)', ["C14"]),
    ("b31n", CQ, "if (time_limit <= 0)", "if (time_limit < 0)", ["C14"]),
    ("b31o", IC, "            if (v > pg.nvert) break;\n            return pg.get_correspondence2", "            if (v >= pg.nvert) break;\n            return pg.get_correspondence2", ["C13"]),
    ("b31p", WR, "return cm_core::CorrespondenceIterator(s.cast<pygraph&>(), s, len1,", "return cm_core::CorrespondenceIterator(s.cast<pygraph&>(), py::none(), len1,", ["C13"]),
    ("b31q", GG, "        if return_indices:\n            answer = indices\n        else:\n            answer = self._format_correspondence(indices)\n        return answer", "        return indices", ["C18"]),
    ("b31r", GG, "        if return_indices:\n            answer = indices\n        else:\n            answer = self._format_correspondence(indices)\n        return answer", "        return self._format_correspondence(indices)", ["C18"]),
    ("b31s", GG, "        if return_indices:\n            answer = indices\n", "        if not return_indices:\n            answer = indices\n", ["C18"]),
    ("b31t", ET, "if (!s1.symmetric && !s2.symmetric) continue;", "if (s1.symmetric != s2.symmetric) continue;", ["C08"]),
    # --- found by changing one operator or statement at a time
    ("b32a", EN, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);", "                        G.vertices[cur].bits.copy_data(cur_state.res);", ["C10"]),
    ("b32b", NH, "        candidates_left = 0;\n", "", ["C11"]),
    ("b32c", NH, "        cand_potential = 0;\n", "", ["C11"]),
    ("b32d", NH, "            candidates_left++;\n        }\n        if (candidates_left <=", "            candidates_left--;\n        }\n        if (candidates_left <=", ["C11"]),
    ("b32e", NE, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);", "                        G.vertices[cur].bits.copy_data(cur_state.res);\n                        cur_state.res.set(j);", ["C10"]),
    ("r32a", HE, "for (i = 0, j = 0; i < G.vertices[cur].spos; i++)", "for (i = 0, j = 0; i <= G.vertices[cur].spos; i++)", []),
    ("r32b", DS, "for (j = 0; j < G.vertices[cur].spos; j++)", "for (j = 0; j <= G.vertices[cur].spos; j++)", []),
    ("r32d", [(NH, "            cand.set(i);\n            candidates_left++;\n", "            cand.set(i);\n"), (NH, "            cand.set(i);\n            candidates_left++;\n", "            cand.set(i);\n"), (NH, "        if (candidates_left <= G", "        candidates_left = j;\n        if (candidates_left <= G")], []),
    ("r32e", [(NH, "        candidates_left = 0;\n        cand_potential = 0;\n", ""), (NH, "        res.clear(G.vertices[cur].N);\n", "        candidates_left = cand_potential = 0;\n        res.clear(G.vertices[cur].N);\n")], []),
    ("r32f", [(NH, "            candidates_left++;\n", "            candidates_left += 1;\n"), (NH, "            candidates_left++;\n", "            ++candidates_left;\n")], []),
    ("r32g", [(ET, "if (M == 0 || N == 0)", "if (n_vert == 0)"), (ET, "if (M == 0 || N == 0)", "if (!(M > 0 && N > 0))")], []),
    ("r32h", [(ET, "if (M == 0 || N == 0)", "if (M * N == 0)"), (ET, "if (M == 0 || N == 0)", "if (M < 1 || N < 1)")], []),
    ("r32i", ND, "cur_state.start_at = cur_state.cand.next(j + 1);", "cur_state.start_at = cur_state.cand.next(j);", []),
    ("b32g", ND, "                cur_state.cand.reset(j);\n                cur_state.start_at = cur_state.cand.next(j + 1);", "                cur_state.start_at = cur_state.cand.next(j);\n                cur_state.cand.reset(j);", ["C12"]),
    ("b32h", LA, "return ([self.S1[x] for x in indices[0]], self.S2[indices[1]])", "return ([self.S2[x] for x in indices[0]], self.S2[indices[1]])", ["C18"]),
    ("r32c", EN, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);\n\n                        // search can now continue without vert\n                        cur_state.res.reset(j);\n", "                        G.vertices[cur].bits.copy_data(cur_state.res);\n                        G.vertices[cur].bits.set(j);\n", []),
]
MORE = [e for e in MORE if e[-1] != ["NONE"]]
