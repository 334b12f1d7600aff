"""Small edits of the sources: breaking ones with the checks that must alarm, harmless ones with []."""
PG, NW, MM = "core/pygraph.cpp", "core/pynwgraph.cpp", "detail/mmio.cpp"
ET, RS, PD = "templates/ext_template.hpp", "templates/relset.hpp", "templates/pair_dist.hpp"
GR = "detail/graph/graph.cpp"
GB = "detail/gbits.h"
GC = "detail/gbits.cpp"
UT = "detail/utils.cpp"
IT = "core/pyiterator.h"
IC = "core/pyiterator.cpp"
WR = "core/wrap_pygraph.cpp"
DH = "detail/graph/dfs.h"
UH = "detail/utils.h"
GH, NGH = "detail/graph/graph.h", "detail/nwgraph/nwgraph.h"
CQ = "detail/graph/clique.cpp"
DR, DS, EN, HE = "detail/graph/dfs_recurse.cpp", "detail/graph/dfs_stack.cpp", "detail/graph/enumerate.cpp", "detail/graph/heuristic.cpp"
NG, ND, NE, NH = "detail/nwgraph/nwgraph.cpp", "detail/nwgraph/nw_dfs.cpp", "detail/nwgraph/nw_enumerate.cpp", "detail/nwgraph/nw_heuristic.cpp"
GG, ISO = "wrappers/_gen_graph.py", "wrappers/isograph.py"
SEARCH = ["C03", "C09", "C10", "C11", "C12", "C13"]

EDITS = [
    ("b01a", PG, "    {\n        check_loaded();\n        ndarray<u64> elist1", "    {\n        ndarray<u64> elist1", ["C01"]),
    ("b01b", PG, "this->G.get() == nullptr || this->nvert == 0", "this->G.get() == nullptr && this->nvert == 0", ["C01"]),
    ("b02a", PG, "if (v1 > no_of_vertices || v2 > no_of_vertices)", "if (v1 > no_of_vertices || v2 > no_of_vertices + 1)", ["C02"]),
    ("b02b", NW, "if (v1 == 0 || v2 == 0)", "if (v1 == 0 && v2 == 0)", ["C02"]),
    ("b02c", MM, "v1 > n_vert || v2 > n_vert ||", "v1 > n_vert ||", ["C02"]),
    ("b02d", PG, "if (j == 0 || j > n_vertices", "if (j == 0 || j > n_vertices + 1", ["C02"]),
    ("b02e", PG, """            if (v1 == 0 || v2 == 0)
            {
                throw CM_ERROR(
                    "Vertex numbers must begin at 1, 0 is used as a sentinel value\\n");
            }
            no_of_edges++;""", "            if (v1 == 0 || v2 == 0) continue;\n            no_of_edges++;", ["C02"]),
    ("b02f", NW, "edges.size() > 0 && !edges[0].empty()", "edges.size() > 0 && edges[0].size() > 1", ["C02"]),
    ("r02a", PG, """        for (auto i = 0; i < edge_list.shape(0); i++)
        {
            v1 = edge_list(i, 0);
            v2 = edge_list(i, 1);
            if (v1 > no_of_vertices || v2 > no_of_vertices)
                throw CM_ERROR(
                    "Edge contains vertex ID > number of vertices specified\\n");
            if (v1 == 0 || v2 == 0)
            {
                throw CM_ERROR(
                    "Vertex numbers must begin at 1, 0 is used as a sentinel value\\n");
            }
""", """        const auto rows = edge_list.shape(0);
        auto valid = [&no_of_vertices](u64 v) { return v != 0 && v <= no_of_vertices; };
        auto i = 0;
        while (i < rows)
        {
            v1 = edge_list(i, 0);
            v2 = edge_list(i, 1);
            i++;
            if (!valid(v1)) throw CM_ERROR("first bad\\n");
            if (!valid(v2)) throw CM_ERROR("second bad\\n");
""", []),
    ("r02b", PG, """            for (auto& j : edges[i])
            {
                if (j == 0 ||""", """            for (auto it = edges[i].begin(); it != edges[i].end(); ++it)
            {
                const u64 j = *it;
                if (j == 0 ||""", []),
    ("r02c", MM, """            if (v1 == 0 || v2 == 0 || v1 > n_vert || v2 > n_vert || v1 == v2)
            {
                (v1 != v2) ? n_invalids++ : n_loops++;
                Edges.first[j] = 0;
                Edges.second[j] = 0;
                Edges.first[j + 1] = 0;
                Edges.second[j + 1] = 0;
            }
            else
            {
                Edges.first[j] = v1;
                Edges.second[j] = v2;
                Edges.first[j + 1] = v2;
                Edges.second[j + 1] = v1;
            }""", """            const bool loop = v1 == v2;
            const bool invalid = v1 == 0 || v2 == 0 || v1 > n_vert || v2 > n_vert;
            if (loop) n_loops++;
            else if (invalid) n_invalids++;
            if (loop || invalid) v1 = v2 = 0;
            Edges.first[j] = v1;
            Edges.second[j + 1] = v1;
            Edges.second[j] = v2;
            Edges.first[j + 1] = v2;""", []),
    ("r02d", PG, """                    if (adjmat(i, j) || i == j)
                    {
                        edges.first.push_back(i + 1);
                        edges.second.push_back(j + 1);
                        edges.first.push_back(j + 1);
                        edges.second.push_back(i + 1);
                        no_of_edges += (i != j);
                    }""", """                    if (i != j && !adjmat(i, j)) continue;
                    const u64 a = i + 1, b = j + 1;
                    edges.first.push_back(a);
                    edges.first.push_back(b);
                    edges.second.push_back(b);
                    edges.second.push_back(a);
                    if (i != j) no_of_edges++;""", []),

    # correspondences
    ("b07a", ET, "v2 = s1.dists[i].second * N + s2.dists[j].second + 1;", "v2 = s1.dists[i].second * M + s2.dists[j].second + 1;", ["C07"]),
    ("b07b", ET, "v1 = i2 * pts2_len + j1 + 1;", "v1 = i2 * pts1_len + j1 + 1;", ["C07"]),
    ("b07c", GR, "v1 = (i2 - 1) * (g2.n_vert - 1) + (j1 - 1) + 1;", "v1 = (i2 - 1) * (g1.n_vert - 1) + (j1 - 1) + 1;", ["C07"]),
    ("b08a", ET, "if (base[j] < cur_lb) continue;", "", ["C08"]),
    ("b08b", ET, "cur_ub = cur_lb + 2 * epsilon;", "cur_ub = cur_lb + epsilon;", ["C08"]),
    ("b08c", ET, "if (!s1.symmetric && !s2.symmetric) continue;", "if (!s1.symmetric || !s2.symmetric) continue;", ["C08"]),
    ("b08d", ET, "                if (!s1.symmetric && !s2.symmetric) continue;\n", "", ["C08"]),
    ("b08e", ET, "if (cfunc(s1.dists[i].first, s1.dists[i].second, s2.dists[j].second,\n                          s2.dists[j].first))", "if (cfunc(s1.dists[i].first, s1.dists[i].second, s2.dists[j].first,\n                          s2.dists[j].second))", ["C08"]),
    ("b08f", ET, "while (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;", "", ["C08"]),
    ("b08g", ET, "for (i2 = i1 + 1; i2 < pts1_len; ++i2)", "for (i2 = i1 + 1; i2 < pts1_len - 1; ++i2)", ["C08"]),
    ("b08h", ET, "if (cfunc(pts1, i1, i2, pts2, j2, j1))", "if (cfunc(pts1, i1, i2, pts2, j1, j2))", ["C08"]),
    ("b08i", GR, "if ((f1 != 1) && (f2 == 1)) continue;", "if ((f1 == 1) != (f2 == 1)) continue;", ["C08"]),
    ("b08j", GR, "if ((f1 != 1) && (f2 == 1)) continue;", "if ((f1 == 1) && (f2 != 1)) continue;", ["C08"]),
    ("b08k", RS, "for (j = (this->symmetric ? i + 1 : 0); j < this->N; j++)", "for (j = i + 1; j < this->N; j++)", ["C08"]),
    ("b08l", RS, "this->dists[count].dist = this->delfunc(x, i, j);", "this->dists[count].dist = this->delfunc(x, i, i);", ["C08"]),
    ("b08m", PD, "bool operator<(const pair_dist<T> &BB) const { return (this->dist < BB.dist); }", "bool operator<(const pair_dist<T> &BB) const { return (this->first < BB.first); }", ["C08"]),
    ("b08n", ET, "relset<List2, Delta2> ps2(pts2_len, d2, is_d2_symmetric);", "relset<List2, Delta2> ps2(pts2_len, d2, is_d1_symmetric);", ["C08"]),
    ("b08o", ET, "if (binary_find2(base, len2, cur_lb, lb_loc) == -1) break;", "if (binary_find2(base, len2, cur_ub, lb_loc) == -1) break;", ["C08"]),
    ("b08p", "ext/Aligngraph.cpp", "return filter_score(control_pts, mask, _c, _rot_con, _RCU, p1, i1, j1, p2,\n                                i2, j2) >= percentage;", "return filter_score(control_pts, mask, _c, _rot_con, _RCU, p1, i1, j1, p2,\n                                j2, i2) >= percentage;", ["C08"]),
    ("b08q", RS, "std::sort(this->dists.begin(), this->dists.end());", "std::sort(this->dists.begin(), this->dists.end() - 1);", ["C08"]),
    ("b08r", ET, "for (i = 0; i < len1; i++)", "for (i = 0; i + 1 < len1; i++)", ["C08"]),
    ("b08s", ET, "if (base[j] < cur_lb) continue;", "if (base[j] == cur_lb) continue;", ["C08"]),
    ("b08t", RS, "if (j == i) continue;", "if (j == i || j == 0) continue;", ["C08"]),
    ("r08a", [(ET, """            for (j = lb_loc; j < len2 && !(base[j] > cur_ub); j++)
            {
                if (base[j] < cur_lb) continue;""", """            j = lb_loc;
            while (j < len2)
            {
                const auto& other = s2.dists[j++];
                if (other.dist > cur_ub) break;
                if (other.dist < cur_lb) continue;"""),
              (ET, """                v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
                v2 = s1.dists[i].second * N + s2.dists[j].second + 1;""", """                v1 = s1.dists[i].first * N + other.first + 1;
                v2 = s1.dists[i].second * N + other.second + 1;"""),
              (ET, """                v1 = s1.dists[i].second * N + s2.dists[j].first + 1;
                v2 = s1.dists[i].first * N + s2.dists[j].second + 1;""", """                v1 = s1.dists[i].second * N + other.first + 1;
                v2 = s1.dists[i].first * N + other.second + 1;""")], []),
    ("r08b", GR, "                        if ((f1 != 1) && (f2 == 1)) continue;\n", "                        const bool missing = f2 == 1 && f1 != 1;\n                        if (missing) continue;\n", []),
    ("r08c", [(ET, """        for (i1 = 0; i1 < pts1_len; ++i1)
        {
            for (i2 = i1 + 1; i2 < pts1_len; ++i2)
            {""", """        auto connect = [&edges, &no_of_edges, &pts2_len](const u64 a1, const u64 a2, const u64 b1, const u64 b2)
        {
            const u64 a = a1 * pts2_len + a2 + 1, b = b1 * pts2_len + b2 + 1;
            edges.first.push_back(a);
            edges.second.push_back(b);
            edges.first.push_back(b);
            edges.second.push_back(a);
            no_of_edges++;
        };
        for (i1 = 0; i1 < pts1_len; ++i1)
        {
            for (i2 = i1 + 1; i2 < pts1_len; ++i2)
            {"""),
              (ET, """                        if (cfunc(pts1, i1, i2, pts2, j1, j2))
                        {
                            v1 = i1 * pts2_len + j1 + 1;
                            v2 = i2 * pts2_len + j2 + 1;
                            edges.first.push_back(v1);
                            edges.second.push_back(v2);
                            edges.first.push_back(v2);
                            edges.second.push_back(v1);
                            no_of_edges++;
                        }
""", """                        if (cfunc(pts1, i1, i2, pts2, j1, j2)) connect(i1, j1, i2, j2);
"""),
              (ET, """                        if (cfunc(pts1, i1, i2, pts2, j2, j1))
                        {
                            v1 = i2 * pts2_len + j1 + 1;
                            v2 = i1 * pts2_len + j2 + 1;
                            edges.first.push_back(v1);
                            edges.second.push_back(v2);
                            edges.first.push_back(v2);
                            edges.second.push_back(v1);
                            no_of_edges++;
                        }""", """                        if (cfunc(pts1, i1, i2, pts2, j2, j1)) connect(i2, j1, i1, j2);""")], []),
    ("r08d", RS, """            for (j = (this->symmetric ? i + 1 : 0); j < this->N; j++)
            {
                if (j == i) continue;
                this->dists[count].first = i;
                this->dists[count].second = j;
                this->dists[count].dist = this->delfunc(x, i, j);
                count++;
            }""", """            j = 0;
            if (this->symmetric) j = i + 1;
            for (; j < this->N; ++j)
            {
                if (j != i)
                {
                    auto& d = this->dists[count++];
                    d.dist = this->delfunc(x, i, j);
                    d.first = i;
                    d.second = j;
                }
            }""", []),
    ("r08e", ET, """        u64 len1 = s1.symmetric ? M * (M - 1) / 2 : M * (M - 1);
        u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);""", """        const u64 len1 = s1.dists.size();
        const u64 len2 = s2.dists.size();""", []),
    # --- C07/C18: Python wrappers
    ("b07p1", GG, "return Graph._all_correspondences(self, len(self.S1), len(self.S2), size)\n        else",
     "return Graph._all_correspondences(self, len(self.S2), len(self.S1), size)\n        else", ["C07"]),
    ("b07p2", GG, "            len(self.S1),\n            len(self.S2),\n            lower_bound",
     "            len(self.S2),\n            len(self.S1),\n            lower_bound", ["C07"]),
    ("b07p3", ISO, "self, self.S1.n_vertices, self.S2.n_vertices, size\n                ),\n                lambda x: self.",
     "self, self.S2.n_vertices, self.S1.n_vertices, size\n                ),\n                lambda x: self.", ["C07"]),
    ("b07p4", GG, "args = [self, self.S1, len(self.S1), self.S2, len(self.S2), self.epsilon]",
     "args = [self, self.S1, len(self.S1), self.S2, len(self.S1), self.epsilon]", ["C07"]),
    ("b18a", ISO, "v2 = set(indices[1])", "v2 = set(indices[0])", ["C18"]),
    ("b18b", ISO, "inv_map[indices[1][i]] = indices[0][i]", "inv_map[indices[0][i]] = indices[1][i]", ["C18"]),
    ("b18c", ISO, "lambda x: [offset(x[0]), offset(x[1])],", "lambda x: [x[0], x[1]],", ["C18"]),
    ("b18d", ISO, "lambda x: self._format_correspondence([offset(x[0]), offset(x[1])])", "lambda x: self._format_correspondence(x)", ["C18"]),
    ("b18e", "wrappers/l2agraph.py", "self.S2[indices[1]])", "self.S2[sorted(indices[1])])", ["C18"]),
    ("b18f", "wrappers/l2agraph.py", "self.S2[indices[1]])", "self.S2[indices[0]])", ["C18"]),
    ("b18g", "wrappers/l2lgraph.py", "self.is_d2_symmetric = is_d2_symmetric", "self.is_d2_symmetric = is_d1_symmetric", ["C18"]),
    ("b18h", GG, "args = args + [self.d2, self.is_d2_symmetric]\n            return", "args = args + [self.d2, self.is_d1_symmetric]\n            return", ["C18"]),
    ("b18i", GG, "            if self.d2:\n                args = args + [self.d2, self.is_d2_symmetric]\n        return",
     "            if self.d2:\n                args = args + [self.d1, self.is_d2_symmetric]\n        return", ["C18"]),
    ("b18j", "wrappers/l2agraph.py", "                self.d2 = d2\n", "                self.d2 = d1\n", ["C18"]),
    ("b18k", ISO, "G2[indices[1][i]] = self.S2._vertex_neighbors(indices[1][i]) & v2",
     "G2[indices[1][i]] = self.S1._vertex_neighbors(indices[0][i]) & v2", ["C18"]),
    ("b18l", GG, "args = args + [self.epsilon, condition_func]", "args = args + [1.1, condition_func]", ["C18"]),
    ("b18m", "wrappers/a2agraph.py", "self.S2 = np.float64(set2)", "self.S2 = np.float64(set1)", ["C18"]),
    ("r18a", ISO, """        for i in range(len(indices[0])):
            mapping[indices[0][i]] = indices[1][i]
            inv_map[indices[1][i]] = indices[0][i]
""", """        for a, b in zip(indices[0], indices[1]):
            mapping[a] = b
            inv_map[b] = a
""", [], ["C07", "C18"]),
    ("r18b", ISO, """        offset = lambda l: [x + 1 for x in l]
        indices = [offset(indices[0]), offset(indices[1])]
""", """        indices = [[x + 1 for x in part] for part in indices]
""", [], ["C07", "C18"]),
    ("r18c", GG, """        args = [self, self.S1, len(self.S1), self.S2, len(self.S2), self.epsilon]
        if self.d1:
            args = args + [self.d1, self.is_d1_symmetric]
            if self.d2:
                args = args + [self.d2, self.is_d2_symmetric]
        return _build_edges_metric_only(*args)
""", """        args = [self, self.S1, len(self.S1), self.S2, len(self.S2), self.epsilon]
        return _build_edges_metric_only(*(args + self._metric_args()))

    def _metric_args(self):
        extra = []
        if self.d1:
            extra += [self.d1, self.is_d1_symmetric]
            if self.d2:
                extra.extend([self.d2, self.is_d2_symmetric])
        return extra
""", [], ["C07", "C18"]),
    ("r18d", "wrappers/l2agraph.py", "return ([self.S1[x] for x in indices[0]], self.S2[indices[1]])", """first, second = indices
        left = []
        for k in range(len(first)):
            left.append(self.S1[first[k]])
        return (left, self.S2[second])""", [], ["C07", "C18"]),
    ("r18e", "wrappers/l2agraph.py", "self.d1 = None\n        self.d2 = None\n        self.is_d1_symmetric = is_d1_symmetric\n        self.is_d2_symmetric = is_d2_symmetric\n        if d1 is not None:\n            self.d1 = d1\n            if d2 is not None:\n                self.d2 = d2\n",
     "self.d1 = d1\n        self.d2 = d2 if d1 is not None else None\n        self.is_d1_symmetric = is_d1_symmetric\n        self.is_d2_symmetric = is_d2_symmetric\n        if d1 is not None:\n            if d2 is not None:\n                pass\n", [], ["C07", "C18"]),
    ("r18f", GG, """        if return_indices:
            answer = indices
        else:
            answer = self._format_correspondence(indices)
        return answer
""", """        return indices if return_indices else self._format_correspondence(indices)
""", [], ["C07", "C18"]),
    ("r18g", ISO, """            G2[indices[1][i]] = self.S2._vertex_neighbors(indices[1][i]) & v2
            G1[indices[0][i]] = v2_inv(G2[indices[1][i]])
""", """            nb = self.S2._vertex_neighbors(indices[1][i]).intersection(v2)
            G2[indices[1][i]] = nb
            G1[indices[0][i]] = {inv_map[x] for x in nb}
""", [], ["C07", "C18"]),
    # --- C14
    ("b14a", PG, "get_max_clique(lower_bound, upper_bound, time_limit, use_heuristic,\n                                 use_dfs, continue_search)", "get_max_clique(lower_bound, upper_bound, time_limit, use_dfs,\n                                 use_heuristic, continue_search)", ["C14"]),
    ("b14b", "detail/graph/clique.cpp", "if (time_limit <= 0)", "if (time_limit < 0)", ["C14"]),
    ("b14c", "detail/nwgraph/nwclique.cpp", "if (use_heur) heur", "if (use_dfs) heur", ["C14"]),
    ("b14d", "core/wrap_pygraph.cpp", '"lower_bound"_a = 1, "upper_bound"_a = 0xFFFF, "use_heuristic"_a = true,\n             "use_dfs"_a = true)\n        .def("get_clique', '"lower_bound"_a = 1, "upper_bound"_a = 0xFFFF, "use_dfs"_a = true,\n             "use_heuristic"_a = true)\n        .def("get_clique', ["C14"]),
    ("b14e", PG, "if (!continue_search)\n            current_vertex = 0;", "if (continue_search)\n            current_vertex = 0;", ["C14"]),
    ("b14g", GG, "            use_heuristic,\n            use_dfs,\n", "            use_dfs,\n            use_heuristic,\n", ["C14"]),
    ("b14h", ISO, "use_dfs=True", "use_dfs=False", ["C14"]),
    ("b14i", "wrappers/aligngraph.py", "            lower_bound,\n            upper_bound,\n", "            upper_bound,\n            lower_bound,\n", ["C14"]),
    ("b14j", "core/pyiterator.h", "rf(rf), en(new detail::NWCliqueEnumerator(clique_size))\n        {", "rf(rf), en(new detail::NWCliqueEnumerator(clique_size + 1))\n        {", ["C14"]),
    ("b14k", "detail/graph/clique.cpp", "RecursionDFS dfs(start_vert, time_limit);", "RecursionDFS dfs(0, time_limit);", ["C14"]),
    ("b14l", PG, "this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;", "this->G->CLIQUE_LIMIT = upper_bound > clique_limit ? upper_bound : clique_limit;", ["C14"]),
    ("b14m", NW, "this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE\n                                           ? lower_bound", "this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE\n                                           ? upper_bound", ["C14"]),
    ("b14n", "detail/graph/clique.cpp", "            this->start_time = std::chrono::steady_clock::now();\n            if (use_dfs) start_vert", "            this->start_time = std::chrono::steady_clock::now();\n            start_vert", ["C14"]),
    ("b14o", ISO, "            time_limit,\n            use_heuristic,", "            -1.0,\n            use_heuristic,", ["C14"]),
    ("r14a", "detail/graph/clique.cpp", """        if (time_limit <= 0)
        {
            StackDFS dfs;
            if (use_dfs) start_vert = dfs.process_graph((*this));
        }
        else
        {
            RecursionDFS dfs(start_vert, time_limit);
            this->start_time = std::chrono::steady_clock::now();
            if (use_dfs) start_vert = dfs.process_graph((*this));
        }
        return this->elapsed_time();""", """        if (!use_dfs) return this->elapsed_time();
        if (time_limit > 0)
        {
            RecursionDFS timed(start_vert, time_limit);
            this->start_time = std::chrono::steady_clock::now();
            start_vert = timed.process_graph((*this));
        }
        else
        {
            StackDFS dfs;
            start_vert = dfs.process_graph((*this));
        }
        return this->elapsed_time();""", []),
    ("r14b", PG, """        this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                           ? lower_bound
                                           : this->G->CUR_MAX_CLIQUE_SIZE;""", """        if (this->G->CUR_MAX_CLIQUE_SIZE < lower_bound)
            this->G->CUR_MAX_CLIQUE_SIZE = lower_bound;""", []),
    ("r14c", PG, """        this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                           ? lower_bound
                                           : this->G->CUR_MAX_CLIQUE_SIZE;""", """        this->G->CUR_MAX_CLIQUE_SIZE = std::max(lower_bound, this->G->CUR_MAX_CLIQUE_SIZE);""", []),
    ("r14d", PG, """        if (!continue_search)
            current_vertex = 0;
        else if (current_vertex != 0)
            use_heuristic = false;

        check_loaded();""", """        check_loaded();
        const bool resumed = continue_search && current_vertex != 0;
        if (resumed)
            use_heuristic = false;
        else
            current_vertex = 0;
""", []),
    ("r14e", ISO, """        indices = self._get_correspondence(
            self.S1.n_vertices,
            self.S2.n_vertices,
            lower_bound,
            upper_bound,
            time_limit,
            use_heuristic,
            use_dfs,
            continue_search,
        )""", """        indices = Graph._get_correspondence(
            self,
            len1=self.S1.n_vertices,
            len2=self.S2.n_vertices,
            lower_bound=lower_bound,
            upper_bound=upper_bound,
            use_heuristic=use_heuristic,
            time_limit=time_limit,
            continue_search=continue_search,
            use_dfs=use_dfs,
        )""", [], ["C07", "C14", "C18"]),
    # bit sets
    ("b17a", GB, "this->pad_cover = ALL_ONES << ((64 - (n_bits & 0x3fu)) & 0x3fu);", "this->pad_cover = ALL_ONES << (64 - (n_bits & 0x3fu));", ["C17"]),
    ("b17b", GB, "this->pad_cover = ALL_ONES << ((64 - (n_bits & 0x3fu)) & 0x3fu);", "this->pad_cover = ALL_ONES << ((63 - (n_bits & 0x3fu)) & 0x3fu) << 1;", ["C17"]),
    ("b17c", GB, "this->pad_cover = ALL_ONES << ((64 - (n_bits & 0x3fu)) & 0x3fu);", "this->pad_cover = ALL_ONES << ((65 - (n_bits & 0x3fu)) & 0x3fu);", ["C17"]),
    ("b17d", GB, "const u64 mask = this->data[base] & (ALL_ONES >> (i & 0x3fu));", "const u64 mask = this->data[base] & (ALL_ONES >> (i & 0x1fu));", ["C17"]),
    ("b17e", GB, "const u64 mask = this->data[base] & (ALL_ONES >> (i & 0x3fu));", "const u64 mask = this->data[base] & ((ALL_ONES >> 1) >> (i & 0x3fu));", ["C17"]),
    ("b17f", GB, "return next((base + 1) << 6);", "return next(i + 64);", ["C17"]),
    ("b17g", GB, "u64 mask = ~(MSB_64 >> (i & 0x3fu));\n            this->data[i >> 6] &= mask;", "this->data[i >> 6] ^= MSB_64 >> (i & 0x3fu);", ["C17"]),
    ("b17h", GB, """            u64 dlen = ((this->valid_len & 0x3fu) != 0) + (this->valid_len >> 6);
            std::copy""", """            u64 dlen = 1 + (this->valid_len >> 6);
            std::copy""", ["C17"]),
    ("b17i", GB, """            u64 dlen = ((this->valid_len & 0x3fu) != 0) + (this->valid_len >> 6);
            std::copy""", """            u64 dlen = ((other.valid_len & 0x3fu) != 0) + (other.valid_len >> 6);
            std::copy""", ["C17"]),
    ("b17j", GB, "if (N == 0 || clear_len > dlen) clear_len = dlen;", "if (N == 0) clear_len = dlen;", ["C17"]),
    ("b17k", GC, "return (n & 0x7f);", "return (n & 0x3f);", ["C17"]),
    ("b17l", GC, """        this->data[dlen - 1] &= this->pad_cover;
        for (u64 i = 0; i < dlen; i++) sum""", """        this->data[dlen - 1] &= this->pad_cover;
        for (u64 i = 0; i < (this->valid_len >> 6); i++) sum""", ["C17"]),
    ("b17m", GC, "n = n + (n >> 32);", "", ["C17"]),
    ("b17n", GC, "this->data[i] &= ~(other.data[i]);", "this->data[i] ^= other.data[i];", ["C17"]),
    ("b17o", GC, """        for (u64 i = 0; i < dlen; i++) { this->data[i] &= other.data[i]; }""", """        for (u64 i = 0; i < dlen - 1; i++) { this->data[i] &= other.data[i]; }""", ["C17"]),
    ("b17p", GC, """        this->data[dlen - 1] &= this->pad_cover;
        for (u64 i = 0; i < dlen; i++) sum""", """        this->data[this->valid_len >> 6] &= this->pad_cover;
        for (u64 i = 0; i < dlen; i++) sum""", ["C17"]),
    ("b17q", GB, """            this->data = other.data;
            this->pad_cover = other.pad_cover;
            this->valid_len = other.valid_len;
        }
        void refer""", """            this->data = other.data;
            this->valid_len = other.valid_len;
        }
        void refer""", ["C17"]),
    ("b17r", GB, "if (i < valid_len)", "if (i <= valid_len)", ["C17"]),
    ("b17t", GC, """                ans[ct] = elements[i];
                ct++;
            }
        }
        return ans;
    }

}""", """                ans[ct] = elements[ct];
                ct++;
            }
        }
        return ans;
    }

}""", ["C17"]),
    ("r17a", GB, "u64 next(const u64 i)\n        {", """u64 next(u64 i)
        {
            while (i < valid_len)
            {
                const u64 word = this->data[i / 64] & (ALL_ONES >> (i % 64));
                if (word != 0) return (i & ~0x3fULL) + clz(word);
                i = ((i >> 6) + 1) << 6;
            }
            return valid_len;
        }
        u64 old_next(const u64 i)
        {""", []),
    ("r17b", [(GB, "u64 dlen = ((this->valid_len & 0x3fu) != 0) + (this->valid_len >> 6);\n            std::copy", "u64 dlen = this->n_words();\n            std::copy"),
              (GB, "        void copy_data(", "        u64 n_words() const { return (valid_len + 63) / 64; }\n        void copy_data("),
              (GC, """        u64 dlen = ((this->valid_len & 0x3fu) != 0) + (this->valid_len >> 6);
        this->data[dlen - 1] &= this->pad_cover;
        for (u64 i = 0; i < dlen; i++) sum += bitcount(this->data[i]);""", """        const u64 dlen = n_words();
        u64* const end = data + dlen;
        end[-1] &= pad_cover;
        u64 i = 0;
        while (i < dlen)
        {
            sum += bitcount(data[i]);
            i++;
        }""")], []),
    ("r17c", GC, """        n = n - ((n >> 1) & 0x5555555555555555);
        n = (n & 0x3333333333333333) + ((n >> 2) & 0x3333333333333333);
        n = (n + (n >> 4)) & 0x0f0f0f0f0f0f0f0f;
        n = n + (n >> 8);
        n = n + (n >> 16);
        n = n + (n >> 32);
        return (n & 0x7f);""", """        n = (n & 0x5555555555555555) + ((n >> 1) & 0x5555555555555555);
        n = (n & 0x3333333333333333) + ((n >> 2) & 0x3333333333333333);
        n = (n + (n >> 4)) & 0x0f0f0f0f0f0f0f0f;
        return (n * 0x0101010101010101) >> 56;""", []),
    ("r17d", GC, """        n = n - ((n >> 1) & 0x5555555555555555);""", """        return __builtin_popcountll(n);""", []),
    ("r17e", [(GB, "            u64 mask = MSB_64 >> (i & 0x3fu);\n            return (this->data[i >> 6] & mask) != 0;", "            return (this->data[i >> 6] >> (63 - (i & 0x3fu))) & 1;"),
              (GB, "            u64 mask = MSB_64 >> (i & 0x3fu);\n            this->data[i >> 6] |= mask;", "            u64& word = this->data[i >> 6];\n            word |= MSB_64 >> (i & 0x3fu);")], []),
    ("r17f", GC, """        for (u64 i = 0; i < dlen; i++) { this->data[i] &= other.data[i]; }
        this->data[dlen - 1] &= this->pad_cover;""", """        u64 i;
        for (i = 0; i != dlen - 1; ++i) this->data[i] = this->data[i] & other.data[i];
        this->data[i] = this->data[i] & other.data[i] & this->pad_cover;""", []),
    ("r17g", GC, """        std::vector<u64> ans(this->count());
        for (u64 i = 0, ct = 0; i < this->valid_len; i++)
        {
            if ((*this)[i])
            {
                ans[ct] = elements[i];
                ct++;
            }
        }
        return ans;
    }

}""", """        std::vector<u64> ans;
        ans.reserve(this->count());
        for (u64 i = 0; i < this->valid_len; i++)
        {
            if (!(*this)[i]) continue;
            ans.push_back(elements[i]);
        }
        return ans;
    }

}""", []),
    ("r17h", GB, """            u64 i = 0;
            u64 clear_len = 1 + (N >> 6);
            u64 dlen = ((this->valid_len & 0x3fu) != 0) + (this->valid_len >> 6);
            if (N == 0 || clear_len > dlen) clear_len = dlen;
            for (i = 0; i < clear_len; i++) this->data[i] = 0;""", """            const u64 dlen = ((this->valid_len & 0x3fu) != 0) + (this->valid_len >> 6);
            const u64 clear_len = N == 0 ? dlen : std::min(dlen, 1 + (N >> 6));
            std::fill(this->data, this->data + clear_len, 0);""", []),
    ("r17i", [(GB, "            u64 mask = MSB_64 >> (i & 0x3fu);\n            this->data[i >> 6] |= mask;", "            put(this->data[i >> 6], bit(i));"),
              (GB, "        void set(const u64 i)", """        static void put(u64& word, const u64 mask) { word |= mask; }
        static u64 bit(u64 i) { return MSB_64 >> (i % 64); }
        void set(const u64 i)"""),
              (GB, "            u64 mask = MSB_64 >> (i & 0x3fu);\n            this->data[i >> 6] ^= mask;", "            u64* const w = &this->data[i >> 6];\n            *w ^= bit(i);")], []),

    # ---- sorting and duplicates
    ("b19a", UT, "                std::swap(p1[j], p1[j - 1]);\n", "                std::swap(p1[j], p1[j]);\n", ["C19"]),
    ("b19b", UT, "                                                              : p1[j - 1] > p1[j]);", "                                                              : false);", ["C19"]),
    ("b19c", UT, "for (u64 i = start + 1; i < end; i++)", "for (u64 i = start + 2; i < end; i++)", ["C19"]),
    ("b19d", UT, "for (u64 i = start + 1; i < end; i++)", "for (u64 i = start + 1; i + 1 < end; i++)", ["C19"]),
    ("b19e", UT, "auto p = key_first ? p0 : p1;", "auto p = key_first ? p1 : p0;", ["C19"]),
    ("b19f", UT, "            if (!key_first) return;\n            shift = max_shift;", "            if (!key_first || max_shift == 0) return;\n            shift = max_shift;", ["C19"]),
    ("b19g", UT, "            shift = max_shift;\n            key_first = false;", "            shift = max_shift - 4;\n            key_first = false;", ["C19"]),
    ("b19h", UT, "if (starts[i] >= ends[i])", "if (starts[i] + 2 >= ends[i])", ["C19"]),
    ("b19i", UT, "radixSort(p0, p1, starts[i], ends[i], shift, key_first, max_shift);", "radixSort(p0, p1, starts[i], ends[i], shift, key_first, shift);", ["C19"]),
    ("b19j", UT, "(p0[result] != p0[start] || p1[result] != p1[start])", "(p0[result] != p0[start] && p1[result] != p1[start])", ["C19"]),
    ("b19k", UT, "                p1[result] = p1[start];\n", "                p1[result] = p1[start - 1];\n", ["C19"]),
    ("b19l", UT, "for (; m != 0; m >>= 4) radix_shift += 4;", "for (; m != 0; m >>= 8) radix_shift += 4;", ["C19"]),
    ("b19m", UT, "        radix_shift -= 4;\n        radixSort", "        radix_shift -= 8;\n        radixSort", ["C19"]),
    ("b19n", UT, "        edges.second.resize(m);", "        edges.second.resize(edges.second.size());", ["C19"]),
    ("b19o", UT, "        m = modUnique(edges.first.data(), edges.second.data(), 0, edges.first.size());", "        m = modUnique(edges.first.data(), edges.second.data(), 0, edges.first.size() - 1);", ["C19"]),
    ("b19p", UT, "for (i = 1; i < 16; i++) starts[i] = ends[i - 1];", "for (i = 1; i < 15; i++) starts[i] = ends[i - 1];", ["C19"]),
    ("b19q", UT, "        ends[0] += start;\n", "        ends[0] += start ? 1 : 0;\n", ["C19"]),
    ("b19r", UT, "            shift -= 4;\n", "            shift -= 8;\n", ["C19"]),
    ("b19s", UT, "        return ++result;", "        return result;", ["C19"]),
    ("b19t", UT, "for (i = start; i < end; i++) ends[(p[i] >> shift) & 0xF]++;", "for (i = start + 1; i < end; i++) ends[(p[i] >> shift) & 0xF]++;", ["C19"]),
    ("b19u", UT, "                insertionSort(p0, p1, starts[i], ends[i]);", "                insertionSort(p1, p0, starts[i], ends[i]);", ["C19"]),
    ("b19v", "detail/nwgraph/nwgraph.cpp", "clean_edges(n_vert + 1, edges);", "clean_edges(n_vert / 2, edges);", ["C19"]),
    ("b19w", UT, "                std::swap(p0[j], p0[j - 1]);\n", "                std::swap(p0[j], p1[j - 1]);\n", ["C19"]),
    ("b19x", UT, "        if (start == end) return end;", "        if (end - start <= 4) return end;", ["C19"]),
    ("b19y", UT, "                    std::swap(p1[j], p1[starts[k]]);\n                    starts[k]++;", "                    starts[k]++;\n                    std::swap(p1[j], p1[starts[k]]);", ["C19"]),
    ("b19z", UT, "p0[j - 1] != p0[j] ? p0[j - 1] > p0[j]", "p0[j - 1] != p0[j] ? p0[j - 1] < p0[j]", ["C19"]),
    ("r19a", UT, """        for (u64 i = start + 1; i < end; i++)
        {
            for (u64 j = i; j != start && (p0[j - 1] != p0[j] ? p0[j - 1] > p0[j]
                                                              : p1[j - 1] > p1[j]);
                 j--)
            {
                std::swap(p0[j], p0[j - 1]);
                std::swap(p1[j], p1[j - 1]);
            }
        }""", """        for (u64 i = start + 1; i < end; i++)
        {
            u64 j = i;
            while (j > start)
            {
                if (p0[j - 1] < p0[j]) break;
                if (p0[j - 1] == p0[j] && p1[j - 1] <= p1[j]) break;
                std::swap(p1[j - 1], p1[j]);
                std::swap(p0[j - 1], p0[j]);
                --j;
            }
        }""", []),
    ("r19b", UT, """        u64 result = start;
        while (++start != end)
        {
            if ((p0[result] != p0[start] || p1[result] != p1[start]) &&
                ++result != start)
            {
                p0[result] = p0[start];
                p1[result] = p1[start];
            }
        }
        return ++result;""", """        u64 kept = start;
        for (u64 i = start + 1; i < end; i++)
        {
            if (p0[kept] == p0[i] && p1[kept] == p1[i]) continue;
            kept++;
            p0[kept] = p0[i];
            p1[kept] = p1[i];
        }
        return kept + 1;""", []),
    ("r19c", UT, """        for (i = start; i < end; i++) ends[(p[i] >> shift) & 0xF]++;
        starts[0] = start;
        ends[0] += start;
        for (i = 1; i < 16; i++)
        {
            starts[i] = ends[i - 1];
            ends[i] = ends[i] + ends[i - 1];
        }""", """        for (i = start; i != end; ++i) ends[(p[i] >> shift) % 16] += 1;
        ends[0] += start;
        starts[0] = start;
        for (i = 1; i < 16; i++)
        {
            ends[i] += ends[i - 1];
            starts[i] = ends[i - 1];
        }""", []),
    ("r19d", UT, """        if (shift == 0)
        {
            if (!key_first) return;
            shift = max_shift;
            key_first = false;
        }
        else
            shift -= 4;
""", """        if (shift == 0 && !key_first) return;
        const u64 next = shift == 0 ? max_shift : shift - 4;
        key_first = key_first && shift != 0;
        shift = next;
""", []),
    ("r19e", UT, """            if (starts[i] >= ends[i])
                continue;
            else if (ends[i] - starts[i] <= 32)
                insertionSort(p0, p1, starts[i], ends[i]);
            else
                radixSort(p0, p1, starts[i], ends[i], shift, key_first, max_shift);""", """            const u64 lo = starts[i], hi = ends[i];
            if (hi > lo + 64)
                radixSort(p0, p1, lo, hi, shift, key_first, max_shift);
            else if (hi > lo + 1)
                insertionSort(p0, p1, lo, hi);""", []),
    ("r19f", UT, """        u64 m = n_vert, radix_shift = 0;
        for (; m != 0; m >>= 4) radix_shift += 4;
        radix_shift -= 4;
        radixSort(edges.first.data(), edges.second.data(), 0, edges.first.size(),
                  radix_shift, true, radix_shift);
        m = modUnique(edges.first.data(), edges.second.data(), 0, edges.first.size());
        edges.first.resize(m);
        edges.second.resize(m);""", """        const u64 n_edges = edges.first.size();
        u64* const a = edges.first.data();
        u64* const b = edges.second.data();
        u64 top = 0;
        for (u64 m = n_vert >> 4; m != 0; m >>= 4) top += 4;
        radixSort(a, b, 0, n_edges, top, true, top);
        const u64 kept = modUnique(a, b, 0, n_edges);
        edges.second.resize(kept);
        edges.first.resize(kept);""", []),
    ("r19g", [(UT, "                    std::swap(p0[j], p0[starts[k]]);\n                    std::swap(p1[j], p1[starts[k]]);\n                    starts[k]++;", "                    swapPair(p0, p1, j, starts[k]++);"),
              (UT, "                std::swap(p0[j], p0[j - 1]);\n                std::swap(p1[j], p1[j - 1]);", "                swapPair(p0, p1, j, j - 1);"),
              (UT, "    void insertionSort(u64* p0, u64* p1, u64 start, u64 end)\n    {", "    static void swapPair(u64* p0, u64* p1, u64 a, u64 b)\n    {\n        std::swap(p0[a], p0[b]);\n        std::swap(p1[a], p1[b]);\n    }\n    void insertionSort(u64* p0, u64* p1, u64 start, u64 end)\n    {")], []),
    ("r19h", [(UT, "k = (p[j] >> shift) & 0xF;", "k = digit(p[j], shift);"), (UT, "ends[(p[i] >> shift) & 0xF]++;", "ends[digit(p[i], shift)]++;"),
              (UT, "    void radixSort(u64* p0", "    static u64 digit(u64 x, u64 shift) { return (x >> shift) & 0xF; }\n    void radixSort(u64* p0")], []),
    ("r19i", UT, """                std::swap(p0[j], p0[j - 1]);
                std::swap(p1[j], p1[j - 1]);""", """                u64 t = p0[j];
                p0[j] = p0[j - 1];
                p0[j - 1] = t;
                t = p1[j];
                p1[j] = p1[j - 1];
                p1[j - 1] = t;""", []),
    ("r19j", [(UT, "p0[j - 1] != p0[j] ? p0[j - 1] > p0[j]\n                                                              : p1[j - 1] > p1[j]", "after(p0, p1, j - 1, j)"),
              (UT, "    void insertionSort(u64* p0, u64* p1, u64 start, u64 end)\n    {", "    static bool after(const u64* p0, const u64* p1, u64 a, u64 b)\n    {\n        if (p0[a] != p0[b]) return p0[a] > p0[b];\n        return p1[a] > p1[b];\n    }\n    void insertionSort(u64* p0, u64* p1, u64 start, u64 end)\n    {")], []),

    # ---- ordering of candidates
    ("b11a", DS, "if (G.vertices[vert].N <= G.vertices[cur].N) continue;", "if (G.vertices[vert].N < G.vertices[cur].N) continue;", ["C11"]),
    ("b11b", DR, "if (G.vertices[vert].N < G.vertices[cur].N) continue;", "if (G.vertices[vert].N <= G.vertices[cur].N) continue;", ["C11"]),
    ("b11c", EN, "for (j = G.vertices[cur].spos + 1; j < G.vertices[cur].N; j++)", "for (j = G.vertices[cur].spos + 1; j + 1 < G.vertices[cur].N; j++)", ["C11"]),
    ("b11d", HE, "for (i = 0, j = 0; i < G.vertices[cur].spos; i++)", "for (i = 1, j = 0; i < G.vertices[cur].spos; i++)", ["C11"]),
    ("b11e", ND, "if (G.vertices[vert].degree < G.vertices[cur].degree) continue;", "if (G.vertices[vert].N < G.vertices[cur].N) continue;", ["C11"]),
    ("b11f", GR, "mcs += (vertices[vert].N > vertices[cur].N);", "mcs += (vertices[vert].N > vertices[cur].N + 1);", ["C11"]),
    ("b11g", GR, "            for (; j < this->vertices[cur].N; j++)", "            for (j++; j < this->vertices[cur].N; j++)", ["C11"]),
    ("b11h", NG, "                if (vertices[vert].degree >= vertices[cur].degree)", "                if (vertices[vert].degree > vertices[cur].degree)", ["C11"]),
    ("b11i", NE, "if (G.vertices[vert].degree <= G.vertices[cur].degree) continue;", "if (G.vertices[vert].weight <= G.vertices[cur].weight) continue;", ["C11"]),
    ("b11j", NH, "for (i = G.vertices[cur].spos + 1; i < G.vertices[cur].N; i++)", "for (i = G.vertices[cur].spos; i < G.vertices[cur].N; i++)", ["C11"]),
    ("b11k", GR, "            vertices[cur].mcs = mcs;", "            vertices[cur].mcs = mcs - (mcs > 1);", ["C11"]),
    ("b11l", DS, "            if (G.vertices[vert].N < G.vertices[cur].N) continue;\n            x.cand.set(j);\n            this->clique_potential++;", "            if (G.vertices[vert].N < G.vertices[cur].N) continue;\n            x.cand.set(j);\n            if (vert > cur + 1) this->clique_potential++;", ["C11"]),
    ("b11m", DR, "            if (G.vertices[vert].N <= G.vertices[cur].N) continue;", "            if (G.vertices[vert].N <= G.vertices[cur].N || G.vertices[vert].mcs == 1) continue;", ["C11"]),
    ("r11a", DS, """        for (j = 0; j < G.vertices[cur].spos; j++)
        {
            vert = G.edge_list[G.vertices[cur].elo + j];
            if (G.vertices[vert].N <= G.vertices[cur].N) continue;
            x.cand.set(j);
            this->clique_potential++;
        }
""", """        const u64 own = G.vertices[cur].N;
        const u64* const list = &G.edge_list[G.vertices[cur].elo];
        j = 0;
        while (j != G.vertices[cur].spos)
        {
            vert = list[j];
            if (own < G.vertices[vert].N)
            {
                this->clique_potential += 1;
                x.cand.set(j);
            }
            ++j;
        }
""", []),
    ("r11b", DR, """        for (j = 0; j < G.vertices[cur].spos; j++)
        {
            vert = G.edge_list[G.vertices[cur].elo + j];
            if (G.vertices[vert].N <= G.vertices[cur].N) continue;
            cand.set(j);
            clique_potential++;
        }

        // vertices with a greater label haven't been the root of a search tree
        // yet, hence also consider those with equal degrees; the above loop
        // will ensure the search subtree is not re-traversed
        for (j = G.vertices[cur].spos + 1; j < G.vertices[cur].N; j++)
        {
            vert = G.edge_list[G.vertices[cur].elo + j];
            if (G.vertices[vert].N < G.vertices[cur].N) continue;
            cand.set(j);
            clique_potential++;
        }""", """        for (j = 0; j < G.vertices[cur].N; j++)
        {
            if (j == G.vertices[cur].spos) continue;
            vert = G.edge_list[G.vertices[cur].elo + j];
            const u64 need = G.vertices[cur].N + (j < G.vertices[cur].spos ? 1 : 0);
            if (G.vertices[vert].N < need) continue;
            cand.set(j);
            clique_potential++;
        }""", []),
    ("r11c", GR, """                mcs += (vertices[vert].N > vertices[cur].N);""", """                if (vertices[cur].N < vertices[vert].N) mcs++;""", []),
    ("r11d", [(GR, "            mcs = 0;\n            for (j = 0;", "            mcs = 1;\n            for (j = 0;"), (GR, "            for (; j < this->vertices[cur].N; j++)", "            for (j++; j < this->vertices[cur].N; j++)")], []),
    ("r11e", NE, """            if (G.vertices[vert].degree < G.vertices[cur].degree) continue;
            x.cand.set(j);
            weights[j] = G.vertices[vert].weight;
            this->clique_potential += G.vertices[vert].weight;""", """            const auto& other = G.vertices[vert];
            if (!(other.degree >= G.vertices[cur].degree)) continue;
            weights[j] = other.weight;
            this->clique_potential += weights[j];
            x.cand.set(j);""", []),
    ("r11f", HE, """            neighbors[j].load(G.edge_list[G.vertices[cur].elo + i], 0, i);
            if (G.vertices[neighbors[j].id].N <= G.vertices[cur].N) continue;
            neighbors[j].N = G.vertices[neighbors[j].id].N;
            j++;""", """            const u64 id = G.edge_list[G.vertices[cur].elo + i];
            if (G.vertices[id].N <= G.vertices[cur].N) continue;
            neighbors[j++].load(id, G.vertices[id].N, i);""", []),
    # C12
    ("b12a", DR, "G.vertices[vert].N - start,", "G.vertices[vert].N - start - 1,", ["C12"]),
    ("b12b", DS, "start = G.vertices[vert].spos;", "start = G.vertices[cur].spos;", ["C12"]),
    ("b12c", EN, "if (!cur_state.cand[k]) continue;\n                    if (binary_find(&(G.edge_list[G.vertices[vert].elo + start]),", "if (!cur_state.cand[k]) continue;\n                    if (binary_find(&(G.edge_list[G.vertices[cur].elo + start]),", ["C12"]),
    ("b12d", DS, "for (auto k : to_remove) future_state.cand.reset(k);", "for (auto k : to_remove) cur_state.cand.reset(k);", ["C12"]),
    ("b12e", DS, "                to_remove.clear();\n", "", ["C12"]),
    ("b12f", DR, "search_vertex(G, cur, future_cand, res);", "search_vertex(G, cur, cand, res);", ["C12"]),
    ("b12g", DR, "for (k = j + 1; k < G.vertices[cur].N; k++)", "for (k = j + 2; k < G.vertices[cur].N; k++)", ["C12"]),
    ("b12h", HE, "for (j = i + 1; j < cand_max; j++)", "for (j = i + 1; j < candidates_left; j++)", ["C12"]),
    ("b12i", HE, "G.find_if_neighbors(neighbors[j].id, neighbors[i].id, ans) == FOUND)", "G.find_if_neighbors(neighbors[j].id, cur, ans) == FOUND)", ["C12"]),
    ("b12j", ND, "G.vertices[vert].N - G.vertices[vert].spos,", "G.vertices[vert].N - G.vertices[cur].spos,", ["C12"]),
    ("b12k", NE, "G.edge_list[G.vertices[cur].elo + k], ans) != FOUND)", "G.edge_list[G.vertices[cur].elo + j], ans) != FOUND)", ["C12"]),
    ("b12l", UH, "beg = loc + 1;", "beg = loc + 2;", ["C12"]),
    ("b12m", UH, "if (a[loc] == val)", "if (a[loc] >= val)", ["C12"]),
    ("b12t", "detail/graph/graph.h", "this->vertices[v1_id].N, v2_id, v2_position);", "this->vertices[v1_id].N - 1, v2_id, v2_position);", ["C12"]),
    ("b12n", NH, "for (j = i + 1; j < cand_max; j++)", "for (j = i + 2; j < cand_max; j++)", ["C12"]),
    ("b12o", EN, "k < G.vertices[cur].N && clique_potential >= this->REQUIRED_SIZE;", "k < G.vertices[cur].N && to_remove.size() < candidates_left;", ["C12"]),
    ("b12p", DR, "future_cand.copy_data(cand);", "future_cand.copy_data(prev_cand);", ["C12"]),
    ("b12q", DS, "k = cur_state.cand.next(k + 1))", "k = cur_state.cand.next(k + 2))", ["C12"]),
    ("b12r", DR, "start += ans;", "start += ans + 1;", ["C12"]),
    ("b12s", NE, "cand_potential -= this->weights[k];\n                        candidates_left -= 1;\n                    }", "cand_potential -= this->weights[k];\n                        candidates_left -= 1;\n                        break;\n                    }", ["C12"]),
    ("r12a", DR, "start = G.vertices[vert].spos + 1;", "start = G.vertices[vert].spos;", []),
    ("r12b", DR, "if (!future_cand[k]) continue;\n", "if (future_cand[k] == 0) continue;\n                u64 other = G.edge_list[G.vertices[cur].elo + k];\n", []),
    ("r12c", DS, "for (auto k : to_remove) future_state.cand.reset(k);", "for (u64 z = 0; z < to_remove.size(); z++) future_state.cand.reset(to_remove[z]);", []),
    ("r12d", EN, "start += ans;\n", "start = start + ans;\n", []),
    ("r12e", HE, """                if (!cand[neighbors[j].pos] ||
                    G.find_if_neighbors(neighbors[j].id, neighbors[i].id, ans) == FOUND)
                    continue;
                else
                {
                    candidates_left--;
                    cand.reset(neighbors[j].pos);
                }""", """                if (cand[neighbors[j].pos] &&
                    G.find_if_neighbors(neighbors[i].id, neighbors[j].id, ans) != FOUND)
                {
                    cand.reset(neighbors[j].pos);
                    candidates_left--;
                }""", []),
    ("r12f", ND, """                    if (binary_find(&(G.edge_list[G.vertices[vert].elo +
                                                  G.vertices[vert].spos]),
                                    G.vertices[vert].N - G.vertices[vert].spos,
                                    G.edge_list[G.vertices[cur].elo + k], ans) != FOUND)""", """                    const u64 place = G.vertices[vert].spos;
                    const bool there = binary_find(&(G.edge_list[G.vertices[vert].elo + place]), G.vertices[vert].N - place,
                                    G.edge_list[G.vertices[cur].elo + k], ans) == FOUND;
                    if (!there)""", []),
    ("r12g", UH, """            if (a[loc] == val)
                return FOUND;
            else if (a[loc] < val)
                beg = loc + 1;
            else
                end = loc - 1;""", """            if (a[loc] < val)
                beg = loc + 1;
            else if (a[loc] > val)
                end = loc - 1;
            else
                return FOUND;""", []),
    ("r12h", DR, """            for (k = j + 1; k < G.vertices[cur].N; k++)
            {
                if (!future_cand[k]) continue;""", """            for (k = future_cand.next(j + 1); k < G.vertices[cur].N; k = future_cand.next(k + 1))
            {""", []),
    ("r12i", DR, "            res.set(j);\n            cand.reset(j);\n\n            // copy the list of candidates to pass to the recursive call\n            future_cand.copy_data(cand);\n", "            cand.reset(j);\n            future_cand.copy_data(cand);\n            res.set(j);\n", []),
    ("r12j", EN, """                for (k = j + 1;
                     k < G.vertices[cur].N && clique_potential >= this->REQUIRED_SIZE;
                     k++)
                {""", """                k = j;
                while (true)
                {
                    ++k;
                    if (k >= G.vertices[cur].N || clique_potential < this->REQUIRED_SIZE) break;""", []),
    # C10
    ("b10a", DR, "            G.CUR_MAX_CLIQUE_LOCATION = cur;\n", "", ["C10"]),
    ("b10b", DS, "                        G.vertices[cur].bits.copy_data(cur_state.res);\n                        G.CUR_MAX_CLIQUE_SIZE = clique_potential;", "                        G.CUR_MAX_CLIQUE_SIZE = clique_potential;", ["C10"]),
    ("b10c", DR, "if (clique_potential <= G.CUR_MAX_CLIQUE_SIZE)\n            return;", "if (clique_potential < G.CUR_MAX_CLIQUE_SIZE)\n            return;", ["C10"]),
    ("b10d", DS, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);", "                        G.vertices[cur].bits.copy_data(cur_state.res);\n                        cur_state.res.set(j);", ["C10"]),
    ("b10e", HE, "G.CUR_MAX_CLIQUE_SIZE = cur_clique_size;", "G.CUR_MAX_CLIQUE_SIZE = cur_clique_size + 1;", ["C10"]),
    ("b10f", ND, "clique_weight -= this->weights[cur_state.id];", "clique_weight -= this->weights[j];", ["C10"]),
    ("b10g", DS, "                cur_state.res.reset(cur_state.id);\n                clique_size--;", "                cur_state.res.reset(cur_state.id);", ["C10"]),
    ("b10h", NH, "cur_clique_weight = G.vertices[cur].weight;", "cur_clique_weight = 0;", ["C10"]),
    ("b10i", ND, "clique_weight += this->weights[j];", "clique_weight += this->weights[k];", ["C10"]),
    ("b10j", HE, "if (clique_potential <= G.CUR_MAX_CLIQUE_SIZE)", "if (clique_potential < G.CUR_MAX_CLIQUE_SIZE)", ["C10"]),
    ("b10k", ND, "if (G.vertices[cur].weight > G.CUR_MAX_CLIQUE_SIZE)", "if (G.vertices[cur].weight >= G.CUR_MAX_CLIQUE_SIZE)", ["C10"]),
    ("b10l", DR, "if (candidates_left == 0)", "if (candidates_left <= 1)", ["C10"]),
    ("b10m", DS, "                        // search can now continue without vert\n                        cur_state.res.reset(j);", "                        // search can now continue without vert", ["C10"]),
    ("b10n", NH, "cur_clique_weight += G.vertices[neighbors[i].id].weight;", "cur_clique_weight += G.vertices[neighbors[i].pos].weight;", ["C10"]),
    ("b10o", HE, "            else if (candidates_left == 0)\n            {", "            else\n            {", ["C10"]),
    ("b10q", NH, "cand_potential -= G.vertices[neighbors[j].id].weight;", "cand_potential -= G.vertices[neighbors[i].id].weight;", ["C10"]),
    ("r10a", DR, "            G.vertices[cur].bits.copy_data(res);\n            G.CUR_MAX_CLIQUE_SIZE = clique_potential;\n            G.CUR_MAX_CLIQUE_LOCATION = cur;", "            G.CUR_MAX_CLIQUE_LOCATION = cur;\n            G.CUR_MAX_CLIQUE_SIZE = res.count();\n            G.vertices[cur].bits.copy_data(res);", []),
    ("r10b", DS, "clique_size = 1;\n", "clique_size = states.back().res.count();\n", []),
    ("r10c", DS, "                        G.CUR_MAX_CLIQUE_SIZE = clique_potential;", "                        G.CUR_MAX_CLIQUE_SIZE = clique_size + 1;", []),
    ("r10d", ND, "clique_weight += this->weights[j];\n\n                        // remove invalid members from the candidate set\n                        for (auto k : to_remove) future_state.cand.reset(k);", "for (auto k : to_remove) future_state.cand.reset(k);\n                        clique_weight = clique_weight + this->weights[j];", []),
    ("r10e", HE, "            res.set(neighbors[i].pos);\n            cur_clique_size++;\n            cand.reset(neighbors[i].pos);\n            candidates_left--;", "            cand.reset(neighbors[i].pos);\n            candidates_left -= 1;\n            cur_clique_size += 1;\n            res.set(neighbors[i].pos);", []),
    ("r10f", [(HE, "                G.CUR_MAX_CLIQUE_SIZE = cur_clique_size;\n                G.CUR_MAX_CLIQUE_LOCATION = cur;\n                G.vertices[cur].bits.copy_data(res);", "                record(G, cur, res);"),
              (HE, "    void DegreeHeuristic::process_vertex(", "    void DegreeHeuristic::record(graph& G, u64 cur, const graphBits& res)\n    {\n        G.vertices[cur].bits.copy_data(res);\n        G.CUR_MAX_CLIQUE_SIZE = cur_clique_size;\n        G.CUR_MAX_CLIQUE_LOCATION = cur;\n    }\n\n    void DegreeHeuristic::process_vertex("),
              ("detail/graph/heuristic.h", "u64 process_graph(graph&", "void record(graph& G, u64 cur, const graphBits& res);\n        u64 process_graph(graph&")], []),
    ("r10g", DR, "u64 clique_potential = candidates_left + res.count();", "const u64 members = res.count();\n        const u64 clique_potential = members + candidates_left;", []),
    ("r10h", ND, "clique_potential = cand_potential + clique_weight + this->weights[j];", "clique_potential = clique_weight + this->weights[j] + cand_potential;", []),
    # C13
    ("b13a", [(IT, "        pygraph& pg;\n        pybind11::object rf;\n        std::shared_ptr<detail::CliqueEnumerator> en;\n\n", "        pygraph& pg;\n        pybind11::handle rf;\n        std::shared_ptr<detail::CliqueEnumerator> en;\n\n")], ["C13"]),
    ("b13b", [(IT, "        NWCliqueIterator(pynwgraph& p, pybind11::object rf, double clique_size)\n            : pg(p), rf(rf), en", "        NWCliqueIterator(pynwgraph& p, pybind11::object rf, double clique_size)\n            : pg(p), en")], ["C13"]),
    ("b13c", WR, "{ return cm_core::CliqueIterator(s.cast<pygraph&>(), s, clique_size); }", "{ return cm_core::CliqueIterator(s.cast<pygraph&>(), py::none(), clique_size); }", ["C13"]),
    ("b13d", IC, "            v = en->process_graph(*(pg.G));\n            if (v > pg.nvert) break;\n            return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));\n        }\n        throw pybind11::stop_iteration();\n    }\n\n    std::vector<u64> NW", "            v = en->process_graph(*(pg.G));\n            if (v >= pg.nvert) break;\n            return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));\n        }\n        throw pybind11::stop_iteration();\n    }\n\n    std::vector<u64> NW", ["C13"]),
    ("b13e", IC, "    std::vector<u64> NWCliqueIterator::next_clique()\n    {\n        u64 v;\n        while (true)\n        {\n            v = en->process_graph(*(pg.G));\n            if (v > pg.nvert) break;\n            return pg.G->get_max_clique(v);", "    std::vector<u64> NWCliqueIterator::next_clique()\n    {\n        u64 v;\n        while (true)\n        {\n            v = en->process_graph(*(pg.G));\n            if (v > pg.nvert) break;\n            return pg.G->get_max_clique();", ["C13"]),
    ("b13f", IC, "        throw pybind11::stop_iteration();\n    }\n\n    std::vector<u64> NW", "        rf.release();\n        throw pybind11::stop_iteration();\n    }\n\n    std::vector<u64> NW", ["C13"]),
    ("b13g", EN, "            cur = G.n_vert;\n            return cur;", "            return G.n_vert;", []),
    ("b13h", EN, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);\n", "                        G.vertices[cur].bits.copy_data(cur_state.res);\n                        cur_state.res.set(j);\n", ["C13"]),
    ("b13i", EN, "        // now cur = G.n_vert, there are no more cliques to be found", "        if (cur >= G.n_vert)\n        {\n            cur = 0;\n            return G.n_vert;\n        }\n        // now cur = G.n_vert, there are no more cliques to be found", ["C13"]),
    ("b13j", NE, "                        return cur;\n", "                        return vert;\n", ["C13"]),
    ("b13k", IC, "            if (v > pg.nvert) break;\n            return pg.G->get_max_clique(v);\n        }\n        throw pybind11::stop_iteration();\n    }\n\n    std::pair<std::vector<u64>, std::vector<u64>> Corr", "            if (v > pg.nvert) break;\n            return pg.G->get_max_clique(v);\n        }\n        en.reset(new detail::CliqueEnumerator(1));\n        throw pybind11::stop_iteration();\n    }\n\n    std::pair<std::vector<u64>, std::vector<u64>> Corr", ["C13"]),
    ("b13l", IC, "            if (v > pg.nvert) break;\n            return pg.G->get_max_clique(v);\n        }\n        throw pybind11::stop_iteration();\n    }\n\n    std::pair<std::vector<u64>, std::vector<u64>> Corr", "            if (v > pg.nvert + 1) break;\n            return pg.G->get_max_clique(v);\n        }\n        throw pybind11::stop_iteration();\n    }\n\n    std::pair<std::vector<u64>, std::vector<u64>> Corr", ["C13"]),
    ("b13m", EN, "            G.vertices[cur].bits.clear();\n            G.vertices[cur].bits.set(G.vertices[cur].spos);\n            return cur++;", "            return cur++;", ["C13"]),
    ("b13n", EN, "            return cur++;", "            return ++cur;", ["C13"]),
    ("b13o", DH, "cur(size == 1 ? 1 : 0)", "cur(0)", ["C13"]),
    ("b13p", IC, "        throw pybind11::stop_iteration();\n    }\n}  // namespace core", "        throw CM_ERROR(\"no more cliques\");\n    }\n}  // namespace core", ["C13"]),
    ("b13q", NE, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);\n\n                        // search can now continue without vert\n                        cur_state.res.reset(j);", "                        G.vertices[cur].bits.copy_data(cur_state.res);", ["C13"]),
    ("r13a", IC, "        u64 v;\n        while (true)\n        {\n            v = en->process_graph(*(pg.G));\n            if (v > pg.nvert) break;\n            return pg.G->get_max_clique(v);\n        }\n        throw pybind11::stop_iteration();\n    }\n\n    std::pair<std::vector<u64>, std::vector<u64>> Corr", "        const u64 v = en->process_graph(*(pg.G));\n        if (v > pg.nvert) throw pybind11::stop_iteration();\n        auto ans = pg.G->get_max_clique(v);\n        return ans;\n    }\n\n    std::pair<std::vector<u64>, std::vector<u64>> Corr", []),
    ("r13b", WR, "{ return cm_core::CliqueIterator(s.cast<pygraph&>(), s, clique_size); }", "{\n                auto& g = s.cast<pygraph&>();\n                return cm_core::CliqueIterator(g, s, clique_size);\n            }", []),
    ("r13c", [(IT, "CliqueIterator(pygraph& p, pybind11::object rf, u64 clique_size)\n            : pg(p), rf(rf), en", "CliqueIterator(pygraph& p, pybind11::object owner, u64 clique_size)\n            : pg(p), rf(std::move(owner)), en")], []),
    ("r13d", EN, "            return cur++;", "            const u64 found = cur;\n            cur = cur + 1;\n            return found;", []),
    ("r13e", EN, "                        cur_state.res.set(j);\n                        G.vertices[cur].bits.copy_data(cur_state.res);\n\n                        // search can now continue without vert\n                        cur_state.res.reset(j);", "                        cur_state.res.set(j);\n                        auto& root = G.vertices[cur];\n                        root.bits.copy_data(cur_state.res);\n                        cur_state.res.reset(j);", []),
    ("r13f", [(IC, "    std::vector<u64> CliqueIterator::next_clique()\n    {\n        u64 v;\n        while (true)\n        {\n            v = en->process_graph(*(pg.G));\n            if (v > pg.nvert) break;\n", "    u64 CliqueIterator::advance()\n    {\n        u64 v = en->process_graph(*(pg.G));\n        if (v > pg.nvert) throw pybind11::stop_iteration();\n        return v;\n    }\n    std::vector<u64> CliqueIterator::next_clique()\n    {\n        u64 v;\n        while (true)\n        {\n            v = advance();\n"),
              (IT, "        std::vector<u64> next_clique();\n    };\n\n    class CorrespondenceIterator", "        u64 advance();\n        std::vector<u64> next_clique();\n    };\n\n    class CorrespondenceIterator")], []),
    ("r13g", [(WR, "{ return cm_core::CliqueIterator(s.cast<pygraph&>(), s, clique_size); }", "{ return make_iterator(s, s.cast<pygraph&>(), clique_size); }"),
              (WR, "void init_pygraph(", "static core::CliqueIterator make_iterator(pybind11::object o, core::pygraph& g, u64 n)\n{\n    return core::CliqueIterator(g, o, n);\n}\n\nvoid init_pygraph(")], []),
    ("r13h", NE, "        // now cur = G.n_vert, there are no more cliques to be found", "        if (!states.empty()) states.clear();\n        // now cur = G.n_vert, there are no more cliques to be found", []),
    # C09
    ("b09a", DS, "G.clear_memory(2 * request_size);  // clear x.cand, x.res", "G.clear_memory(request_size);", ["C09"]),
    ("b09b", DS, "            G.clear_memory(request_size * states.size());\n", "", ["C09"]),
    ("b09c", ND, "request_size * states.size()", "request_size * (states.size() - 1)", ["C09"]),
    ("b09d", DS, "            states.clear();\n", "", ["C09"]),
    ("b09e", [(DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;  // out of time, stop searching the graph immediately\n", ""),
              (DR, "        u64 j, k, vert, start, ans = 0;\n", "        if (G.elapsed_time() > this->TIME_LIMIT) return;\n        u64 j, k, vert, start, ans = 0;\n")], ["C09"]),
    ("b09f", DR, "        G.clear_memory(2 * request_size);  // releasing memory of cand, future_cand that", "        G.clear_memory(request_size);  // that", ["C09"]),
    ("b09g", HE, "G.clear_memory(2 * request_size);", "G.clear_memory(request_size);", ["C09"]),
    ("b09h", NH, "        process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION, res, cand);\n", "        process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION, res, cand);\n        if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT) return 0;\n", ["C09"]),
    ("b09i", EN, "            G.clear_memory(2 * request_size);  // release x.cand, x.res\n", "", ["C09"]),
    ("b09j", EN, "                G.clear_memory(request_size);\n                // later", "                // later", ["C09"]),
    ("b09k", NE, "                states.pop_back();\n                G.clear_memory(request_size);\n", "                states.pop_back();\n                if (!states.empty()) G.clear_memory(request_size);\n", ["C09"]),
    ("b09l", GH, "for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;", "for (u64 i = 1; i < N; i++) edge_bits[search_cur + i] = 0;", ["C09"]),
    ("b09m", NGH, "            for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;\n", "", ["C09"]),
    ("b09n", NGH, "            u64* loc = &(edge_bits[search_cur]);\n            search_cur += N;\n            return loc;", "            search_cur += N;\n            return &(edge_bits[search_cur]);", ["C09"]),
    ("b09o", NE, "            G.clear_memory(2 * request_size);  // release x.cand, x.res", "            G.clear_memory(request_size);", ["C09"]),
    ("b09p", "detail/graph/clique.h", "request_size = 0", "request_size = 1", ["C09"]),
    ("b09q", HE, "        u64 ans;\n        u64 i, j;\n        candidates_left = 0;", "        request_size = (G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;\n        u64 ans;\n        u64 i, j;\n        candidates_left = 0;", ["C09"]),
    ("b09r", HE, "        G.clear_memory(2 * request_size);  // release memory\n        return i;", "        G.clear_memory(2 * request_size);  // release memory\n        if (i == G.n_vert) process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION, res, cand);\n        return i;", ["C09"]),
    ("b09s", ND, "                states.pop_back();\n                G.clear_memory(request_size);\n", "                states.pop_back();\n                G.clear_memory(states.empty() ? 2 * request_size : request_size);\n", ["C09"]),
    ("b09t", DR, "        if (clique_potential > G.CUR_MAX_CLIQUE_SIZE) search_vertex(G, cur, cand, res);", "        if (clique_potential <= G.CUR_MAX_CLIQUE_SIZE) return;\n        search_vertex(G, cur, cand, res);", ["C09"]),
    ("b09u", GH, "            search_cur -= N;\n            for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;", "            for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;\n            search_cur -= N;", ["C09"]),
    ("b09v", DS, "                        cur_state.res.reset(j);\n                    }\n", "                        cur_state.res.reset(j);\n                        if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT) return;\n                    }\n", ["C09"]),
    ("r09a", DS, "G.clear_memory(2 * request_size);  // clear x.cand, x.res", "G.clear_memory(request_size);\n            G.clear_memory(request_size);", [], SEARCH),
    ("r09b", DS, "            G.clear_memory(request_size * states.size());\n            states.clear();\n", "            while (!states.empty())\n            {\n                states.pop_back();\n                G.clear_memory(request_size);\n            }\n", [], SEARCH),
    ("r09c", [(GH, "for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;", "std::fill(edge_bits.begin() + search_cur, edge_bits.begin() + search_cur + N, 0);"), (GH, "#include <", "#include <algorithm>\n#include <")], [], SEARCH),
    ("r09d", ND, "            G.clear_memory(request_size * states.size());\n            states.clear();\n        }\n\n        G.clear_memory(request_size);", "            G.clear_memory(request_size * (states.size() + 1));\n            states.clear();\n            return;\n        }\n\n        G.clear_memory(request_size);", [], SEARCH),
    ("r09e", GH, "            search_cur -= N;\n            for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;", "            const u64 end = search_cur;\n            search_cur = end - N;\n            for (u64 i = search_cur; i < end; i++) edge_bits[i] = 0;", [], SEARCH),
    ("r09f", NGH, "            search_cur -= N;\n            for (u64 i = 0; i < N; i++) edge_bits[search_cur + i] = 0;", "            u64 left = N;\n            while (left > 0)\n            {\n                --left;\n                --search_cur;\n                edge_bits[search_cur] = 0;\n            }", [], SEARCH),
    ("r09g", DR, "        cand.copy_from(prev_cand, G.load_memory(request_size));\n        future_cand.copy_from(prev_cand, G.load_memory(request_size));", "        u64* mem = G.load_memory(2 * request_size);\n        cand.copy_from(prev_cand, mem);\n        future_cand.copy_from(prev_cand, mem + request_size);", [], SEARCH),
    ("r09h", EN, "                states.pop_back();\n                G.clear_memory(request_size);\n\n                // remove v from clique consideration because the future\n                // candidates will not have it as part of the clique\n                cur_state.res.reset(cur_state.id);\n", "                cur_state.res.reset(cur_state.id);\n                G.clear_memory(request_size);\n                states.pop_back();\n", [], SEARCH),
    ("r09i", [(EN, "                G.clear_memory(request_size);\n                // later", "                this->release(G, 1);\n                // later"), (EN, "            G.clear_memory(2 * request_size);  // release x.cand, x.res\n", "            release(G, 2);\n"),
              (EN, "    void CliqueEnumerator::process_vertex(", "    void CliqueEnumerator::release(graph& G, u64 units)\n    {\n        G.clear_memory(units * request_size);\n    }\n\n    void CliqueEnumerator::process_vertex("),
              (DH, "bool load_vertex(graph&);", "bool load_vertex(graph&);\n        void release(graph& G, u64 units);")], [], SEARCH),
    ("r09j", DR, "        if (clique_potential > G.CUR_MAX_CLIQUE_SIZE) search_vertex(G, cur, cand, res);", "        if (clique_potential <= G.CUR_MAX_CLIQUE_SIZE)\n        {\n            G.clear_memory(request_size * 2);\n            return;\n        }\n        search_vertex(G, cur, cand, res);", [], SEARCH),
    ("r09k", HE, "        G.clear_memory(2 * request_size);  // release memory\n        return i;", "        const u64 words = request_size + request_size;\n        G.clear_memory(words);\n        return i;", [], SEARCH),
    ("r09l", NE, "            if (states.empty())\n            {\n                // when constructed, request_size = 0, so nothing happens\n                G.clear_memory(request_size);", "            if (states.size() == 0)\n            {\n                if (request_size > 0) G.clear_memory(request_size);", [], SEARCH),
    ("r09m", NE, "        while (cur < G.n_vert)  // go through all vertices of the graph\n        {\n", "        for (;;)\n        {\n            if (cur >= G.n_vert) return cur;\n", [], SEARCH),
    ("r09n", EN, "        for (cur++; cur < G.vertices.size(); cur++)\n        {\n            if (G.vertices[cur].mcs < this->REQUIRED_SIZE) continue;\n            if (load_vertex(G)) break;\n        }", "        while (++cur < G.n_vert)\n        {\n            if (G.vertices[cur].mcs >= this->REQUIRED_SIZE && load_vertex(G)) return;\n        }", [], SEARCH),
    # C20
    ("b20a", DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;  // out of time, stop searching the graph immediately\n", "", ["C20"]),
    ("b20b", DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;", "        if (G.elapsed_time() < this->TIME_LIMIT)\n            return;", ["C20"]),
    ("b20c", DR, "            if (G.elapsed_time() > this->TIME_LIMIT) break;\n", "", ["C20"]),
    ("b20d", DR, "        return i;\n    }\n\n    void RecursionDFS::process_vertex", "        return i < G.n_vert ? i + 1 : i;\n    }\n\n    void RecursionDFS::process_vertex", ["C20"]),
    ("b20e", DR, "u64 i = start_vertex;", "u64 i = start_vertex + 1;", ["C20"]),
    ("b20f", DS, "            if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT) break;\n", "            if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT || G.elapsed_time() > 600) break;\n", ["C20"]),
    ("b20g", CQ, "if (time_limit <= 0)", "if (time_limit < 0)", ["C20"]),
    ("b20h", [(CQ, "        this->start_time = std::chrono::steady_clock::now();\n        if (use_heur)", "        if (use_heur)"), (CQ, "            this->start_time = std::chrono::steady_clock::now();\n            if (use_dfs)", "            if (use_dfs)")], ["C20"]),
    ("b20i", HE, "G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT; i++)", "G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT && G.elapsed_time() < 5; i++)", ["C20"]),
    ("b20j", CQ, "            this->start_time = std::chrono::steady_clock::now();\n            if (use_dfs) start_vert = dfs.process_graph((*this));", "            this->start_time = std::chrono::steady_clock::now();\n            if (use_dfs) dfs.process_graph((*this));", ["C20"]),
    ("b20l", DR, "if (G.elapsed_time() > this->TIME_LIMIT) break;", "if (G.elapsed_time() > this->TIME_LIMIT) continue;", ["C20"]),
    ("b20m", EN, "        while (cur < G.n_vert)  // go", "        while (cur < G.n_vert && G.elapsed_time() < 3600)  // go", ["C20"]),
    ("b20n", DR, "if (G.elapsed_time() > this->TIME_LIMIT) break;", "if (G.elapsed_time() > this->TIME_LIMIT)\n            {\n                i = G.n_vert;\n                break;\n            }", ["C20"]),
    ("b20o", DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;", "        if (candidates_left > 64 && G.elapsed_time() > this->TIME_LIMIT)\n            return;", ["C20"]),
    ("b20p", PG, "        finished_all = (current_vertex > nvert);", "        if (time_limit > 0 && current_vertex <= nvert) current_vertex++;\n        finished_all = (current_vertex > nvert);", ["C20"]),
    ("b20q", CQ, "        return this->elapsed_time();", "        if (this->elapsed_time() > 60) start_vert = 0;\n        return this->elapsed_time();", ["C20"]),
    ("b20r", CQ, "        if (time_limit <= 0)\n        {\n            StackDFS dfs;\n            if (use_dfs) start_vert = dfs.process_graph((*this));\n        }\n        else", "        if (time_limit <= 0 || this->n_vert < 64)\n        {\n            StackDFS dfs;\n            if (use_dfs) start_vert = dfs.process_graph((*this));\n        }\n        else", ["C20"]),
    ("b20s", DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;  // out of time, stop searching the graph immediately\n", "        if (G.elapsed_time() > this->TIME_LIMIT && candidates_left > 0)\n        {\n            if (clique_potential > G.CUR_MAX_CLIQUE_SIZE)\n            {\n                G.CUR_MAX_CLIQUE_LOCATION = cur;\n            }\n            return;\n        }\n", ["C20"]),
    ("r20a", [(DR, "            if (G.elapsed_time() > this->TIME_LIMIT) break;", "            if (this->expired(G)) break;"), (DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;", "        if (expired(G)) return;"),
              (DR, "    u64 RecursionDFS::process_graph", "    bool RecursionDFS::expired(const graph& G) const\n    {\n        return G.elapsed_time() > TIME_LIMIT;\n    }\n\n    u64 RecursionDFS::process_graph"),
              (DH, "RecursionDFS(u64 v, double t)", "bool expired(const graph&) const;\n        RecursionDFS(u64 v, double t)")], [], SEARCH + ["C20"]),
    ("r20b", DR, "        if (G.elapsed_time() > this->TIME_LIMIT)\n            return;  // out of time, stop searching the graph immediately\n        if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT)\n            return;  // reached required upper bound, no need to search", "        const double spent = G.elapsed_time();\n        if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT || spent >= this->TIME_LIMIT) return;", [], SEARCH + ["C20"]),
    ("r20c", DR, "        for (; i < G.n_vert; i++)\n        {\n            if (G.vertices[i].mcs <= G.CUR_MAX_CLIQUE_SIZE ||\n                G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT)\n                continue;\n            if (G.elapsed_time() > this->TIME_LIMIT) break;\n            process_vertex(G, i);\n        }", "        while (i < G.n_vert)\n        {\n            if (G.vertices[i].mcs > G.CUR_MAX_CLIQUE_SIZE &&\n                G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT)\n            {\n                if (G.elapsed_time() > this->TIME_LIMIT) return i;\n                process_vertex(G, i);\n            }\n            ++i;\n        }", [], SEARCH + ["C20"]),
    ("r20d", DR, "            process_vertex(G, i);\n        }", "            process_vertex(G, i);\n            if (G.elapsed_time() > this->TIME_LIMIT) break;\n        }", [], SEARCH + ["C20"]),
    ("r20e", CQ, "        this->start_time = std::chrono::steady_clock::now();\n        if (use_heur)", "        this->start_clock();\n        if (use_heur)", [], ["C14", "C20"]),
    ("r20f", CQ, "        if (time_limit <= 0)\n        {\n            StackDFS dfs;\n            if (use_dfs) start_vert = dfs.process_graph((*this));\n        }\n        else\n        {\n            RecursionDFS dfs(start_vert, time_limit);\n            this->start_time = std::chrono::steady_clock::now();\n            if (use_dfs) start_vert = dfs.process_graph((*this));\n        }\n        return this->elapsed_time();",
             "        if (!use_dfs) return this->elapsed_time();\n        const bool timed = time_limit > 0;\n        if (timed)\n        {\n            this->start_clock();\n            RecursionDFS dfs(start_vert, time_limit);\n            start_vert = dfs.process_graph((*this));\n            return this->elapsed_time();\n        }\n        StackDFS dfs;\n        start_vert = dfs.process_graph((*this));\n        return this->elapsed_time();", [], ["C14", "C20"]),
    ("r20g", CQ, "        return this->elapsed_time();", "        const double spent = this->elapsed_time();\n        return spent;", [], ["C14", "C20"]),
    ("r20h", PG, "        finished_all = (current_vertex > nvert);", "        const bool complete = current_vertex > nvert;\n        finished_all = complete;", [], ["C14", "C20"]),
    # members put back on reset
    ("b10r", GR, "            v.bits.clear();\n            v.bits.set(v.spos);", "            v.bits.clear();", ["C10"]),
    ("b10s", PG, "        this->G->reset_cliques();\n        this->G->CUR_MAX_CLIQUE_SIZE = 1;", "        this->G->reset_cliques();", ["C10"]),
    ("r10i", GR, "            v.bits.clear();\n            v.bits.set(v.spos);", "            const u64 own = v.spos;\n            v.bits.clear(v.N);\n            v.bits.set(v.spos);\n            (void)own;", [], ["C10"]),
    # reset and rebuild
    ("b15a", PG, "        this->finished_all = false;\n        this->current_vertex = 0;\n    }\n\n", "        this->finished_all = false;\n    }\n\n", ["C15"]),
    ("b15b", PG, "        this->finished_all = false;\n        this->current_vertex = 0;\n    }\n\n", "        this->current_vertex = 0;\n    }\n\n", ["C15"]),
    ("b15c", NW, "        this->G->CUR_MAX_CLIQUE_SIZE = 0;\n", "", ["C15", "C10"]),
    ("b15d", PG, "this->G->CUR_MAX_CLIQUE_SIZE = 1;", "this->G->CUR_MAX_CLIQUE_SIZE = 2;", ["C15"]),
    ("b15e", NW, "this->G->CUR_MAX_CLIQUE_SIZE = 0;", "this->G->CUR_MAX_CLIQUE_SIZE = 1;", ["C15"]),
    ("b15f", PG, "        this->nedges = 0;\n        this->current_vertex = 0;\n", "        this->nedges = 0;\n", ["C15"]),
    ("b15g", NW, "        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->send_data", "        this->current_vertex = 0;\n        this->G->send_data", ["C15"]),
    ("b15h", PG, "        this->G->CLIQUE_LIMIT = clique_limit;\n", "", ["C15"]),
    ("b15i", NW, "        this->G->CLIQUE_LIMIT = clique_limit;\n        finished_all = (current_vertex > nvert);\n", "        finished_all = (current_vertex > nvert);\n        if (!finished_all) this->G->CLIQUE_LIMIT = clique_limit;\n", ["C15"]),
    ("b15j", PG, "finished_all = (current_vertex > nvert);", "finished_all = (current_vertex >= nvert);", ["C15"]),
    ("b15k", PG, "finished_all = (current_vertex > nvert);", "finished_all = use_dfs;", ["C15"]),
    ("b15l", NW, "finished_all = (current_vertex > nvert);", "finished_all = true;", ["C15"]),
    ("b15m", GR, "            v.bits.clear();\n            v.bits.set(v.spos);", "            v.bits.set(v.spos);", ["C15", "C10"]),
    ("b15n", NG, "            v.bits.clear();\n            v.bits.set(v.spos);", "            v.bits.clear();", ["C15", "C10"]),
    ("b15o", GR, "        for (auto& v : vertices)\n        {\n            v.bits.clear();\n            v.bits.set(v.spos);\n        }", "        for (u64 i = 2; i < n_vert; i++)\n        {\n            vertices[i].bits.clear();\n            vertices[i].bits.set(vertices[i].spos);\n        }", ["C15"]),
    ("b15p", GR, "        CUR_MAX_CLIQUE_LOCATION = FIRST_LOCATION;\n", "", ["C15"]),
    ("b15q", NG, "        CUR_MAX_CLIQUE_LOCATION = FIRST_LOCATION;\n", "        CUR_MAX_CLIQUE_LOCATION = 1;\n", ["C15"]),
    ("b15r", DS, "                continue;\n            process_vertex(G, i);\n        }\n        // Dummy return. i = G.n_vert, because the search cannot be interrupted\n        return i;", "                continue;\n            if (states.capacity() > 4096) break;\n            process_vertex(G, i);\n        }\n        return G.n_vert;", ["C15"]),
    ("b15s", PG, "        this->G->CLIQUE_LIMIT = clique_limit;\n        finished_all = (current_vertex > nvert);\n        auto ans = this->G->get_max_clique();\n        if (lower_bound > ans.size())", "        finished_all = (current_vertex > nvert);\n        auto ans = this->G->get_max_clique();\n        if (lower_bound <= ans.size()) this->G->CLIQUE_LIMIT = clique_limit;\n        if (lower_bound > ans.size())", ["C15"]),
    ("b15t", [(GR, "        FIRST_LOCATION = CUR_MAX_CLIQUE_LOCATION;\n\n", ""), (GR, "            vertices[cur].mcs = mcs;\n            if (mcs > CLIQUE_LIMIT)\n            {\n", "            vertices[cur].mcs = mcs;\n            if (mcs > CLIQUE_LIMIT)\n            {\n                FIRST_LOCATION = CUR_MAX_CLIQUE_LOCATION;\n")], ["C15"]),
    ("b15u", DS, "            process_vertex(G, i);\n        }", "            process_vertex(G, i);\n            G.vertices[i].mcs = 0;  // done\n        }", ["C15"]),
    ("b15v", PG, "        this->finished_all = false;\n        this->current_vertex = 0;\n    }\n\n", "        if (!this->finished_all) return;\n        this->finished_all = false;\n        this->current_vertex = 0;\n    }\n\n", ["C15"]),
    ("b15w", PG, "        this->G->reset_cliques();\n        this->G->CUR_MAX_CLIQUE_SIZE = 1;", "        this->G->reset_cliques();\n        this->G->CUR_MAX_CLIQUE_SIZE = this->G->CUR_MAX_CLIQUE_SIZE > 1 ? 2 : 1;", ["C15"]),
    ("r15a", PG, "        this->G->reset_cliques();\n        this->G->CUR_MAX_CLIQUE_SIZE = 1;\n        this->finished_all = false;\n        this->current_vertex = 0;\n", "        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->CUR_MAX_CLIQUE_SIZE = 1;\n        this->G->reset_cliques();\n", [], ["C01", "C10", "C14", "C15", "C20"]),
    ("r15b", [(PG, "        current_vertex = 0;\n        finished_all = false;\n    }\n    void pygraph::load_graph", "        no_progress();\n    }\n    void pygraph::no_progress()\n    {\n        current_vertex = 0;\n        finished_all = false;\n    }\n    void pygraph::load_graph"),
              (PG, "        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->send_data", "        no_progress();\n        this->G->send_data"),
              (PG, "        this->finished_all = false;\n        this->current_vertex = 0;\n    }\n\n", "        no_progress();\n    }\n\n"),
              ("core/pygraph.h", "        void reset_search();", "        void no_progress();\n        void reset_search();")], [], ["C01", "C05", "C10", "C14", "C15", "C20"]),
    ("r15c", GR, "        for (auto& v : vertices)\n        {\n            v.bits.clear();\n            v.bits.set(v.spos);\n        }", "        for (u64 i = 0; i < n_vert; i++)\n        {\n            vertices[i].bits.clear();\n            vertices[i].bits.set(vertices[i].spos);\n        }", [], ["C10", "C15", "C03"]),
    ("r15d", PG, "        finished_all = (current_vertex > nvert);", "        finished_all = current_vertex >= nvert + 1;", [], ["C14", "C15", "C20"]),
    ("r15e", NW, "        finished_all = (current_vertex > nvert);", "        if (current_vertex > nvert)\n            finished_all = true;\n        else\n            finished_all = false;", [], ["C14", "C15", "C20"]),
    ("r15f", [(PG, "        this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;", "        this->G->CLIQUE_LIMIT = std::min(upper_bound, clique_limit);"), (PG, "#include <cstdlib>", "#include <algorithm>\n#include <cstdlib>")], [], ["C14", "C15", "C20"]),
    ("r15g", PG, "        this->G->reset_cliques();\n        this->G->CUR_MAX_CLIQUE_SIZE = 1;", "        auto& g = *(this->G);\n        g.reset_cliques();\n        g.CUR_MAX_CLIQUE_SIZE = 0;", [], ["C10", "C14", "C15"]),
    ("r15h", PG, "        const u64 clique_limit = this->G->CLIQUE_LIMIT;\n        this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;\n        this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);\n        this->G->CLIQUE_LIMIT = clique_limit;",
             "        struct restore\n        {\n            u64& where;\n            u64 value;\n            ~restore() { where = value; }\n        };\n        {\n            const u64 clique_limit = this->G->CLIQUE_LIMIT;\n            restore back{this->G->CLIQUE_LIMIT, clique_limit};\n            this->G->CLIQUE_LIMIT = upper_bound < clique_limit ? upper_bound : clique_limit;\n            this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);\n        }", [], ["C14", "C15", "C20"]),
    ("r15i", DS, "        for (i = 0; i < G.n_vert; i++)\n        {\n            if (G.vertices[i].mcs <= G.CUR_MAX_CLIQUE_SIZE ||\n                G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT)\n                continue;\n            process_vertex(G, i);\n        }", "        i = 0;\n        while (i < G.n_vert)\n        {\n            if (G.vertices[i].mcs > G.CUR_MAX_CLIQUE_SIZE &&\n                G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT)\n                process_vertex(G, i);\n            ++i;\n        }", [], SEARCH + ["C15", "C20"]),
    ("r15j", PG, "        if (!continue_search)\n            current_vertex = 0;\n        else if (current_vertex != 0)\n            use_heuristic = false;\n\n        check_loaded();", "        check_loaded();\n        u64 first = continue_search ? current_vertex : 0;\n        if (first != 0) use_heuristic = false;\n        current_vertex = first;", [], ["C01", "C14", "C15", "C20"]),
    # exports and counts
    ("b06a", GR, "            for (u64 k = this->vertices[i].spos + 1; k < this->vertices[i].N; k++)\n                dfunc", "            for (u64 k = this->vertices[i].spos + 2; k < this->vertices[i].N; k++)\n                dfunc", ["C06"]),
    ("b06b", NG, "            for (u64 k = this->vertices[i].spos + 1; k < this->vertices[i].N; k++)\n                dfunc", "            for (u64 k = this->vertices[i].spos + 1; k + 1 < this->vertices[i].N; k++)\n                dfunc", ["C06"]),
    ("b06c", GR, "        for (u64 i = 0; i < this->n_vert; i++)\n        {\n            for (u64 k = this->vertices[i].spos + 1;", "        for (u64 i = 0; i < this->n_vert - 2; i++)\n        {\n            for (u64 k = this->vertices[i].spos + 1;", ["C06"]),
    ("b06d", PG, "                adjmat(i - 1, j - 1) = true;\n                adjmat(j - 1, i - 1) = true;", "                adjmat(i - 1, j - 1) = true;", ["C06"]),
    ("b06e", NW, "                edges[i].insert(j);\n                edges[j].insert(i);", "                edges[i].insert(j);\n                edges[j].insert(j);", ["C06"]),
    ("b06f", PG, "                elist(k, 0) = i;\n                elist(k, 1) = j;\n                k++;", "                elist(k, 0) = i;\n                elist(k, 1) = j;\n                if (k + 1 < N) k++;", ["C06"]),
    ("b06g", PG, "                elist(k, 0) = i;\n                elist(k, 1) = j;", "                elist(k, 0) = i - 1;\n                elist(k, 1) = j - 1;", ["C06"]),
    ("b06h", PG, "        f << this->nvert << \" \";\n        f << this->nedges << \"\\n\";", "        f << this->nvert << \" \";\n        f << 2 * this->nedges << \"\\n\";", ["C06"]),
    ("b06i", PG, "{ f << i << \" \" << j << \"\\n\"; }", "{ f << i << \" \" << j << \" \"; }", ["C06"]),
    ("b06j", GR, "            this->edge_list.begin() + this->vertices[i].elo + this->vertices[i].N);\n        ans.erase(ans.find(i));\n        return ans;", "            this->edge_list.begin() + this->vertices[i].elo + this->vertices[i].N);\n        ans.erase(ans.begin());\n        return ans;", ["C06"]),
    ("b06k", NG, "            this->edge_list.begin() + this->vertices[i].elo + this->vertices[i].N);\n        ans.erase", "            this->edge_list.begin() + this->vertices[i].elo + this->vertices[i].N - 1);\n        ans.erase", ["C06"]),
    ("b06l", PG, "        this->nedges = 0;\n        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->send_data([this](u64, u64) { this->nedges++; });", "        this->nedges = n_edges;\n        this->current_vertex = 0;\n        this->finished_all = false;", ["C06"]),
    ("b06m", NW, "        this->nedges = 0;\n        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->send_data", "        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->send_data", ["C06"]),
    ("b06n", NW, "            for (u64 j = 0; j < this->nvert; ++j) { adjmat(i, j) = false; }", "            for (u64 j = i; j < this->nvert; ++j) { adjmat(i, j) = false; }", ["C06"]),
    ("b06o", PG, "        for (u64 i = 0; i < this->nvert; i++)\n            for (u64 j = 0; j < this->nvert; ++j) { adjmat(i, j) = false; }\n\n        // internals", "        // internals", ["C06"]),
    ("b06p", PG, "                edges[i].insert(j);\n                edges[j].insert(i);", "                edges[i].insert(j);\n                if (edges[i].size() < 65536) edges[j].insert(i);", ["C06"]),
    ("b06q", PG, "        u64 k = 0, N = this->nedges;", "        u64 k = 1, N = this->nedges + 1;", ["C06"]),
    ("b06r", GR, "            for (u64 k = this->vertices[i].spos + 1; k < this->vertices[i].N; k++)\n                dfunc", "            for (u64 k = 0; k < this->vertices[i].N; k++)\n                dfunc", ["C06"]),
    ("b06s", PG, "        ss << \"n_edges=\" << this->nedges << \",\";", "        ss << \"n_edges=\" << this->nvert << \",\";", ["C06"]),
    ("b06t", GR, "                dfunc(i, this->edge_list[this->vertices[i].elo + k]);", "                if (this->vertices[i].N > 2) dfunc(i, this->edge_list[this->vertices[i].elo + k]);", ["C06"]),
    ("b06u", NG, "                dfunc(i, this->edge_list[this->vertices[i].elo + k]);", "                dfunc(i, this->edge_list[this->vertices[i].elo + k - 1]);", ["C06"]),
    ("b06v", PG, "        elist1.resize({this->nedges, static_cast<u64>(2)});", "        elist1.resize({static_cast<u64>(2), this->nedges});", ["C06"]),
    ("b06w", PG, "        std::vector<std::set<u64>> edges(this->nvert + 1);\n        this->G", "        std::vector<std::set<u64>> edges(this->nvert);\n        this->G", ["C06"]),
    ("b06x", PG, "        return this->G->vertex_data(i);", "        return this->G->vertex_data(i + 1);", ["C06"]),
    ("r06a", GR, "            for (u64 k = this->vertices[i].spos + 1; k < this->vertices[i].N; k++)\n                dfunc(i, this->edge_list[this->vertices[i].elo + k]);", "            const vertex& v = this->vertices[i];\n            for (u64 k = v.spos + 1; k < v.N; ++k)\n            {\n                const u64 j = this->edge_list[v.elo + k];\n                dfunc(i, j);\n            }", [], ["C03", "C05", "C06"]),
    ("r06b", NG, "            for (u64 k = this->vertices[i].spos + 1; k < this->vertices[i].N; k++)\n                dfunc(i, this->edge_list[this->vertices[i].elo + k]);", "            for (u64 k = 0; k < this->vertices[i].N; k++)\n            {\n                const u64 j = this->edge_list[this->vertices[i].elo + k];\n                if (j > i) dfunc(i, j);\n            }", [], ["C03", "C06"]),
    ("r06c", GR, "        for (u64 i = 0; i < this->n_vert; i++)\n        {\n            for (u64 k = this->vertices[i].spos + 1; k < this->vertices[i].N; k++)\n                dfunc(i, this->edge_list[this->vertices[i].elo + k]);\n        }", "        u64 i = 1;\n        while (i < this->n_vert)\n        {\n            u64 k = this->vertices[i].elo + this->vertices[i].spos + 1;\n            const u64 end = this->vertices[i].elo + this->vertices[i].N;\n            while (k < end) dfunc(i, this->edge_list[k++]);\n            i++;\n        }", [], ["C03", "C06"]),
    ("r06d", PG, "                elist(k, 0) = i;\n                elist(k, 1) = j;\n                k++;", "                const u64 row = k++;\n                elist(row, 1) = j;\n                elist(row, 0) = i;", [], ["C03", "C06"]),
    ("r06e", PG, "                adjmat(i - 1, j - 1) = true;\n                adjmat(j - 1, i - 1) = true;", "                const u64 a = i - 1, b = j - 1;\n                adjmat(b, a) = true;\n                adjmat(a, b) = true;", [], ["C03", "C06"]),
    ("r06f", PG, "{ f << i << \" \" << j << \"\\n\"; }", "{\n            f << i;\n            f << ' ' << j << '\\n';\n        }", [], ["C06"]),
    ("r06g", PG, "        f << this->nvert << \" \";\n        f << this->nvert << \" \";\n        f << this->nedges << \"\\n\";", "        f << nvert << \" \" << nvert << \" \" << nedges << std::endl;", [], ["C06"]),
    ("r06h", PG, "        this->nedges = 0;\n        this->current_vertex = 0;\n        this->finished_all = false;\n        this->G->send_data([this](u64, u64) { this->nedges++; });", "        this->current_vertex = 0;\n        this->finished_all = false;\n        u64 found = 0;\n        this->G->send_data([&found](u64, u64) { found += 1; });\n        this->nedges = found;", [], ["C05", "C06", "C15"]),
    ("r06i", NW, "        this->G->send_data(\n            [&edges](u64 i, u64 j)\n            {\n                edges[i].insert(j);\n                edges[j].insert(i);\n            });", "        auto both = [&edges](u64 i, u64 j)\n        {\n            edges[j].insert(i);\n            edges[i].insert(j);\n        };\n        this->G->send_data(both);", [], ["C03", "C06"]),
    ("r06j", PG, "        for (u64 i = 0; i < this->nvert; i++)\n            for (u64 j = 0; j < this->nvert; ++j) { adjmat(i, j) = false; }\n", "        for (u64 j = 0; j < nvert; j++)\n        {\n            u64 i = nvert;\n            while (i-- > 0) adjmat(i, j) = false;\n        }\n", [], ["C03", "C06"]),
    ("r06k", GR, "        auto ans = std::set<u64>(\n            this->edge_list.begin() + this->vertices[i].elo,\n            this->edge_list.begin() + this->vertices[i].elo + this->vertices[i].N);\n        ans.erase(ans.find(i));\n        return ans;", "        std::set<u64> ans;\n        for (u64 k = 0; k < this->vertices[i].N; k++)\n        {\n            const u64 j = this->edge_list[this->vertices[i].elo + k];\n            if (j != i) ans.insert(j);\n        }\n        return ans;", [], ["C03", "C06"]),
    ("r06l", GR, "        ans.erase(ans.find(i));\n        return ans;", "        ans.erase(i);\n        return ans;", [], ["C03", "C06"]),
    ("r06m", PG, "        this->G->send_data(\n            [&elist, &k, &N](u64 i, u64 j)", "        const auto& g = *this->G;\n        g.send_data(\n            [&elist, &k, &N](u64 i, u64 j)", [], ["C03", "C06"]),
    ("r06n", [(PG, "        this->G->send_data([this](u64, u64) { this->nedges++; });\n    }", "        count_edges();\n    }\n    void pygraph::count_edges()\n    {\n        nedges = 0;\n        this->G->send_data([this](u64, u64) { this->nedges++; });\n    }"), ("core/pygraph.h", "        void reset_search();", "        void count_edges();\n        void reset_search();")], [], ["C05", "C06", "C15"]),

    # ---- C04 weights
    ("b04a", NW, "wts[i + 1] = weights(i);", "wts[i] = weights(i);", ["C04"]),
    ("b04b", NW, "            wts.push_back(0);\n            for (u64 i = 0; i < no_of_vertices; i++) wts.push_back(weights(i));",
     "            for (u64 i = 0; i < no_of_vertices; i++) wts.push_back(weights(i));\n            wts.push_back(0);", ["C04"]),
    ("b04c", NW, "weights.insert(weights.begin(), 0);", "weights.insert(weights.end(), 0);", ["C04"]),
    ("b04d", NW, "for (u64 i = 0; i < no_of_vertices; i++) wts.push_back(weights(i));",
     "for (u64 i = no_of_vertices; i-- > 0;) wts.push_back(weights(i));", ["C04"]),
    ("b04e", NW, "for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);",
     "for (u64 i = 1; i < no_of_vertices; i++) wts[i + 1] = weights(i);", ["C04"]),
    ("b04f", NW, "for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);",
     "for (u64 i = 0; i < no_of_vertices; i++)\n            if (weights(i) > 1) wts[i + 1] = weights(i);", ["C04"]),
    ("b04g", NG, "weights[i], degree);", "weights[spos], degree);", ["C04"]),
    ("b04h", NG, "degree += weights[edge_list[el_size + j]];", "degree += weights[i];", ["C04"]),
    ("b04i", NG, "degree += weights[edge_list[el_size + j]];", "degree += weights[edge_list[j]];", ["C04"]),
    ("b04j", NG, "            degree = 0;\n            for (j = 0; el_size", "            for (j = 0; el_size", ["C04"]),
    ("b04k", NG, "        double degree;\n\n        for (i = 0;", "        double degree;\n\n        degree = 0;\n        for (i = 0;", []),
    ("b04l", "detail/nwgraph/wvertex.h", "this->weight = wt;", "this->weight = deg;", ["C04"]),
    ("b04m", "detail/nwgraph/wvertex.h", "this->degree = deg;", "this->degree = wt;", ["C04"]),
    ("b04n", NG, "wts[i] = this->vertices[i].weight;", "wts[i] = this->vertices[i].degree;", ["C04"]),
    ("b04o", NW, "        ans.erase(ans.begin());  // remove sentinel", "        ans.pop_back();  // remove sentinel", ["C04"]),
    ("b04p", NG, "std::make_pair(this->vertices[i].weight, std::move(ans))", "std::make_pair(this->vertices[i].mcs, std::move(ans))", ["C04"]),
    ("b04q", "detail/nwgraph/nwclique.cpp", "wt += vertices[v].weight;", "wt += vertices[v].mcs;", ["C04"]),
    ("b04r", "detail/nwgraph/nwclique.cpp", "if (v < this->n_vert) wt", "if (v + 1 < this->n_vert) wt", ["C04"]),
    ("b04s", ND, "this->weights[j] = G.vertices[vert].weight;", "this->weights[j] = G.vertices[vert].degree;", ["C04"]),
    ("b04t", ND, "cand_potential += this->weights[k];", "cand_potential += this->weights[j];", ["C04"]),
    ("b04u", NE, "cand_potential -= this->weights[k];", "cand_potential -= this->weights[j];", ["C04"]),
    ("b04v", NH, "                    cand_potential -= G.vertices[neighbors[j].id].weight;", "                    cand_potential -= G.vertices[neighbors[i].id].weight;", ["C04"]),
    ("b04w", NG, "mcs += vertices[vert].weight;\n                if (vertices[vert].N > ", "mcs += vertices[cur].weight;\n                if (vertices[vert].N > ", ["C04"]),
    ("b04x", NH, "G.vertices[neighbors[i].id].weight;\n            cand.reset", "G.vertices[i].weight;\n            cand.reset", ["C04"]),
    ("b04y", NE, "        clique_weight = G.vertices[cur].weight;", "        clique_weight = G.vertices[vert].weight;", ["C04"]),
    ("b04z", ND, "cur_state.potential -= this->weights[j];", "cur_state.potential -= this->weights[cur_state.start_at];", ["C04"]),
    ("b04A", NG, "        for (auto& v : vertices)\n        {\n            v.bits.clear();", "        for (auto& v : vertices)\n        {\n            v.weight = v.mcs;\n            v.bits.clear();", ["C04"]),
    ("r04a", NW, "for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);", "for (u64 i = 1; i <= no_of_vertices; i++) wts[i] = weights(i - 1);", []),
    ("r04b", NW, "        wts[0] = 0;\n        for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);",
     "        wts.clear();\n        wts.push_back(0);\n        for (u64 i = 0; i < no_of_vertices; ++i) wts.push_back(weights(i));", []),
    ("r04c", NW, "            wts.push_back(0);\n            for (u64 i = 0; i < no_of_vertices; i++) wts.push_back(weights(i));",
     "            wts.resize(no_of_vertices + 1, 0);\n            u64 at = 0;\n            while (at < no_of_vertices)\n            {\n                const double one = weights(at);\n                ++at;\n                wts[at] = one;\n            }", []),
    ("r04d", NW, "        weights.insert(weights.begin(), 0);  // weight of the sentinel\n        pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(weights));",
     "        std::vector<double> wts(1, 0.0);\n        for (double x : weights) wts.push_back(x);\n        pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(wts));", []),
    ("r04e", NG, "            degree = 0;\n            for (j = 0; el_size + j < el_size_max && edge_bits[el_size + j] == i; j++)\n            {\n                edge_bits[el_size + j] = 0;\n                degree += weights[edge_list[el_size + j]];\n                if (edge_list[el_size + j] == i) spos = j;",
     "            degree = 0;\n            for (j = 0; el_size + j < el_size_max && edge_bits[el_size + j] == i; j++)\n            {\n                const u64 other = edge_list[el_size + j];\n                if (other == i) spos = j;\n                edge_bits[el_size + j] = 0;\n                degree = degree + weights[other];", []),
    ("r04f", NG, "wts.resize(this->n_vert);\n        for (u64 i = 0; i < this->n_vert; i++) wts[i] = this->vertices[i].weight;",
     "wts.reserve(this->n_vert);\n        for (const auto& v : this->vertices) wts.push_back(v.weight);", []),
    ("r04g", "detail/nwgraph/nwclique.cpp", "for (auto v : clique)\n        {\n            if (v < this->n_vert) wt += vertices[v].weight;\n        }",
     "for (u64 i = 0; i < clique.size(); i++)\n        {\n            const u64 v = clique[i];\n            if (v >= this->n_vert) continue;\n            wt += vertices[v].weight;\n        }", []),
    ("r04h", NE, "            weights[j] = G.vertices[vert].weight;", "            const double here = G.vertices[vert].weight;\n            weights[j] = here;", []),
    ("r04i", ND, "cand_potential += this->weights[k];", "cand_potential += G.vertices[G.edge_list[G.vertices[cur].elo + k]].weight;", []),
    ("r04j", NE, "clique_weight -= weights[cur_state.id];", "const double gone = weights[cur_state.id];\n                clique_weight = clique_weight - gone;", []),
    ("r04k", NH, "            cand_potential += G.vertices[neighbors[j].id].weight;\n            j++;\n            cand.set(i);", "            cand.set(i);\n            cand_potential += G.vertices[neighbors[j].id].weight;\n            j++;", []),
    ("r04l", ND, "clique_potential = cand_potential + clique_weight + this->weights[j];", "const double with_vert = clique_weight + this->weights[j];\n                clique_potential = with_vert + cand_potential;", []),
    ("r04m", NW, "        auto ans = this->G->get_all_weights();\n        ans.erase(ans.begin());  // remove sentinel\n        return ans;",
     "        const auto all = this->G->get_all_weights();\n        std::vector<double> ans;\n        for (u64 i = 1; i < all.size(); i++) ans.push_back(all[i]);\n        return ans;", []),
    ("r04n", NW, "for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);", "for (u64 i = no_of_vertices; i-- > 0;) wts[i + 1] = weights(i);", [], ["C04", "C03", "C02", "C05"]),
    ("r04o", NW, "for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);", "for (u64 i = no_of_vertices; i > 0; i--) wts[i] = weights(i - 1);", [], ["C04", "C03", "C02", "C05"]),
    ("r04p", [(NG, "for (u64 i = 0; i < this->n_vert; i++) wts[i] = this->vertices[i].weight;", "std::transform(vertices.begin(), vertices.end(), wts.begin(), [](const wvertex& v) { return v.weight; });"),
              (NG, "#include <iostream>", "#include <algorithm>\n#include <iostream>")], [], ["C04", "C03"]),
    ("r04q", [("detail/nwgraph/nwclique.cpp", "#include <detail/nwgraph/nwgraph.h>", "#include <numeric>\n#include <detail/nwgraph/nwgraph.h>"), ("detail/nwgraph/nwclique.cpp", "        double wt = 0;\n        for (auto v : clique)\n        {\n            if (v < this->n_vert) wt += vertices[v].weight;\n        }\n        return wt;",
     "        return std::accumulate(clique.begin(), clique.end(), 0.0, [this](double wt, u64 v) { return v < this->n_vert ? wt + vertices[v].weight : wt; });")], [], ["C04", "C03"]),
    ("r04r", [("detail/nwgraph/nwclique.cpp", "    double nwgraph::get_clique_weight", "    static double weight_of(const std::vector<wvertex>& vs, u64 n, u64 v)\n    {\n        return v < n ? vs[v].weight : 0.0;\n    }\n    double nwgraph::get_clique_weight"),
              ("detail/nwgraph/nwclique.cpp", "            if (v < this->n_vert) wt += vertices[v].weight;", "            wt += weight_of(vertices, n_vert, v);")], [], ["C04", "C03"]),
    ("r04s", NH, "            cur_clique_weight += G.vertices[neighbors[i].id].weight;\n            cand.reset(neighbors[i].pos);\n            candidates_left--;\n            cand_potential -= G.vertices[neighbors[i].id].weight;",
     "            const double gained = G.vertices[neighbors[i].id].weight;\n            cand.reset(neighbors[i].pos);\n            candidates_left--;\n            cur_clique_weight += gained;\n            cand_potential -= gained;", [], SEARCH + ["C04"]),
    ("r04t", NG, "mcs += vertices[vert].weight;\n                if (vertices[vert].N > ", "mcs = mcs + this->vertices[vert].weight;\n                if (vertices[vert].N > ", [], ["C04", "C11"]),
    ("r04u", ND, "cur_state.potential -= this->weights[j];\n                candidates_left = cur_state.cand.count();\n\n                cand_potential = 0;", "candidates_left = cur_state.cand.count();\n\n                cand_potential = 0;\n                cur_state.potential = cur_state.potential - this->weights[j];", [], SEARCH + ["C04"]),
    ("r04v", NG, "            for (j = 0; j < this->vertices[cur].spos; j++)\n            {\n                vert = edge_list[vertices[cur].elo + j];", "            const u64 begins = vertices[cur].elo;\n            for (j = 0; j < this->vertices[cur].spos; j++)\n            {\n                vert = edge_list[begins + j];", [], ["C04", "C11", "C03"]),
    ("r04w", NW, "        wts[0] = 0;\n        for (u64 i = 0; i < no_of_vertices; i++) wts[i + 1] = weights(i);\n", "        auto fill = [&wts, &weights](u64 n)\n        {\n            wts[0] = 0;\n            for (u64 i = 0; i < n; i++) wts[i + 1] = weights(i);\n        };\n        fill(no_of_vertices);\n", [], ["C04", "C03", "C02"]),
    ("b04B", ND, "            this->clique_potential += G.vertices[vert].weight;\n            this->weights[j] = G.vertices[vert].weight;\n        }\n\n        if", "            this->weights[j] = G.vertices[vert].weight;\n        }\n\n        if", ["C04"], ["C04"]),
    ("b04C", NE, "            weights[j] = G.vertices[vert].weight;\n            this->clique_potential += G.vertices[vert].weight;\n        }\n\n        if", "            this->clique_potential += G.vertices[vert].weight;\n        }\n\n        if", ["C04"], ["C04"]),
    ("b04D", NH, "                    cand.reset(neighbors[j].pos);\n                    cand_potential -= G.vertices[neighbors[j].id].weight;", "                    cand.reset(neighbors[j].pos);", [], ["C04"]),
    ("b04E", NE, "clique_potential =\n                        cand_potential + clique_weight + this->weights[j];", "clique_potential =\n                        cand_potential + clique_weight + this->weights[k];", ["C04"], ["C04"]),
    ("b04F", NW, "        this->G = std::make_shared<detail::nwgraph>(this->nvert, n_edges,", "        std::sort(weights.begin() + 1, weights.end());\n        this->G = std::make_shared<detail::nwgraph>(this->nvert, n_edges,", ["C04"], ["C04"]),
    # C16: memory set aside
    ("b16a", GR, "const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);", "const u64 max_space = 2 * (CLIQUE_LIMIT + 1);", ["C16"], ["C16"]),
    ("b16b", NG, "const u64 max_space = 2 * (max_depth + 1) * (size_per_step);", "const u64 max_space = max_depth / 2 * (size_per_step);", ["C16"], ["C16"]),
    ("b16c", GR, "(max_degree % BITS_PER_U64 != 0) + max_degree / BITS_PER_U64;", "max_degree / BITS_PER_U64;", ["C16"], ["C16"]),
    ("b16d", GR, "            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);\n", "", ["C16"], ["C16"]),
    ("b16e", NG, "v.bits.refer_from(&edge_bits[v.ebo], v.N);", "v.bits.refer_from(&edge_bits[v.elo], v.N);", ["C16"], ["C16"]),
    ("b16f", GR, "edge_bits.resize(search_start + max_space + 1);", "edge_bits.resize(max_space + 1);", ["C16"], ["C16"]),
    ("b16g", NG, "if (j > max_neighbors) max_neighbors = j;", "if (degree > max_degree) max_neighbors = j;", ["C16"], ["C16"]),
    ("b16h", NG, "                CLIQUE_LIMIT = mcs;\n            }\n            if (depth > max_depth) max_depth = depth;", "                CLIQUE_LIMIT = mcs;\n                if (depth > max_depth) max_depth = depth;\n            }", ["C16"], ["C16"]),
    ("b16i", GR, "        search_start = 1 + eb_size;", "        search_start = eb_size / 2;", ["C16"], ["C16"]),
    ("b16j", GR, "this->eb_size += (j % BITS_PER_U64 != 0) + j / BITS_PER_U64;", "this->eb_size += j / BITS_PER_U64;", ["C16"], ["C16"]),
    ("b16k", GR, "if (spread < max_space + 1)", "if (spread < size_per_step)", ["C16"], ["C16"]),
    ("b16l", NG, "if (vertices[vert].N >= vertices[cur].N) depth += 1;", "if (vertices[vert].N > vertices[cur].N) depth += 1;", ["C16"], ["C16"]),
    ("b16m", DS, "(G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;", "G.vertices[cur].N;", ["C16"], ["C16"]),
    ("b16n", GR, "        FIRST_LOCATION = CUR_MAX_CLIQUE_LOCATION;\n\n", "        FIRST_LOCATION = CUR_MAX_CLIQUE_LOCATION;\n        edge_bits.shrink_to_fit();\n\n", ["C16"], ["C16"]),
    ("b16o", GH, "            u64* loc = &(edge_bits[search_cur]);", "            if (search_cur + N > edge_bits.size()) edge_bits.resize(search_cur + N);\n            u64* loc = &(edge_bits[search_cur]);", ["C16"], ["C16"]),
    ("b16p", GR, "            search_end = edge_bits.size();\n            // resizing may move the data, so point the bitsets to the new location\n            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);", "            search_end = edge_bits.size();\n            for (u64 i = 1; i < size; i++)\n                vertices[i].bits.refer_from(&edge_bits[vertices[i].ebo], vertices[i].N);", ["C16"], ["C16"]),
    ("b16q", GR, "            search_end = edge_bits.size();\n            // resizing may move the data, so point the bitsets to the new location\n            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);", "            search_end = edge_bits.size();\n            for (u64 i = 0; i + 1 < size; i++)\n                vertices[i].bits.refer_from(&edge_bits[vertices[i].ebo], vertices[i].N);", ["C16"], ["C16"]),
    ("b16r", GR, "            edge_bits.resize(search_start + max_space + 1);\n            search_end = edge_bits.size();\n            // resizing may move the data, so point the bitsets to the new location\n            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);", "            u64* base = edge_bits.data();\n            edge_bits.resize(search_start + max_space + 1);\n            search_end = edge_bits.size();\n            for (auto& v : vertices) v.bits.refer_from(base + v.ebo, v.N);", ["C16"], ["C16"]),
    ("b16s", GR, "    void graph::reset_cliques()\n    {\n", "    void graph::reset_cliques()\n    {\n        edge_bits.resize(search_start);\n", ["C16"], ["C16"]),
    ("b16t", GR, "            if (j > max_degree) max_degree = j;", "            if (spos > max_degree) max_degree = spos;", ["C16"], ["C16"]),
    ("b16u", GR, "            vertices[cur].mcs = mcs;\n            if (mcs > CLIQUE_LIMIT)\n            {\n                CUR_MAX_CLIQUE_LOCATION = cur;\n                CLIQUE_LIMIT = mcs;\n            }", "            vertices[cur].mcs = mcs;\n            if (mcs > CLIQUE_LIMIT)\n                CUR_MAX_CLIQUE_LOCATION = cur;\n            CLIQUE_LIMIT = mcs;", ["C16"], ["C16"]),
    ("b16w", GR, "const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);", "const u64 max_space = (CLIQUE_LIMIT + 1) * (size_per_step);", ["C16"], ["C16"]),
    ("b16x", NG, "this->eb_size += (j % BITS_PER_U64 != 0) + j / BITS_PER_U64;", "this->eb_size += (spos % BITS_PER_U64 != 0) + spos / BITS_PER_U64;", ["C16"], ["C16"]),
    ("b16y", NG, "        search_cur = search_start;", "        search_cur = 1;", ["C16"], ["C16"]),
    ("b16z", "detail/graph/vertex.h", "this->bits.refer_from(&eb_base[this->ebo], this->N);", "this->bits.refer_from(&eb_base[this->elo], this->N);", ["C16"], ["C16"]),
    ("b16A", NG, "            search_end = edge_bits.size();\n            // resizing may move the data, so point the bitsets to the new location\n            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);", "            search_end = edge_bits.size();\n            for (auto& v : vertices)\n                if (v.mcs > 0) v.bits.refer_from(&edge_bits[v.ebo], v.N);", ["C16"], ["C16"]),
    ("b16B", GR, "            edge_bits.resize(search_start + max_space + 1);", "            edge_bits.reserve(search_start + max_space + 1);", ["C16"], ["C16"]),
    # harmless: less slack, same coverage
    ("r16a", GR, "const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);", "const u64 max_space = 2 * CLIQUE_LIMIT * (size_per_step) + size_per_step;", [], ["C16"]),
    ("r16b", NG, "const u64 max_space = 2 * (max_depth + 1) * (size_per_step);", "const u64 max_space = (max_depth + 1) * (size_per_step);", [], ["C16"]),
    ("r16c", GR, "            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);\n        }\n    }\n", "            u64* base = edge_bits.data();\n            for (u64 i = 0; i < vertices.size(); i++)\n            {\n                vertex& v = vertices[i];\n                v.bits.refer_from(base + v.ebo, v.N);\n            }\n        }\n    }\n", [], ["C16"]),
    ("r16d", NG, "            if (j > max_neighbors) max_neighbors = j;", "            max_neighbors = std::max(max_neighbors, j);", [], ["C16"]),
    ("r16e", GR, "            if (mcs > CLIQUE_LIMIT)\n            {\n                CUR_MAX_CLIQUE_LOCATION = cur;\n                CLIQUE_LIMIT = mcs;\n            }", "            if (mcs <= CLIQUE_LIMIT) continue;\n            CUR_MAX_CLIQUE_LOCATION = cur;\n            CLIQUE_LIMIT = mcs;", [], ["C16"]),
    ("r16f", GR, "        const u64 size_per_step =\n            (max_degree % BITS_PER_U64 != 0) + max_degree / BITS_PER_U64;", "        const u64 size_per_step = (max_degree + BITS_PER_U64 - 1) / BITS_PER_U64;", [], ["C16"]),
    ("r16g", GR, "        search_start = 1 + eb_size;\n        search_cur = search_start;\n        search_end = edge_bits.size();", "        search_end = edge_bits.size();\n        search_cur = search_start = eb_size + 1;", [], ["C16"]),
    ("r16h", [(GR, "if (spread < max_space + 1)\n        {", "if (spread <= max_space)\n        {"), (GR, "edge_bits.resize(search_start + max_space + 1);", "const u64 total = search_start + max_space + 1;\n            edge_bits.resize(total);")], [], ["C16"]),
    ("r16i", NG, "            search_end = edge_bits.size();\n            // resizing may move the data, so point the bitsets to the new location\n            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);", "            search_end = edge_bits.size();\n            for (auto it = vertices.begin(); it != vertices.end(); ++it)\n                it->bits.refer_from(edge_bits.data() + it->ebo, it->N);", [], ["C16"]),
    ("r16j", GR, "            this->vertices[i].refer_from(j, this->el_size, this->eb_size);\n            this->vertices[i].set_spos(eb_base, spos);\n            this->el_size += j;\n            this->eb_size += (j % BITS_PER_U64 != 0) + j / BITS_PER_U64;", "            vertex& v = this->vertices[i];\n            const u64 words = (j + BITS_PER_U64 - 1) / BITS_PER_U64;\n            v.refer_from(j, this->el_size, this->eb_size);\n            v.set_spos(eb_base, spos);\n            this->eb_size += words;\n            this->el_size += j;", [], ["C16"]),
    ("r16k", [(GR, "        for (i = 0; i < this->n_vert; i++)\n        {\n            spos = 0;", "        i = 0;\n        while (i < this->n_vert)\n        {\n            spos = 0;"), (GR, "            if (j > max_degree) max_degree = j;", "            if (j > max_degree) max_degree = j;\n            i++;")], [], ["C16"]),
    ("r16l", NG, "            search_end = edge_bits.size();\n            // resizing may move the data, so point the bitsets to the new location\n            for (auto& v : vertices) v.bits.refer_from(&edge_bits[v.ebo], v.N);", "            search_end = edge_bits.size();\n            for (u64 i = size; i-- > 0;)\n                vertices[i].bits.refer_from(&edge_bits[vertices[i].ebo], vertices[i].N);", [], ["C16"]),
    ("r16m", [(GR, "        if (spread < max_space + 1)\n        {", "        const bool enough = spread > max_space;\n        if (enough) return;\n        {")], [], ["C16"]),
    ("r16n", GR, "        const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);", "        u64 max_space = CLIQUE_LIMIT + 1;\n        max_space *= size_per_step;\n        max_space += max_space;", [], ["C16"]),
    ("r16o", [(NG, "    void nwgraph::set_bounds()\n    {\n        u64 cur, j, vert, depth, size = vertices.size();", "    void nwgraph::set_bounds()\n    {\n        const u64 size = vertices.size();\n        u64 cur, j, vert, depth;"), (NG, "            if (depth > max_depth) max_depth = depth;", "            max_depth = depth > max_depth ? depth : max_depth;")], [], ["C16"]),
    ("r16p", GR, "        u64* eb_base = edge_bits.data();\n", "        u64* const eb_base = &edge_bits[0];\n", [], ["C16"]),
    ("r16q", NG, "            search_end = edge_bits.size();\n", "            search_end = search_start + max_space + 1;\n", [], ["C16"]),
    ("r16r", DS, "        request_size =\n            (G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;", "        const u64 len = G.vertices[cur].N;\n        request_size = len / BITS_PER_U64 + (len % BITS_PER_U64 ? 1 : 0);", [], ["C16"]),
    ("r16s", [(DR, "        cand.copy_from(prev_cand, G.load_memory(request_size));\n        future_cand.copy_from(prev_cand, G.load_memory(request_size));", "        u64* const mem = G.load_memory(2 * request_size);\n        cand.copy_from(prev_cand, mem);\n        future_cand.copy_from(prev_cand, mem + request_size);")], [], ["C16"]),
    ("r16t", GR, "            edge_bits.resize(search_start + max_space + 1);\n", "            edge_bits.insert(edge_bits.end(), search_start + max_space + 1 - search_end, 0);\n", [], ["C16"]),
    ("b19A", UT, "        for (; m != 0; m >>= 4) radix_shift += 4;\n        radix_shift -= 4;\n", "        for (; m > 0x10; m >>= 4) radix_shift += 4;\n", ["C19"]),
    ("b19B", UT, "u64 m = n_vert, radix_shift = 0;", "u64 m = n_vert - 2, radix_shift = 0;", ["C19"]),
    ("b19C", UT, "        for (; m != 0; m >>= 4) radix_shift += 4;\n        radix_shift -= 4;\n", "        for (; m > 0xF; m >>= 4) radix_shift += 4;\n        radix_shift -= 4;\n", ["C19"]),
    ("r19k", UT, "        for (; m != 0; m >>= 4) radix_shift += 4;\n        radix_shift -= 4;\n", "        for (; m > 0xF; m >>= 4) radix_shift += 4;\n", []),
    ("r19l", UT, "        for (; m != 0; m >>= 4) radix_shift += 4;\n        radix_shift -= 4;\n", "        for (; m >= 16; m >>= 4) radix_shift += 4;\n", []),
    ("r19m", UT, "u64 m = n_vert, radix_shift = 0;", "u64 m = n_vert - 1, radix_shift = 0;", []),
    ("r19n", UT, "        for (; m != 0; m >>= 4) radix_shift += 4;\n        radix_shift -= 4;\n", "        while (m / 16 != 0)\n        {\n            m /= 16;\n            radix_shift += 4;\n        }\n", []),
]

from edits_build import MORE
EDITS += MORE
