// P17: strongly connected components against mutual reachability.
#include "graphs.hpp"
#include <routingkit/strongly_connected_component.h>
using namespace gr;

static void check(const U &fo, const U &head, unsigned n, const U &ref, unsigned ref_count) {
	auto r = RoutingKit::compute_strongly_connected_components(fo, head);
	REQUIRE_EQ((unsigned)r.component_of.size(), n, "number of nodes"); REQUIRE_EQ(r.component_count, ref_count, "component_count");
	U to(ref_count, INVALID), from(ref_count, INVALID), size(ref_count, 0u);
	for (unsigned x = 0; x < n; ++x) {
		unsigned c = r.component_of[x]; REQUIRE(c < ref_count, "component " << c << " of node " << x << " is out of range"); ++size[ref[x]];
		if (to[c] == INVALID) to[c] = ref[x];
		if (from[ref[x]] == INVALID) from[ref[x]] = c;
		REQUIRE(to[c] == ref[x], "node " << x << " shares a component with a node that it is not strongly connected to"); REQUIRE(from[ref[x]] == c, "node " << x << " is separated from a node that it is strongly connected to");
	}
	auto l = RoutingKit::compute_largest_strongly_connected_component(fo, head);
	REQUIRE_EQ((unsigned)l.size(), n, "size of the largest component vector");
	unsigned c = INVALID, k = 0; for (unsigned x = 0; x < n; ++x) if (l[x]) { if (c == INVALID) c = ref[x]; REQUIRE(c == ref[x], "largest component contains nodes of two components"); ++k; }
	if (n) { unsigned big = *std::max_element(size.begin(), size.end()); REQUIRE_EQ(k, big, "size of the largest component"); } else REQUIRE_EQ(k, 0u, "empty graph");
}

static void small(pbt::Gen &g) {
	Graph G = draw_graph(g, g.thorough() ? 80 : 30, w_unit, true, 3000);
	if (g.chance(1, 30)) G = Graph();
	g.note() << G.str();
	Adj a = build_adj(G); U head; for (auto e : a.arc) head.push_back(G.head[e]);
	std::vector<std::vector<char>> reach(G.n, std::vector<char>(G.n));
	for (unsigned s = 0; s < G.n; ++s) { U st(1, s); reach[s][s] = 1; while (!st.empty()) { unsigned x = st.back(); st.pop_back(); for (unsigned i = a.first[x]; i < a.first[x + 1]; ++i) if (!reach[s][head[i]]) { reach[s][head[i]] = 1; st.push_back(head[i]); } } }
	U ref(G.n, INVALID); unsigned cnt = 0;
	for (unsigned x = 0; x < G.n; ++x) if (ref[x] == INVALID) { for (unsigned y = x; y < G.n; ++y) if (reach[x][y] && reach[y][x]) ref[y] = cnt; ++cnt; }
	check(a.first, head, G.n, ref, cnt);
	g.nontrivial(cnt > 1 && cnt < G.n); if (cnt == 1) g.label("strongly connected"); if (cnt == G.n) g.label("acyclic");
}

// long chains of known components: no recursion depth limit
static void deep(pbt::Gen &g) {
	unsigned n = g.range(1000, g.thorough() ? 3000000 : 400000), blocks = 1 + g.below(5); bool rev = g.chance(1, 2);
	U cut; for (unsigned i = 1; i < blocks; ++i) cut.push_back(g.below(n)); std::sort(cut.begin(), cut.end());
	U ref(n); unsigned c = 0; { unsigned j = 0; for (unsigned x = 0; x < n; ++x) { while (j < cut.size() && cut[j] <= x) { ++j; } ref[x] = j; } }
	U ren(blocks + 1, INVALID); for (auto &x : ref) { if (ren[x] == INVALID) ren[x] = c++; x = ren[x]; }
	Graph G; G.n = n; auto id = [&](unsigned x) { return rev ? n - 1 - x : x; };
	for (unsigned x = 0; x + 1 < n; ++x) G.add(id(x), id(x + 1), 1);
	for (unsigned x = 0, s = 0; x < n; ++x) if (x + 1 == n || ref[x + 1] != ref[x]) { G.add(id(x), id(s), 1); s = x + 1; }
	g.note() << "chain of " << n << " nodes, " << c << " components" << (rev ? ", reversed" : "");
	Adj a = build_adj(G); U head; for (auto e : a.arc) head.push_back(G.head[e]);
	U rr(n); for (unsigned x = 0; x < n; ++x) rr[id(x)] = ref[x];
	check(a.first, head, n, rr, c); g.nontrivial(c > 1);
}

// many components of known sizes; arcs between components only lead from lower to higher ones
static void many(pbt::Gen &g) {
	unsigned comps = g.range(1, g.chance(1, 4) ? 300000 : 20000), kind = g.below(3); uint64_t s = g.bits64(); U ref; std::vector<U> node(comps); unsigned big = g.chance(1, 2) ? pbt::splitmix(s) % comps : comps - 1 - pbt::splitmix(s) % std::min(comps, 3u);
	unsigned n = 0; for (unsigned c = 0; c < comps; ++c) { unsigned k = c == big ? 5 + g.below(2000) : kind == 0 ? 1 : 1 + pbt::splitmix(s) % 4; for (unsigned i = 0; i < k; ++i) { node[c].push_back(n++); ref.push_back(c); } }
	U id(n); std::iota(id.begin(), id.end(), 0u); bool shuffled = g.chance(1, 2); if (shuffled) for (unsigned i = n; i > 1; --i) std::swap(id[i - 1], id[pbt::splitmix(s) % i]); bool flip = g.chance(1, 2);
	Graph G; G.n = n; auto arc = [&](unsigned a, unsigned b) { if (flip) std::swap(a, b); G.add(id[a], id[b], 1); };
	for (unsigned c = 0; c < comps; ++c) { auto &v = node[c]; if (v.size() > 1) for (unsigned i = 0; i < v.size(); ++i) arc(v[i], v[(i + 1) % v.size()]); if (v.size() > 3) arc(v[pbt::splitmix(s) % v.size()], v[pbt::splitmix(s) % v.size()]); }
	unsigned cross = kind == 2 ? 0 : 2 * comps; for (unsigned i = 0; i < cross; ++i) { unsigned a = pbt::splitmix(s) % comps, b = pbt::splitmix(s) % comps; if (a == b) continue; if (a > b) std::swap(a, b); arc(node[a][pbt::splitmix(s) % node[a].size()], node[b][pbt::splitmix(s) % node[b].size()]); }
	g.note() << comps << " components, " << n << " nodes, " << G.m() << " arcs, largest " << big << (shuffled ? ", shuffled" : "") << (flip ? ", flipped" : ""); Adj a = build_adj(G); U head; for (auto e : a.arc) head.push_back(G.head[e]);
	U rr(n); for (unsigned x = 0; x < n; ++x) rr[id[x]] = ref[x]; check(a.first, head, n, rr, comps); g.nontrivial(comps > 1 && comps < n);
}

pbt::Check pbt::make_check() {
	return {"P17", "more than one component and fewer components than nodes (small), several components (deep)", {{"small", 60000, 2000000, small}, {"deep", 60, 300, deep}, {"many", 100, 1000, many}}};
}
