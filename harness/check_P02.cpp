// P02: contraction hierarchy paths are walks of the input graph with exactly the reported length.
#include "ch_common.hpp"
using namespace chc;

static void paths(pbt::Gen &g, unsigned max_n, unsigned rounds) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode);
	std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	g.note() << G.str() << " " << how;
	auto D = ref_all_pairs(G);
	ContractionHierarchyQuery q(ch);
	size_t longest = 0;
	for (unsigned i = 0; i < rounds; ++i) {
		Terminals S = draw_terminals(g, G.n, mode), T = draw_terminals(g, G.n, mode);
		q.reset(); add_all(q, S, T); q.run();
		unsigned want = ref_distance(D, S, T);
		std::string what = "query " + show_terminals(S) + "->" + show_terminals(T);
		U np, ap; unsigned us, ut, d;
		// the getters do not influence each other
		switch (g.below(3)) {
		case 0: np = q.get_node_path(); ap = q.get_arc_path(); us = q.get_used_source(); ut = q.get_used_target(); d = q.get_distance(); break;
		case 1: d = q.get_distance(); ap = q.get_arc_path(); ut = q.get_used_target(); np = q.get_node_path(); us = q.get_used_source(); break;
		default: us = q.get_used_source(); ut = q.get_used_target(); ap = q.get_arc_path(); d = q.get_distance(); np = q.get_node_path(); REQUIRE_EQ(q.get_node_path(), np, what << ": repeated node path"); REQUIRE_EQ(q.get_arc_path(), ap, what << ": repeated arc path"); break;
		}
		REQUIRE_EQ(d, want, what << ": distance");
		check_path(G, G.weight, S, T, d, np, ap, us, ut, what);
		longest = std::max(longest, ap.size());
	}
	g.nontrivial(longest >= 2);
	g.label(longest >= 10 ? "path>=10 arcs" : longest >= 2 ? "path>=2 arcs" : "path<2 arcs");
}

static void large(pbt::Gen &g) {
	static const std::vector<WeightMode> ms = {w_small, w_unit, w_zero_one, w_medium, w_large};
	WeightMode mode = g.pick(ms);
	Graph G = draw_graph(g, g.thorough() ? 3000 : 700, mode, true, 20000);
	std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	g.note() << "n=" << G.n << " m=" << G.m() << " " << how.substr(0, 40);
	Adj adj = build_adj(G);
	ContractionHierarchyQuery q(ch);
	size_t longest = 0;
	for (unsigned i = 0; i < 40; ++i) {
		unsigned s = g.below(G.n), t = g.below(G.n);
		U ref = ref_sssp(G, adj, {{s, 0}});
		q.reset().add_source(s).add_target(t).run();
		U np = q.get_node_path(), ap = q.get_arc_path();
		REQUIRE_EQ(q.get_distance(), ref[t], "distance from " << s << " to " << t);
		check_path(G, G.weight, {{s, 0}}, {{t, 0}}, ref[t], np, ap, q.get_used_source(), q.get_used_target(), "query " + std::to_string(s) + "->" + std::to_string(t));
		longest = std::max(longest, ap.size());
	}
	g.nontrivial(longest >= 10);
}

// more nodes than fit into 16 bits, and paths of that length
static void huge(pbt::Gen &g) {
	U order; Graph G = draw_huge_graph(g, &order);
	ContractionHierarchy ch = g.chance(1, 2) || max_degree(G) > 1000 ? ContractionHierarchy::build_given_order(order, G.tail, G.head, G.weight) : ContractionHierarchy::build(G.n, G.tail, G.head, G.weight);
	Adj adj = build_adj(G);
	ContractionHierarchyQuery q(ch);
	size_t longest = 0;
	for (unsigned i = 0; i < 6; ++i) {
		unsigned s = i < 2 ? (i ? G.n - 1 - g.below(3) : g.below(3)) : g.below(G.n), t = i < 2 ? (i ? g.below(3) : G.n - 1 - g.below(3)) : g.below(G.n);
		U ref = ref_sssp(G, adj, {{s, 0}});
		q.reset().add_source(s).add_target(t).run();
		U np = q.get_node_path(), ap = q.get_arc_path();
		REQUIRE_EQ(q.get_distance(), ref[t], "distance from " << s << " to " << t);
		check_path(G, G.weight, {{s, 0}}, {{t, 0}}, ref[t], np, ap, q.get_used_source(), q.get_used_target(), "query " + std::to_string(s) + "->" + std::to_string(t));
		longest = std::max(longest, ap.size());
	}
	g.nontrivial(longest >= 2); if (longest > 65536) g.label("path of more than 65536 arcs");
}

// thousands of nodes, or hubs with hundreds of common neighbours
static void wide(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = draw_wide_ch(g, G);
	Adj adj = build_adj(G);
	ContractionHierarchyQuery q(ch);
	size_t longest = 0;
	for (unsigned i = 0; i < 8; ++i) {
		unsigned s = g.below(G.n);
		U ref = ref_sssp(G, adj, {{s, 0}});
		for (unsigned j = 0; j < 60; ++j) {
			unsigned t = g.below(G.n);
			q.reset().add_source(s).add_target(t).run();
			U np = q.get_node_path(), ap = q.get_arc_path();
			REQUIRE_EQ(q.get_distance(), ref[t], "distance from " << s << " to " << t);
			check_path(G, G.weight, {{s, 0}}, {{t, 0}}, ref[t], np, ap, q.get_used_source(), q.get_used_target(), "query " + std::to_string(s) + "->" + std::to_string(t));
			longest = std::max(longest, ap.size());
		}
	}
	g.nontrivial(longest >= 2);
}

// very many sources and targets
static void many(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = g.chance(1, 3) ? (G = draw_graph(g, 300, w_medium), draw_ch(g, G)) : draw_wide_ch(g, G, 4000); if (G.n < 300) g.note() << "n=" << G.n << " m=" << G.m();
	ContractionHierarchyQuery q(ch);
	unsigned finite = many_terminals(g, G, q, many_path, 12, [](ContractionHierarchyQuery &, bool, const Terminals &, const U &, const U &) {});
	g.nontrivial(finite >= 3);
}

pbt::Check pbt::make_check() {
	return Check{"P02", "a returned path has at least two arcs (at least ten in the large family)", {
		{"small", 150000, 3000000, [](Gen &g) { paths(g, 10, 15); }},
		{"medium", 12000, 300000, [](Gen &g) { paths(g, 60, 40); }},
		{"large", 500, 12000, large},
		{"wide", 80, 2500, wide, 300},
		{"huge", 10, 100, huge, 300},
		{"many", 100, 2500, many, 300},
	}};
}
