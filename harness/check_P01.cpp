// P01: contraction hierarchy distances are exact.
#include "ch_common.hpp"
using namespace chc;

static void all_pairs(pbt::Gen &g, unsigned max_n) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode);
	std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	g.label(std::string("weights:") + mode_name(mode));
	g.note() << G.str() << " " << how << " weights=" << mode_name(mode);
	auto D = ref_all_pairs(G);
	REQUIRE_EQ(ch.node_count(), G.n, "node count of the hierarchy");
	ContractionHierarchyQuery q(ch);
	unsigned reach = 0, unreach = 0;
	for (unsigned s = 0; s < G.n; ++s) for (unsigned t = 0; t < G.n; ++t) {
		q.reset().add_source(s).add_target(t).run();
		unsigned d = q.get_distance();
		REQUIRE_EQ(d, D[s][t], "distance from " << s << " to " << t);
		if (s != t) { if (D[s][t] == INF) ++unreach; else if (D[s][t] > 0) ++reach; }
	}
	g.nontrivial(reach >= 2);
	if (unreach) g.label("has unreachable pairs");
}

static void multi(pbt::Gen &g, unsigned max_n) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode);
	std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	g.note() << G.str() << " " << how;
	auto D = ref_all_pairs(G);
	ContractionHierarchyQuery q(ch);
	bool finite = false;
	for (unsigned i = 0; i < 12; ++i) {
		Terminals S = draw_terminals(g, G.n, mode), T = draw_terminals(g, G.n, mode);
		q.reset(); add_all(q, S, T); q.run();
		unsigned want = ref_distance(D, S, T);
		g.note() << " query " << show_terminals(S) << "->" << show_terminals(T);
		REQUIRE_EQ(q.get_distance(), want, "distance of query " << show_terminals(S) << "->" << show_terminals(T));
		REQUIRE_EQ(q.get_distance(), want, "second read of the distance");
		if (want != INF) {
			unsigned s = q.get_used_source(), t = q.get_used_target();
			REQUIRE(s < G.n && t < G.n, "used source/target out of range");
			REQUIRE_EQ((uint64_t)min_penalty(S, s) + D[s][t] + min_penalty(T, t), (uint64_t)want, "used source and target realise the distance");
			if (S.size() > 1 && T.size() > 1) finite = true;
		} else {
			REQUIRE_EQ(q.get_used_source(), INVALID, "used source of unreachable query");
			REQUIRE_EQ(q.get_used_target(), INVALID, "used target of unreachable query");
		}
	}
	g.nontrivial(finite);
}

// larger graphs, sampled sources against the reference
static void large(pbt::Gen &g) {
	static const std::vector<WeightMode> ms = {w_small, w_unit, w_zero_one, w_medium, w_large};
	WeightMode mode = g.pick(ms);
	Graph G = draw_graph(g, g.thorough() ? 3000 : 700, mode, true, 20000);
	std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	g.note() << "n=" << G.n << " m=" << G.m() << " " << how.substr(0, 40) << " weights=" << mode_name(mode);
	Adj adj = build_adj(G);
	ContractionHierarchyQuery q(ch);
	unsigned finite = 0;
	for (unsigned i = 0; i < 6; ++i) {
		unsigned s = g.below(G.n);
		U d = ref_sssp(G, adj, {{s, 0}});
		for (unsigned j = 0; j < 60; ++j) {
			unsigned t = g.below(G.n);
			q.reset().add_source(s).add_target(t).run();
			REQUIRE_EQ(q.get_distance(), d[t], "distance from " << s << " to " << t);
			if (d[t] != INF && d[t] > 0) ++finite;
		}
	}
	g.nontrivial(finite > 20);
}

// more nodes than fit into 16 bits
static void huge(pbt::Gen &g) {
	U order; Graph G = draw_huge_graph(g, &order);
	ContractionHierarchy ch = g.chance(1, 2) || max_degree(G) > 1000 ? ContractionHierarchy::build_given_order(order, G.tail, G.head, G.weight) : ContractionHierarchy::build(G.n, G.tail, G.head, G.weight);
	Adj adj = build_adj(G);
	ContractionHierarchyQuery q(ch);
	REQUIRE_EQ(ch.node_count(), G.n, "node count of the hierarchy");
	unsigned finite = 0;
	for (unsigned i = 0; i < 3; ++i) {
		unsigned s = i == 0 ? 0 : i == 1 ? G.n - 1 : g.below(G.n);
		U d = ref_sssp(G, adj, {{s, 0}});
		for (unsigned j = 0; j < 40; ++j) {
			unsigned t = j == 0 ? G.n - 1 : j == 1 ? 0 : g.below(G.n);
			q.reset().add_source(s).add_target(t).run();
			REQUIRE_EQ(q.get_distance(), d[t], "distance from " << s << " to " << t);
			if (d[t] != INF && d[t] > 0) ++finite;
		}
	}
	g.nontrivial(finite > 20);
}

// thousands of nodes, or hubs with hundreds of common neighbours
static void wide(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = draw_wide_ch(g, G);
	Adj adj = build_adj(G);
	ContractionHierarchyQuery q(ch);
	unsigned finite = 0;
	for (unsigned i = 0; i < 8; ++i) {
		unsigned s = g.below(G.n);
		U d = ref_sssp(G, adj, {{s, 0}});
		for (unsigned j = 0; j < 100; ++j) {
			unsigned t = j < 2 ? (j ? G.n - 1 : 0) : g.below(G.n);
			q.reset().add_source(s).add_target(t).run();
			REQUIRE_EQ(q.get_distance(), d[t], "distance from " << s << " to " << t);
			if (d[t] != INF && d[t] > 0) ++finite;
		}
	}
	g.nontrivial(finite > 20);
}

// A logger that is so slow that every progress report is due: the hierarchy must not depend on it.
static void slow_log(pbt::Gen &g) {
	Graph G = draw_graph(g, 30, w_small); bool given = g.chance(1, 2); U o = draw_permutation(g, G.n); unsigned calls = 0;
	auto log = [&](std::string m) { ++calls; if (calls < 12 && (m.compare(0, 5, "Start") == 0 || m.compare(0, 5, "Added") == 0 || m.compare(0, 10, "Contracted") == 0)) { struct timespec t = {1, 20000000}; nanosleep(&t, nullptr); } };
	g.note() << G.str() << (given ? " given order" : " build") << " with a slow logger";
	ContractionHierarchy ch = given ? ContractionHierarchy::build_given_order(o, G.tail, G.head, G.weight, log) : ContractionHierarchy::build(G.n, G.tail, G.head, G.weight, log);
	auto D = ref_all_pairs(G);
	ContractionHierarchyQuery q(ch);
	for (unsigned s = 0; s < G.n; ++s) for (unsigned t = 0; t < G.n; ++t) { q.reset().add_source(s).add_target(t).run(); REQUIRE_EQ(q.get_distance(), D[s][t], "distance from " << s << " to " << t); }
	g.nontrivial(G.n >= 4);
}

// the empty graph and graphs without arcs
static void degenerate(pbt::Gen &g) {
	unsigned n = g.below(4);
	bool log = n > 0 && g.chance(1, 2);
	std::function<void(std::string)> l; if (log) l = [](std::string) {};
	ContractionHierarchy ch = g.chance(1, 2) ? ContractionHierarchy::build(n, {}, {}, {}, l) : ContractionHierarchy::build_given_order(draw_permutation(g, n), {}, {}, {}, l);
	g.note() << "n=" << n << " without arcs";
	REQUIRE_EQ(ch.node_count(), n, "node count");
	ContractionHierarchyQuery q(ch);
	for (unsigned s = 0; s < n; ++s) for (unsigned t = 0; t < n; ++t) {
		q.reset().add_source(s).add_target(t).run();
		REQUIRE_EQ(q.get_distance(), s == t ? 0u : INF, "distance");
	}
}

// very many sources and targets
static void many(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = g.chance(1, 3) ? (G = draw_graph(g, 300, w_medium), draw_ch(g, G)) : draw_wide_ch(g, G, 4000); if (G.n < 300) g.note() << "n=" << G.n << " m=" << G.m();
	ContractionHierarchyQuery q(ch);
	unsigned finite = many_terminals(g, G, q, many_distance, 12, [](ContractionHierarchyQuery &, bool, const Terminals &, const U &, const U &) {});
	g.nontrivial(finite >= 3);
}

pbt::Check pbt::make_check() {
	check_given_order = true;
	return Check{"P01", "at least two ordered pairs of distinct nodes with a positive finite distance (all-pairs families), a multi-source multi-target query with a finite answer (multi family), or more than 20 finite sampled queries (large family)", {
		{"all_pairs_small", 300000, 4000000, [](Gen &g) { all_pairs(g, 10); }},
		{"all_pairs_medium", 15000, 200000, [](Gen &g) { all_pairs(g, 60); }},
		{"multi", 100000, 1500000, [](Gen &g) { multi(g, 25); }},
		{"large", 800, 15000, large},
		{"wide", 80, 2500, wide, 300},
		{"huge", 10, 100, huge, 300},
		{"slow_log", 8, 40, slow_log, 120},
		{"degenerate", 200, 2000, degenerate},
		{"many", 100, 2500, many, 300},
	}};
}
