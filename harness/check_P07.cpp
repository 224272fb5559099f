// P07: customizable contraction hierarchies answer point-to-point queries exactly, for any node order, graph and metric.
#include "cch_common.hpp"
using namespace cchc;

static void point_to_point(pbt::Gen &g, unsigned max_n, unsigned rounds) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode);
	std::string how;
	g.note() << G.str();
	Cch cch = draw_cch(g, G, &how);
	g.note() << " " << how;
	REQUIRE_EQ(cch.node_count(), G.n, "node count of the index");
	REQUIRE_EQ(cch.input_arc_count(), G.m(), "input arc count of the index");
	U w = padded(G.weight);
	Metric m(cch, w);
	if (g.chance(1, 4)) m = Metric(cch, w.data());
	m.customize();
	auto D = ref_all_pairs(G);
	Query q(m);
	size_t longest = 0;
	for (unsigned i = 0; i < rounds; ++i) {
		Terminals S = draw_terminals(g, G.n, mode), T = draw_terminals(g, G.n, mode);
		q.reset(); add_all(q, S, T); q.run();
		unsigned want = ref_distance(D, S, T);
		check_cch_query(G, G.weight, q, S, T, want, "query " + show_terminals(S) + "->" + show_terminals(T), g.below(3));
		longest = std::max(longest, q.get_arc_path().size());
	}
	g.nontrivial(longest >= 2);
	g.label(longest >= 10 ? "path>=10 arcs" : longest >= 2 ? "path>=2 arcs" : "path<2 arcs");
}

static void all_pairs(pbt::Gen &g) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, 9, mode);
	std::string how;
	g.note() << G.str();
	Cch cch = draw_cch(g, G, &how);
	g.note() << " " << how;
	U w = padded(G.weight);
	Metric m(cch, w); m.customize();
	auto D = ref_all_pairs(G);
	Query q(m);
	unsigned finite = 0;
	for (unsigned s = 0; s < G.n; ++s) for (unsigned t = 0; t < G.n; ++t) {
		q.reset().add_source(s).add_target(t).run();
		check_cch_query(G, G.weight, q, {{s, 0}}, {{t, 0}}, D[s][t], "query " + std::to_string(s) + "->" + std::to_string(t));
		if (D[s][t] != INF && s != t) ++finite;
	}
	g.nontrivial(finite >= 2);
}

static void large(pbt::Gen &g) {
	static const std::vector<WeightMode> ms = {w_small, w_unit, w_zero_one, w_medium, w_large};
	WeightMode mode = g.pick(ms);
	Graph G = draw_graph(g, g.thorough() ? 1500 : 400, mode, true, 1600);
	g.note() << "n=" << G.n << " m=" << G.m();
	Cch cch = draw_cch(g, G);
	U w = padded(G.weight);
	Metric m(cch, w); m.customize();
	Adj adj = build_adj(G);
	Query q(m);
	size_t longest = 0;
	for (unsigned i = 0; i < 30; ++i) {
		unsigned s = g.below(G.n), t = g.below(G.n);
		U ref = ref_sssp(G, adj, {{s, 0}});
		q.reset().add_source(s).add_target(t).run();
		check_cch_query(G, G.weight, q, {{s, 0}}, {{t, 0}}, ref[t], "query " + std::to_string(s) + "->" + std::to_string(t), i);
		longest = std::max(longest, q.get_arc_path().size());
	}
	g.nontrivial(longest >= 10);
}

// more nodes and arcs than fit into 16 bits
static void huge(pbt::Gen &g, bool wide) {
	U order; Graph G = wide ? draw_wide_graph(g, &order, nullptr) : draw_huge_graph(g, &order); Adj adj = build_adj(G);
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 2));
	REQUIRE_EQ(cch.node_count(), G.n, "node count"); REQUIRE_EQ(cch.input_arc_count(), G.m(), "input arc count");
	Metric m(cch, G.weight); m.customize(); Query q(m); size_t longest = 0;
	for (unsigned i = 0; i < (wide ? 30u : 6u); ++i) {
		unsigned s = i < 2 ? (i ? G.n - 1 - g.below(3) : g.below(3)) : g.below(G.n), t = i < 2 ? (i ? g.below(3) : G.n - 1 - g.below(3)) : g.below(G.n);
		U ref = ref_sssp(G, adj, {{s, 0}});
		q.reset().add_source(s).add_target(t).run();
		check_cch_query(G, G.weight, q, {{s, 0}}, {{t, 0}}, ref[t], "query " + std::to_string(s) + "->" + std::to_string(t), i);
		longest = std::max(longest, q.get_arc_path().size());
	}
	g.nontrivial(longest >= 2); if (longest > 65536) g.label("path of more than 65536 arcs");
}

// copies of the index are independent of the original, which may be destroyed; the empty graph is a graph
static void lifetime(pbt::Gen &g) {
	bool empty = g.chance(1, 20);
	WeightMode mode = draw_mode(g);
	Graph G; if (!empty) G = draw_graph(g, 9, mode);
	g.note() << G.str();
	std::string how;
	U w = padded(G.weight);
	auto D = ref_all_pairs(G);
	std::unique_ptr<Cch> a(new Cch(draw_cch(g, G, &how)));
	g.note() << " " << how;
	Cch b;
	unsigned k = g.below(4);
	static const char *names[] = {" copy constructed", " copy assigned", " move assigned", " moved"};
	g.note() << names[k];
	std::unique_ptr<Cch> c;
	if (k == 0) c.reset(new Cch(*a)); else if (k == 1) { if (g.chance(1, 2)) { Graph H = draw_graph(g, 9, mode); b = draw_cch(g, H); } b = *a; } else if (k == 2) b = std::move(*a); else c.reset(new Cch(std::move(*a)));
	const Cch &cch = c ? *c : b;
	a.reset();
	// recycle the memory of the destroyed original
	std::vector<std::vector<unsigned>> junk; for (unsigned i = 1; i < 40; ++i) junk.emplace_back(i * 2, 0xabababab);
	REQUIRE_EQ(cch.node_count(), G.n, "node count of the index");
	REQUIRE_EQ(cch.input_arc_count(), G.m(), "input arc count of the index");
	Metric m(cch, w); m.customize();
	if (G.n) check_metric(g, G, G.weight, D, m, "copied index");
	g.nontrivial(G.m() >= 2);
}

// very many sources and targets
static void many(pbt::Gen &g) {
	U order; Graph G; unsigned kind = g.below(4); // 0: the hubs are eliminated first, which gives nodes with hundreds of upward arcs
	if (kind == 0) { unsigned n = 200 + g.below(350), k = 1 + g.below(4); uint64_t s = g.bits64(); G.n = n; for (unsigned x = k; x < n; ++x) for (unsigned h = 0; h < k; ++h) { if (pbt::splitmix(s) % 4) G.add(x, h, pbt::splitmix(s) % 1000); if (pbt::splitmix(s) % 4) G.add(h, x, pbt::splitmix(s) % 1000); } for (unsigned x = 0; x < n; ++x) order.push_back(x); g.note() << "dense hierarchy n=" << n << " hubs=" << k << " seed=" << s; g.label("dense hierarchy"); }
	else if (kind == 1) { G = draw_graph(g, 300, w_medium); order = draw_order(g, G.n); g.note() << "n=" << G.n << " m=" << G.m(); }
	else G = draw_wide_graph(g, &order, nullptr, 300, 4000);
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 2)); U w = padded(G.weight); Metric m(cch, w); m.customize(); Query q(m);
	unsigned finite = many_terminals(g, G, q, many_path, 12, [](Query &, bool, const Terminals &, const U &, const U &) {});
	if (kind == 0) { // every arc of the nodes with hundreds of upward arcs matters
		Adj fwd = build_adj(G), bwd = build_adj(G, true); unsigned x = g.chance(1, 2) ? 0 : g.below(4); U df = ref_sssp(G, fwd, {{x, 0}}), db = ref_sssp(G, bwd, {{x, 0}}, true);
		for (unsigned t = 0; t < G.n; ++t) {
			REQUIRE_EQ(q.reset().add_source(x).add_target(t).run().get_distance(), df[t], "distance " << x << "->" << t);
			REQUIRE_EQ(q.reset().add_source(t).add_target(x).run().get_distance(), db[t], "distance " << t << "->" << x);
		}
	}
	g.nontrivial(finite >= 3);
}

pbt::Check pbt::make_check() {
	return Check{"P07", "a returned path has at least two arcs (ten in the large family; two reachable pairs in all_pairs; two arcs in lifetime)", {
		{"small", 120000, 2500000, [](Gen &g) { point_to_point(g, 10, 15); }},
		{"all_pairs", 60000, 1200000, all_pairs},
		{"medium", 12000, 250000, [](Gen &g) { point_to_point(g, 60, 30); }},
		{"large", 300, 8000, large},
		{"wide", 200, 4000, [](Gen &g) { huge(g, true); }, 300},
		{"huge", 6, 60, [](Gen &g) { huge(g, false); }, 300},
		{"lifetime", 40000, 800000, lifetime},
		{"many", 100, 2500, many, 300},
	}};
}
