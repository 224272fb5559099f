// P04: pinned one-to-many / many-to-one queries of a contraction hierarchy equal point-to-point answers.
#include "ch_common.hpp"
#include <map>
using namespace chc;

static void m2m(pbt::Gen &g, unsigned max_n, unsigned rounds) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode);
	std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	auto D = ref_all_pairs(G);
	bool targets = g.chance(1, 2);
	// the list may be empty, contain duplicates and be longer than the graph has nodes
	U pinned; unsigned len;
	switch (g.below(5)) { case 0: len = 0; break; case 1: len = 1 + g.below(3); break; case 2: len = G.n; break; case 3: len = G.n + 1 + g.below(2 * G.n + 2); break; default: len = g.below(G.n + 1); }
	if (g.chance(1, 4) && len == G.n) { pinned = draw_permutation(g, G.n); }
	else for (unsigned i = 0; i < len; ++i) pinned.push_back(g.below(G.n));
	g.note() << G.str() << " " << how << (targets ? " pin_targets" : " pin_sources") << pbt::show(pinned);
	ContractionHierarchyQuery q(ch);
	if (g.chance(1, 2)) { q.add_source(0).add_target(G.n - 1).run(); q.reset(); }
	if (targets) q.pin_targets(pinned); else q.pin_sources(pinned);
	REQUIRE_EQ(targets ? q.get_pinned_target_count() : q.get_pinned_source_count(), (unsigned)pinned.size(), "pinned count");
	unsigned finite = 0;
	for (unsigned r = 0; r < rounds; ++r) {
		Terminals X = draw_terminals(g, G.n, mode);
		if (r) { if (targets) q.reset_source(); else q.reset_target(); }
		if (g.chance(1, 4)) { // terminals that are dropped again, with or without a run whose result nobody reads
			Terminals Y = draw_terminals(g, G.n, mode); if (targets) add_all(q, Y, {}); else add_all(q, {}, Y);
			bool run = g.chance(1, 3); if (run) { if (targets) q.run_to_pinned_targets(); else q.run_to_pinned_sources(); }
			g.note() << (run ? " run and dropped" : " dropped") << show_terminals(Y);
			if (targets) q.reset_source(); else q.reset_target();
		}
		if (targets) add_all(q, X, {}); else add_all(q, {}, X);
		g.note() << (targets ? " from" : " to") << show_terminals(X);
		if (targets) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
		U want; for (auto p : pinned) want.push_back(targets ? ref_distance(D, X, {{p, 0}}) : ref_distance(D, {{p, 0}}, X));
		U got;
		if (g.chance(1, 2)) got = targets ? q.get_distances_to_targets() : q.get_distances_to_sources();
		else { got.assign(pinned.size() + 1, 4242); if (targets) q.get_distances_to_targets(got.data()); else q.get_distances_to_sources(got.data()); REQUIRE_EQ(got.back(), 4242u, "writes past the output"); got.pop_back(); }
		REQUIRE_EQ(got, want, "distances to the pinned nodes");
		U used = targets ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources();
		REQUIRE_EQ(used.size(), pinned.size(), "number of used terminals");
		for (size_t i = 0; i < used.size(); ++i) {
			if (want[i] == INF) { REQUIRE_EQ(used[i], INVALID, "used terminal of the unreachable pinned entry " << i); continue; }
			unsigned pen = min_penalty(X, used[i]);
			REQUIRE(pen != INF, "used terminal " << used[i] << " of pinned entry " << i << " was never added");
			unsigned d = targets ? D[used[i]][pinned[i]] : D[pinned[i]][used[i]];
			REQUIRE_EQ((uint64_t)pen + d, (uint64_t)want[i], "used terminal of pinned entry " << i << " realises the distance");
			if (want[i] > 0) ++finite;
		}
	}
	if (g.chance(1, 3)) { // the object is usable for ordinary queries afterwards
		unsigned s = g.below(G.n), t = g.below(G.n);
		q.reset().add_source(s).add_target(t).run();
		REQUIRE_EQ(q.get_distance(), D[s][t], "point-to-point query after a pinned query");
	}
	g.label(pinned.empty() ? "pinned:empty" : pinned.size() > G.n ? "pinned:longer than node count" : "pinned:ordinary");
	g.nontrivial(finite >= 2);
}

static void large(pbt::Gen &g) {
	static const std::vector<WeightMode> ms = {w_small, w_unit, w_zero_one, w_medium, w_large};
	Graph G = draw_graph(g, g.thorough() ? 3000 : 700, g.pick(ms), true, 20000);
	ContractionHierarchy ch = draw_ch(g, G);
	g.note() << "n=" << G.n << " m=" << G.m();
	Adj fwd = build_adj(G), bwd = build_adj(G, true);
	U pinned; unsigned len = 1 + g.below(G.n); for (unsigned i = 0; i < len; ++i) pinned.push_back(g.below(G.n));
	ContractionHierarchyQuery q(ch), p(ch); q.pin_targets(pinned); p.pin_sources(pinned);
	unsigned finite = 0;
	for (unsigned r = 0; r < 12; ++r) {
		unsigned x = g.below(G.n);
		U df = ref_sssp(G, fwd, {{x, 0}}), db = ref_sssp(G, bwd, {{x, 0}}, true);
		U a = q.reset_source().add_source(x).run_to_pinned_targets().get_distances_to_targets();
		U b = p.reset_target().add_target(x).run_to_pinned_sources().get_distances_to_sources();
		for (unsigned i = 0; i < len; ++i) {
			REQUIRE_EQ(a[i], df[pinned[i]], "distance " << x << " -> pinned " << pinned[i]);
			REQUIRE_EQ(b[i], db[pinned[i]], "distance pinned " << pinned[i] << " -> " << x);
			if (a[i] != INF && a[i]) ++finite;
		}
	}
	g.nontrivial(finite > 5);
}

// more pinned entries and nodes than fit into 16 bits
static void huge(pbt::Gen &g, bool wide) {
	U order; Graph G; ContractionHierarchy ch;
	if (wide) ch = draw_wide_ch(g, G); else { G = draw_huge_graph(g, &order);
	ch = g.chance(1, 2) || max_degree(G) > 1000 ? ContractionHierarchy::build_given_order(order, G.tail, G.head, G.weight) : ContractionHierarchy::build(G.n, G.tail, G.head, G.weight); }
	Adj adj = build_adj(G);
	Adj bwd = build_adj(G, true);
	U pinned; uint64_t r = g.bits64(); unsigned len = wide ? 1 + g.below(3000) : 65530 + g.below(30000); for (unsigned i = 0; i < len; ++i) pinned.push_back(i < G.n && (r & 1) ? i : pbt::splitmix(r) % G.n);
	ContractionHierarchyQuery q(ch), p(ch); q.pin_targets(pinned); p.pin_sources(pinned);
	REQUIRE_EQ(q.get_pinned_target_count(), len, "pinned count"); REQUIRE_EQ(p.get_pinned_source_count(), len, "pinned count");
	unsigned finite = 0;
	for (unsigned k = 0; k < (wide ? 8u : 2u); ++k) {
		unsigned x = g.below(G.n);
		U df = ref_sssp(G, adj, {{x, 0}}), db = ref_sssp(G, bwd, {{x, 0}}, true);
		U a = q.reset_source().add_source(x).run_to_pinned_targets().get_distances_to_targets();
		U b = p.reset_target().add_target(x).run_to_pinned_sources().get_distances_to_sources();
		REQUIRE_EQ(a.size(), pinned.size(), "number of distances"); REQUIRE_EQ(b.size(), pinned.size(), "number of distances");
		for (unsigned i = 0; i < len; ++i) {
			REQUIRE_EQ(a[i], df[pinned[i]], "distance " << x << " -> pinned entry " << i << " = " << pinned[i]);
			REQUIRE_EQ(b[i], db[pinned[i]], "distance pinned entry " << i << " = " << pinned[i] << " -> " << x);
			if (a[i] != INF && a[i]) ++finite;
		}
	}
	g.nontrivial(finite > 5);
}

// very many pinned nodes and terminals, very many runs
static void many(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = g.chance(1, 3) ? (G = draw_graph(g, 300, w_medium), draw_ch(g, G)) : draw_wide_ch(g, G, 4000); if (G.n < 300) g.note() << "n=" << G.n << " m=" << G.m();
	ContractionHierarchyQuery q(ch);
	unsigned finite = many_terminals(g, G, q, many_pinned, 6, [&](ContractionHierarchyQuery &q, bool targets, const Terminals &X, const U &p, const U &d) {
		U u = targets ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources(); REQUIRE_EQ(u.size(), p.size(), "number of used terminals"); std::map<unsigned, U> row; static Adj adj; adj = build_adj(G, !targets);
		for (unsigned j = 0; j < p.size(); ++j) {
			if (d[p[j]] == INF) { REQUIRE_EQ(u[j], INVALID, "used terminal of an unreachable pinned node"); continue; }
			unsigned pen = min_penalty(X, u[j]); REQUIRE(pen != INF, "used terminal " << u[j] << " was never added");
			if (!row.count(u[j])) { if (row.size() > 20) continue; row[u[j]] = ref_sssp(G, adj, {{u[j], 0}}, !targets); }
			REQUIRE_EQ((uint64_t)pen + row[u[j]][p[j]], (uint64_t)d[p[j]], "used terminal " << u[j] << " of pinned entry " << j << " realises the distance");
		}
	});
	g.nontrivial(finite >= 3);
}

pbt::Check pbt::make_check() {
	return Check{"P04", "at least two pinned entries with a positive finite distance (more than five in the large family)", {
		{"small", 200000, 4000000, [](Gen &g) { m2m(g, 10, 3); }},
		{"medium", 15000, 300000, [](Gen &g) { m2m(g, 60, 5); }},
		{"large", 400, 10000, large},
		{"wide", 60, 2000, [](Gen &g) { huge(g, true); }, 300},
		{"huge", 8, 100, [](Gen &g) { huge(g, false); }, 300},
		{"many", 100, 2500, many, 300},
	}};
}
