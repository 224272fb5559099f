// P08: every way of customizing a metric (sequential, parallel with any thread count, any history of partial updates,
// perfect witness search) gives the same answers as shortest path search on the current weights.
#include "cch_common.hpp"
using namespace cchc;

static void check_perfect(pbt::Gen &g, const Graph &G, const U &w, const std::vector<U> &D, Metric &m, const std::string &what) {
	ContractionHierarchy ch = m.build_contraction_hierarchy_using_perfect_witness_search();
	REQUIRE_EQ(ch.node_count(), G.n, what << ": node count of the perfect hierarchy");
	ContractionHierarchyQuery q(ch);
	bool all = G.n <= 8;
	unsigned rounds = all ? G.n * G.n : 25;
	for (unsigned i = 0; i < rounds; ++i) {
		unsigned s = all ? i / G.n : g.below(G.n), t = all ? i % G.n : g.below(G.n);
		q.reset().add_source(s).add_target(t).run();
		std::string wh = what + " perfect hierarchy " + std::to_string(s) + "->" + std::to_string(t);
		REQUIRE_EQ(q.get_distance(), D[s][t], wh);
		check_path(G, w, {{s, 0}}, {{t, 0}}, D[s][t], q.get_node_path(), q.get_arc_path(), q.get_used_source(), q.get_used_target(), wh);
	}
}

// the distances the metric gives, whatever its paths are
static void check_distances(const Graph &G, const std::vector<U> &D, const Metric &m, const std::string &what) {
	U all(G.n); std::iota(all.begin(), all.end(), 0u); Query q(m); q.pin_targets(all);
	for (unsigned s = 0; s < G.n; ++s) REQUIRE_EQ(q.reset_source().add_source(s).run_to_pinned_targets().get_distances_to_targets(), D[s], what << ": distances from " << s);
}

// one partial customization object and one metric object wander between indices
static void wander(pbt::Gen &g) {
	struct World { Graph G; U w; WeightMode mode; std::unique_ptr<Cch> cch; std::unique_ptr<Metric> m; U dirty; };
	std::vector<World> W(2 + g.below(2)); unsigned jumps = 0;
	for (auto &x : W) {
		x.mode = draw_mode(g); if (&x != &W[0] && g.chance(1, 3)) x.G = W[0].G; else x.G = draw_graph(g, 12, x.mode, true, 60);
		std::string how; x.cch.reset(new Cch(draw_cch(g, x.G, &how))); x.w = padded(x.G.weight); x.m.reset(new Metric(*x.cch, x.w)); x.m->customize(); g.note() << " index: " << x.G.str() << how;
	}
	Partial part(*W[0].cch); Metric m; unsigned at = 0, metric_at = ~0u; unsigned ops = 2 + g.below(10);
	for (unsigned i = 0; i < ops; ++i) {
		std::string what = "op " + std::to_string(i); unsigned op = g.below(6);
		if (op == 0) { unsigned k = g.below(W.size()); part.reset(*W[k].cch); jumps += k != at; at = k; g.note() << "; to " << k; }
		auto &x = W[at]; if (!x.G.m()) continue;
		if (op <= 2) { // announced, then forgotten again
			unsigned a = g.below(x.G.m()); auto D = ref_all_pairs(x.G, &x.w); unsigned old = x.w[a]; x.w[a] = draw_weight(g, x.mode); part.update_arc(a); g.note() << "; forget w[" << a << "]=" << x.w[a];
			if (g.chance(1, 2)) { part.reset(); if (g.chance(1, 2)) { part.customize(*x.m); check_distances(x.G, D, *x.m, what + ": after an announcement that was reset"); } x.w[a] = old; }
			else { part.customize(*x.m); auto E = ref_all_pairs(x.G, &x.w); check_metric(g, x.G, x.w, E, *x.m, what, 2); }
		} else if (op <= 4) {
			unsigned k = 1 + g.below(4); for (unsigned j = 0; j < k; ++j) { unsigned a = g.below(x.G.m()); x.w[a] = draw_weight(g, x.mode); part.update_arc(a); g.note() << "; w[" << a << "]=" << x.w[a]; }
			part.customize(*x.m); auto D = ref_all_pairs(x.G, &x.w); check_metric(g, x.G, x.w, D, *x.m, what, 2);
		} else { // the wandering metric
			if (metric_at == at) m.reset(x.w); else if (g.chance(1, 2)) m.reset(*x.cch, x.w); else m.reset(*x.cch, x.w.data());
			metric_at = at; g.note() << "; metric to " << at; m.customize(); auto D = ref_all_pairs(x.G, &x.w); check_metric(g, x.G, x.w, D, m, what, 2);
		}
	}
	g.nontrivial(jumps > 0); g.label("wander");
}

static void history(pbt::Gen &g, unsigned max_n, unsigned max_ops) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode, true, 400);
	std::string how;
	Cch cch = draw_cch(g, G, &how);
	g.note() << G.str() << " " << how;
	U w = padded(G.weight);
	Metric m(cch, w);
	Parallel par(cch);
	Partial part(cch);
	auto D = ref_all_pairs(G, &w);
	bool customized = false; // the hierarchy of m is an unmodified customization of the previous weights
	U dirty;                 // arcs changed since then
	unsigned ops = 1 + g.below(max_ops), effective = 0;
	for (unsigned i = 0; i < ops; ++i) {
		// change some weights
		if (i || g.chance(1, 4)) {
			unsigned k = G.m() ? (g.chance(1, 6) ? G.m() : g.below(std::min(G.m(), 6u) + 1)) : 0;
			for (unsigned j = 0; j < k; ++j) {
				unsigned a = k == G.m() ? j : g.below(G.m());
				unsigned nw = draw_weight(g, g.chance(3, 4) ? mode : draw_mode(g));
				if (w[a] != nw) ++effective;
				w[a] = nw; dirty.push_back(a);
				if (k < 8) g.note() << " w[" << a << "]=" << nw;
			}
		}
		D = ref_all_pairs(G, &w);
		std::string what = "step " + std::to_string(i);
		unsigned op = g.below(customized ? 8 : 4);
		if (op == 0) { g.note() << "; customize"; m.customize(); }
		else if (op == 1) { unsigned t = 1 + g.below(4); if (g.chance(1, 50)) t = g.pick(U{5, 7, 8, 9, 12, 16, 17, 32, 33, 48, 64, 65, 100}); g.note() << "; parallel(" << t << ")"; if (t == 4) par.customize(m); else par.customize(m, t); }
		else if (op == 2) {
			g.note() << "; perfect";
			check_perfect(g, G, w, D, m, what);
			check_distances(G, D, m, what + " metric after a perfect customization");
			customized = false; // paths of the metric itself are not specified
			dirty.clear();
			continue;
		}
		else if (op == 3) { // a new weight vector
			g.note() << "; reset"; w = padded(U(w));
			if (g.chance(1, 2)) m.reset(w); else if (g.chance(1, 2)) m.reset(w.data()); else m.reset(cch, w);
			m.customize();
		} else { // partial update, extra and repeated arcs are allowed
			g.note() << "; partial";
			if (g.chance(1, 2)) part.reset(); else if (g.chance(1, 8)) part.reset(cch);
			U upd = dirty;
			unsigned extra = g.below(3); for (unsigned j = 0; j < extra && G.m(); ++j) upd.push_back(g.below(G.m()));
			U p = draw_permutation(g, upd.size());
			for (auto j : p) part.update_arc(upd[j]);
			if (op == 7 && g.chance(1, 2)) { part.reset(); for (auto a : dirty) part.update_arc(a); }
			part.customize(m);
		}
		customized = true; dirty.clear();
		check_metric(g, G, w, D, m, what, 3);
	}
	g.nontrivial(effective >= 1 && ops >= 2);
}

// many lower triangles compete for the same arc, levels have more arcs than a scheduling chunk
static void contended(pbt::Gen &g) {
	unsigned hubs = 2 + g.below(5), leaves = 200 + g.below(g.thorough() ? 20000 : 4000);
	Graph G; G.n = hubs + leaves;
	uint64_t r = g.bits64();
	bool descending = g.chance(1, 2); // later leaves offer shorter paths
	for (unsigned l = 0; l < leaves; ++l) for (unsigned h = 0; h < hubs; ++h) {
		unsigned base = descending ? 2 * (leaves - l) : 2 * l + 1;
		G.add(hubs + l, h, base + pbt::splitmix(r) % 50);
		G.add(h, hubs + l, base + pbt::splitmix(r) % 50);
	}
	g.note() << "hubs=" << hubs << " leaves=" << leaves << " seed=" << r << (descending ? " descending" : "");
	U order; for (unsigned l = 0; l < leaves; ++l) order.push_back(hubs + l); for (unsigned h = 0; h < hubs; ++h) order.push_back(h);
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 3));
	Metric m(cch, G.weight);
	Parallel par(cch);
	Adj adj = build_adj(G);
	std::vector<U> D; for (unsigned h = 0; h < hubs; ++h) D.push_back(ref_sssp(G, adj, {{h, 0}}));
	unsigned rounds = g.thorough() ? 20 : 8;
	Query q(m);
	for (unsigned i = 0; i < rounds; ++i) {
		unsigned t = 2 + g.below(g.chance(1, 3) ? 100 : 7);
		par.customize(m, t);
		for (unsigned s = 0; s < hubs; ++s) for (unsigned h = 0; h < hubs; ++h)
			REQUIRE_EQ(q.reset().add_source(s).add_target(h).run().get_distance(), D[s][h], "round " << i << " with " << t << " threads: distance between hubs " << s << " and " << h);
	}
	g.nontrivial();
}

// Many pairs of hubs; the threads lower the weight between the hubs of a pair at the same time with similar values.
static void race(pbt::Gen &g) {
	unsigned groups = 20 + g.below(60), leaves = 256 * (1 + g.below(5)), period = g.pick(std::vector<unsigned>{128, 128, 64, 256, 1000}), step = 1 + g.below(4);
	Graph G; G.n = groups * (leaves + 2); uint64_t r = g.bits64(); U order;
	for (unsigned k = 0; k < groups; ++k) for (unsigned l = 0; l < leaves; ++l) {
		unsigned x = 2 * groups + k * leaves + l; order.push_back(x);
		for (unsigned h = 2 * k; h < 2 * k + 2; ++h) { G.add(x, h, 1); G.add(h, x, 1); }
	}
	for (unsigned h = 0; h < 2 * groups; ++h) order.push_back(h);
	g.note() << groups << " pairs of hubs, " << leaves << " leaves each, period " << period << " step " << step << " seed " << r;
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 3)); Parallel par(cch);
	U w(G.m()); unsigned rounds = g.thorough() ? 20 : 10;
	for (unsigned i = 0; i < rounds; ++i) {
		U there(groups, INF), back(groups, INF); unsigned a = 0;
		for (unsigned k = 0; k < groups; ++k) for (unsigned l = 0; l < leaves; ++l, a += 4) {
			unsigned base = step * (period - l % period);
			for (unsigned j = 0; j < 4; ++j) w[a + j] = base + pbt::splitmix(r) % (2 * step);
			there[k] = std::min(there[k], w[a + 1] + w[a + 2]); back[k] = std::min(back[k], w[a + 3] + w[a]);
		}
		Metric m(cch, w); unsigned t = g.chance(1, 2) ? 8 : 2 + g.below(9);
		if (g.chance(1, 8)) par.customize(m); else par.customize(m, t);
		Query q(m);
		for (unsigned k = 0; k < groups; ++k) {
			REQUIRE_EQ(q.reset().add_source(2 * k).add_target(2 * k + 1).run().get_distance(), there[k], "round " << i << " with " << t << " threads: distance between the hubs of pair " << k);
			REQUIRE_EQ(q.reset().add_source(2 * k + 1).add_target(2 * k).run().get_distance(), back[k], "round " << i << " with " << t << " threads: distance back between the hubs of pair " << k);
		}
	}
	g.nontrivial();
}

static void large(pbt::Gen &g) {
	static const std::vector<WeightMode> ms = {w_small, w_unit, w_zero_one, w_medium, w_large, w_with_inf};
	WeightMode mode = g.pick(ms);
	Graph G = draw_graph(g, g.thorough() ? 800 : 250, mode, true, 1000);
	g.note() << "n=" << G.n << " m=" << G.m();
	Cch cch = draw_cch(g, G);
	U w = padded(G.weight);
	Metric m(cch, w); m.customize();
	Parallel par(cch); Partial part(cch);
	for (unsigned i = 0; i < 3; ++i) {
		U changed; unsigned k = G.m() ? g.below(20) : 0;
		for (unsigned j = 0; j < k; ++j) { unsigned a = g.below(G.m()); w[a] = draw_weight(g, mode); changed.push_back(a); }
		switch (g.below(3)) {
		case 0: for (auto a : changed) part.update_arc(a); part.customize(m); break;
		case 1: par.customize(m, 2 + g.below(3)); break;
		default: m.customize();
		}
		auto D = ref_all_pairs(G, &w);
		check_metric(g, G, w, D, m, "step " + std::to_string(i), 10);
		if (i == 2) check_perfect(g, G, w, D, m, "end");
	}
	g.nontrivial(G.m() > 20);
}

// more nodes and arcs than fit into 16 bits: all ways to customize agree
static void huge(pbt::Gen &g, bool wide) {
	U order; Graph G = wide ? draw_wide_graph(g, &order, nullptr) : draw_huge_graph(g, &order); Adj adj = build_adj(G);
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 2));
	REQUIRE_EQ(cch.node_count(), G.n, "node count"); REQUIRE_EQ(cch.input_arc_count(), G.m(), "input arc count");
	U w = G.weight; Metric m(cch, w); m.customize(); Parallel par(cch); Partial part(cch); uint64_t r = g.bits64();
	for (unsigned i = 0; i < 3; ++i) {
		unsigned k = 1 + g.below(wide ? 30 : 300); bool high = g.chance(1, 2); U changed;
		for (unsigned j = 0; j < k; ++j) { unsigned a = high ? G.m() - 1 - pbt::splitmix(r) % 100 : pbt::splitmix(r) % G.m(); w[a] = pbt::splitmix(r) % 2000; changed.push_back(a); }
		unsigned how = g.below(4); g.note() << " step " << i << " way " << how;
		if (how == 0) par.customize(m, g.chance(1, 3) ? 9 + g.below(120) : 1 + g.below(8)); else if (how == 3) m.customize(); else { part.reset(); for (auto a : changed) part.update_arc(a); part.customize(m); }
		unsigned s = i ? g.below(G.n) : G.n - 1; U ref = ref_sssp(G, adj, {{s, 0}}, false, &w);
		U all; for (unsigned j = 0; j < 2000; ++j) all.push_back(j < 200 ? G.n - 1 - j : pbt::splitmix(r) % G.n);
		Query q(m); q.pin_targets(all); U d = q.add_source(s).run_to_pinned_targets().get_distances_to_targets();
		for (unsigned j = 0; j < all.size(); ++j) REQUIRE_EQ(d[j], ref[all[j]], "step " << i << ": distance " << s << "->" << all[j]);
	}
	auto ch = m.build_contraction_hierarchy_using_perfect_witness_search();
	ContractionHierarchyQuery cq(ch); unsigned s = g.below(G.n); U ref = ref_sssp(G, adj, {{s, 0}}, false, &w);
	for (unsigned j = 0; j < 30; ++j) { unsigned t = g.below(G.n); REQUIRE_EQ(cq.reset().add_source(s).add_target(t).run().get_distance(), ref[t], "perfect hierarchy: distance " << s << "->" << t); }
	g.nontrivial();
}

pbt::Check pbt::make_check() {
	return Check{"P08", "at least two customizations with a changed weight in between (wander: the object moves to another index; contended: all; large: more than 20 arcs)", {
		{"history_small", 60000, 1200000, [](Gen &g) { history(g, 8, 8); }},
		{"history_medium", 6000, 120000, [](Gen &g) { history(g, 30, 12); }},
		{"wander", 6000, 120000, wander},
		{"contended", 100, 1500, contended},
		{"large", 200, 4000, large},
		{"wide", 120, 3000, [](Gen &g) { huge(g, true); }, 300},
		{"huge", 6, 60, [](Gen &g) { huge(g, false); }, 300},
		{"race", 40, 600, race, 120, 60, true},
	}};
}
