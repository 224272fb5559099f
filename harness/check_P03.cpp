// P03: any history of calls on one contraction hierarchy query object answers like fresh objects.
#include "ch_common.hpp"
#include <map>
using namespace chc;

struct World {
	Graph G; ContractionHierarchy ch; mutable std::vector<U> D; WeightMode mode = w_small; Adj adj;
	void need(unsigned s) const { if (D[s].empty()) D[s] = ref_sssp(G, adj, {{s, 0}}); } // rows of large graphs are computed on demand
	void need(const Terminals &t) const { for (auto &x : t) need(x.first); }
};

static std::vector<World> draw_worlds(pbt::Gen &g, unsigned max_n) {
	if (max_n == 0) { // thousands of nodes
		std::vector<World> w(1 + g.below(2));
		for (auto &x : w) { x.ch = draw_wide_ch(g, x.G, 5000); x.D.resize(x.G.n); x.adj = build_adj(x.G); g.note() << " n=" << x.G.n << " m=" << x.G.m(); }
		return w;
	}
	unsigned k = 1 + g.below(3);
	std::vector<World> w(k);
	for (unsigned i = 0; i < k; ++i) {
		w[i].mode = draw_mode(g);
		if (i && g.chance(1, 2)) { // same node count, other arcs or weights
			w[i].G = w[0].G;
			for (auto &x : w[i].G.weight) x = draw_weight(g, w[i].mode);
			if (g.chance(1, 2) && w[i].G.m()) { unsigned c = g.below(w[i].G.m()); w[i].G.tail.resize(c); w[i].G.head.resize(c); w[i].G.weight.resize(c); }
		} else w[i].G = draw_graph(g, max_n, w[i].mode);
		w[i].ch = draw_ch(g, w[i].G);
		w[i].D = ref_all_pairs(w[i].G);
		g.note() << " world" << i << ": " << w[i].G.str();
	}
	return w;
}

struct Model {
	enum M { idle, run, tpin, trun, spin, srun } mode = idle;
	Terminals S, T; U pinned;
};

static void check_run(const World &w, ContractionHierarchyQuery &q, const Model &m, const std::string &what) {
	w.need(m.S); unsigned want = ref_distance(w.D, m.S, m.T);
	REQUIRE_EQ(q.get_distance(), want, what << " distance");
	check_path(w.G, w.G.weight, m.S, m.T, want, q.get_node_path(), q.get_arc_path(), q.get_used_source(), q.get_used_target(), what);
}

static void check_pinned(const World &w, ContractionHierarchyQuery &q, const Model &m, const std::string &what) {
	U want; if (m.mode == Model::trun) w.need(m.S); else for (auto p : m.pinned) w.need(p);
	for (auto p : m.pinned) want.push_back(m.mode == Model::trun ? ref_distance(w.D, m.S, {{p, 0}}) : ref_distance(w.D, {{p, 0}}, m.T));
	U got = m.mode == Model::trun ? q.get_distances_to_targets() : q.get_distances_to_sources();
	REQUIRE_EQ(got, want, what << " pinned distances");
	U used = m.mode == Model::trun ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources();
	REQUIRE_EQ(used.size(), want.size(), what << " number of used terminals");
	for (size_t i = 0; i < used.size(); ++i) {
		if (want[i] == INF) REQUIRE_EQ(used[i], INVALID, what << " used terminal of an unreachable pinned node");
		else {
			const Terminals &X = m.mode == Model::trun ? m.S : m.T;
			unsigned pen = min_penalty(X, used[i]);
			REQUIRE(pen != INF, what << " used terminal " << used[i] << " was never added");
			unsigned d = m.mode == Model::trun ? w.D[used[i]][m.pinned[i]] : w.D[m.pinned[i]][used[i]];
			REQUIRE_EQ((uint64_t)pen + d, (uint64_t)want[i], what << " used terminal realises the distance");
		}
	}
}

static void history(pbt::Gen &g, unsigned max_n, unsigned max_ops) {
	auto W = draw_worlds(g, max_n);
	unsigned cur = 0;
	ContractionHierarchyQuery q;
	if (g.chance(1, 2)) q = ContractionHierarchyQuery(W[0].ch); else q.reset(W[0].ch);
	Model m;
	unsigned ops = 1 + g.below(max_ops), runs = 0;
	for (unsigned i = 0; i < ops; ++i) {
		const World *w = &W[cur];
		std::string what = "op " + std::to_string(i);
		unsigned op = g.below(10);
		if (op == 0) { g.note() << "; reset"; q.reset(); m = Model(); }
		else if (op == 1) { cur = g.below(W.size()); g.note() << "; reset(world" << cur << ")"; q.reset(W[cur].ch); m = Model(); }
		else if (op == 2) { // copies are independent of the original
			g.note() << "; copy";
			ContractionHierarchyQuery c(q);
			if (m.mode == Model::run) check_run(*w, c, m, what + " (copy)");
			if (m.mode == Model::trun || m.mode == Model::srun) check_pinned(*w, c, m, what + " (copy)");
			if (g.chance(1, 2)) { c.reset(); q = c; m = Model(); }
			else { c.reset(); if (w->G.n) c.add_source(0).add_target(0).run(); }
		}
		else {
			// make the next legal step of the state machine
			unsigned n = w->G.n;
			switch (m.mode) {
			case Model::idle: {
				unsigned k = g.below(6);
				if (!m.S.empty() || !m.T.empty()) k = g.below(4);
				if (k <= 3) {
					if (m.S.empty() || (k == 0)) { Terminals t = draw_terminals(g, n, w->mode); add_all(q, t, {}); m.S.insert(m.S.end(), t.begin(), t.end()); g.note() << "; add_source" << show_terminals(t); }
					else if (m.T.empty() || k == 1) { Terminals t = draw_terminals(g, n, w->mode); add_all(q, {}, t); m.T.insert(m.T.end(), t.begin(), t.end()); g.note() << "; add_target" << show_terminals(t); }
					else { g.note() << "; run"; q.run(); m.mode = Model::run; ++runs; check_run(*w, q, m, what); }
				} else {
					unsigned c = g.below(6); m.pinned.clear();
					for (unsigned j = 0; j < c; ++j) m.pinned.push_back(g.below(n));
					g.note() << (k == 4 ? "; pin_targets" : "; pin_sources") << pbt::show(m.pinned);
					if (k == 4) { q.pin_targets(m.pinned); m.mode = Model::tpin; REQUIRE_EQ(q.get_pinned_target_count(), c, "pinned count"); }
					else { q.pin_sources(m.pinned); m.mode = Model::spin; REQUIRE_EQ(q.get_pinned_source_count(), c, "pinned count"); }
				}
				break;
			}
			case Model::run: check_run(*w, q, m, what); break;
			case Model::tpin:
				if (m.S.empty() || g.chance(1, 3)) { Terminals t = draw_terminals(g, n, w->mode); add_all(q, t, {}); m.S.insert(m.S.end(), t.begin(), t.end()); g.note() << "; add_source" << show_terminals(t); }
				else { g.note() << "; run_to_pinned_targets"; q.run_to_pinned_targets(); m.mode = Model::trun; ++runs; check_pinned(*w, q, m, what); }
				break;
			case Model::spin:
				if (m.T.empty() || g.chance(1, 3)) { Terminals t = draw_terminals(g, n, w->mode); add_all(q, {}, t); m.T.insert(m.T.end(), t.begin(), t.end()); g.note() << "; add_target" << show_terminals(t); }
				else { g.note() << "; run_to_pinned_sources"; q.run_to_pinned_sources(); m.mode = Model::srun; ++runs; check_pinned(*w, q, m, what); }
				break;
			case Model::trun:
				if (g.chance(1, 3)) check_pinned(*w, q, m, what);
				else { g.note() << "; reset_source"; q.reset_source(); m.S.clear(); m.mode = Model::tpin; }
				break;
			case Model::srun:
				if (g.chance(1, 3)) check_pinned(*w, q, m, what);
				else { g.note() << "; reset_target"; q.reset_target(); m.T.clear(); m.mode = Model::spin; }
				break;
			}
		}
	}
	g.nontrivial(runs >= 2);
	g.label(runs >= 5 ? "runs>=5" : runs >= 2 ? "runs>=2" : "runs<2");
}

// more resets than fit into a 16 bit counter
static void long_history(pbt::Gen &g) {
	WeightMode mode = w_small;
	Graph G = draw_graph(g, 16, mode);
	ContractionHierarchy ch = draw_ch(g, G);
	auto D = ref_all_pairs(G);
	g.note() << G.str();
	ContractionHierarchyQuery q(ch);
	// state left behind by early queries must not resurface after the counter wrapped
	uint64_t r = g.bits64(); unsigned kind = g.below(3), early = 1 + g.below(5);
	U pinned; for (unsigned i = 0; i < 3; ++i) pinned.push_back(g.below(G.n));
	unsigned round = 0;
	auto query = [&]() {
		unsigned s = pbt::splitmix(r) % G.n, t = pbt::splitmix(r) % G.n;
		if (kind == 0) {
			q.reset().add_source(s).add_target(t).run();
			REQUIRE_EQ(q.get_distance(), D[s][t], "distance " << s << "->" << t << " after " << round << " resets");
			check_path(G, G.weight, {{s, 0}}, {{t, 0}}, D[s][t], q.get_node_path(), q.get_arc_path(), q.get_used_source(), q.get_used_target(), "after many resets");
		} else if (kind == 1) {
			q.reset_source().add_source(s).run_to_pinned_targets();
			U d = q.get_distances_to_targets(), u = q.get_used_sources_to_targets();
			for (unsigned j = 0; j < 3; ++j) { REQUIRE_EQ(d[j], D[s][pinned[j]], "pinned distance after " << round << " resets"); REQUIRE_EQ(u[j], D[s][pinned[j]] == INF ? RoutingKit::invalid_id : s, "used source after " << round << " resets"); }
		} else {
			q.reset_target().add_target(t).run_to_pinned_sources();
			U d = q.get_distances_to_sources(), u = q.get_used_targets_to_sources();
			for (unsigned j = 0; j < 3; ++j) { REQUIRE_EQ(d[j], D[pinned[j]][t], "pinned distance after " << round << " resets"); REQUIRE_EQ(u[j], D[pinned[j]][t] == INF ? RoutingKit::invalid_id : t, "used target after " << round << " resets"); }
		}
		++round;
	};
	if (kind == 1) q.reset().pin_targets(pinned);
	if (kind == 2) q.reset().pin_sources(pinned);
	for (unsigned i = 0; i < early; ++i) query();
	// idle (or busy) until the counter has nearly the value it had during the early queries; then answer queries again
	unsigned cycles = 1 + g.below(2), period = g.chance(1, 2) ? 65535 : 65536; if (g.chance(1, 10)) period = 256;
	unsigned idle = cycles * period - early - g.below(4) + g.below(4); bool busy = g.chance(1, 8);
	for (unsigned i = 0; i < idle; ++i) { if (busy && pbt::splitmix(r) % 8 == 0) query(); else { if (kind == 0) q.reset(); else if (kind == 1) q.reset_source(); else q.reset_target(); ++round; } }
	for (unsigned i = 0; i < early + 8; ++i) query();
	g.nontrivial();
}

// queries with very many and with few terminals on one object
static void many(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = g.chance(1, 3) ? (G = draw_graph(g, 300, w_medium), draw_ch(g, G)) : draw_wide_ch(g, G, 4000); if (G.n < 300) g.note() << "n=" << G.n << " m=" << G.m();
	ContractionHierarchyQuery q(ch);
	unsigned finite = many_terminals(g, G, q, many_path | many_pinned, 16, [&](ContractionHierarchyQuery &q, bool targets, const Terminals &X, const U &p, const U &d) {
		U u = targets ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources(); REQUIRE_EQ(u.size(), p.size(), "number of used terminals"); std::map<unsigned, U> row; static Adj adj; adj = build_adj(G, !targets);
		for (unsigned j = 0; j < p.size(); ++j) {
			if (d[p[j]] == INF) { REQUIRE_EQ(u[j], INVALID, "used terminal of an unreachable pinned node"); continue; }
			unsigned pen = min_penalty(X, u[j]); REQUIRE(pen != INF, "used terminal " << u[j] << " was never added");
			if (!row.count(u[j])) { if (row.size() > 20) continue; row[u[j]] = ref_sssp(G, adj, {{u[j], 0}}, !targets); }
			REQUIRE_EQ((uint64_t)pen + row[u[j]][p[j]], (uint64_t)d[p[j]], "used terminal " << u[j] << " of pinned entry " << j << " realises the distance");
		}
	});
	g.nontrivial(finite >= 3);
}

pbt::Check pbt::make_check() {
	return Check{"P03", "the history contains at least two completed queries on the same object (long histories: more than 65536 resets)", {
		{"history_short", 200000, 4000000, [](Gen &g) { history(g, 8, 20); }},
		{"history_long", 15000, 300000, [](Gen &g) { history(g, 25, 120); }},
		{"medium", 400, 10000, [](Gen &g) { history(g, 150, 60); }},
		{"wide", 80, 2500, [](Gen &g) { history(g, 0, 60); }, 300},
		{"long_history", 600, 20000, long_history},
		{"many", 100, 2500, many, 300},
	}};
}
