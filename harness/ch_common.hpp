#pragma once
#include "graphs.hpp"
#include <routingkit/contraction_hierarchy.h>
#include <numeric>

namespace chc {
using namespace gr;
using RoutingKit::ContractionHierarchy;
using RoutingKit::ContractionHierarchyQuery;

inline U invert(const U &p) { U r(p.size()); for (unsigned i = 0; i < p.size(); ++i) r[p[i]] = i; return r; }

static bool check_given_order = false; // set by P01
// builds a hierarchy by one of the public construction functions
inline ContractionHierarchy draw_ch(pbt::Gen &g, const Graph &G, std::string *how = nullptr) {
	static const std::vector<unsigned> pops = {500, 500, 0, 1, 2, 5, 20};
	unsigned pop = g.pick(pops);
	std::function<void(std::string)> log;
	if (g.chance(1, 6) && G.n > 0) log = [](std::string) {};
	unsigned k = g.below(4);
	std::string h;
	ContractionHierarchy ch; U given;
	if (k <= 1) { h = "build"; ch = ContractionHierarchy::build(G.n, G.tail, G.head, G.weight, log, pop); }
	else {
		U o = draw_order(g, G.n); given = o;
		if (k == 2) { h = "build_given_order" + pbt::show(o); ch = ContractionHierarchy::build_given_order(o, G.tail, G.head, G.weight, log, pop); }
		else { h = "build_given_rank" + pbt::show(o); ch = ContractionHierarchy::build_given_rank(o, G.tail, G.head, G.weight, log, pop); }
	}
	g.label(k <= 1 ? "built:heuristic order" : "built:given order");
	if (k >= 2 && check_given_order) { REQUIRE_EQ(k == 2 ? ch.order : ch.rank, given, "the order of the hierarchy against the given one"); REQUIRE_EQ(ch.rank, invert(ch.order), "rank against order"); }
	h += " max_pop=" + std::to_string(pop);
	if (how) *how = h;
	return ch;
}

// a graph with hundreds to thousands of nodes and a hierarchy for it
inline ContractionHierarchy draw_wide_ch(pbt::Gen &g, Graph &G, unsigned hi = 9000) {
	U order; bool given; G = draw_wide_graph(g, &order, &given, 300, hi);
	static const std::vector<unsigned> pops = {0, 1, 5, 20};
	if (given || g.chance(1, 4)) {
		unsigned pop = g.pick(pops); g.label("built:given order"); g.note() << " given order max_pop=" << pop;
		return g.chance(1, 2) ? ContractionHierarchy::build_given_order(order, G.tail, G.head, G.weight, {}, pop) : ContractionHierarchy::build_given_rank(invert(order), G.tail, G.head, G.weight, {}, pop);
	}
	g.label("built:heuristic order"); g.note() << " build";
	return ContractionHierarchy::build(G.n, G.tail, G.head, G.weight);
}

inline std::string show_terminals(const Terminals &t) {
	std::ostringstream o; o << "{";
	for (size_t i = 0; i < t.size(); ++i) { if (i) o << ","; if (i == 40) { o << "... " << t.size() << " terminals"; break; } o << t[i].first; if (t[i].second) o << "+" << t[i].second; }
	o << "}"; return o.str();
}

template <class Q> void add_all(Q &q, const Terminals &S, const Terminals &T) {
	for (auto &s : S) { if (s.second) q.add_source(s.first, s.second); else q.add_source(s.first); }
	for (auto &t : T) { if (t.second) q.add_target(t.first, t.second); else q.add_target(t.first); }
}

// up to thousands of terminals from one seed, with or without penalties and repetitions
inline Terminals draw_many_terminals(pbt::Gen &g, unsigned n, unsigned max_penalty) {
	Terminals r; uint64_t s = g.bits64(); unsigned k = 1 + g.below(g.chance(1, 2) ? std::min(n, 60u) : std::min(2 * n, 3000u)); bool pen = g.chance(2, 3), distinct = g.chance(1, 2) && k <= n;
	unsigned start = g.below(n), step = 1; if (distinct) { step = 1 + pbt::splitmix(s) % n; while (std::gcd(step, n) != 1) step = step % n + 1; }
	for (unsigned i = 0; i < k; ++i) r.push_back({distinct ? (unsigned)((start + (uint64_t)i * step) % n) : (unsigned)(pbt::splitmix(s) % n), pen ? (unsigned)(pbt::splitmix(s) % (max_penalty + 1)) : 0u});
	if (pen && g.chance(1, 2)) std::sort(r.begin(), r.end(), [](std::pair<unsigned, unsigned> a, std::pair<unsigned, unsigned> b) { return a.second > b.second; }); // the best is added last
	g.note() << " " << k << " terminals seed=" << s; return r;
}

enum { many_distance = 1, many_path = 2, many_pinned = 4 };
// A history on one query object in which some queries have very many sources, targets or pinned nodes.
template <class Q, class Used> unsigned many_terminals(pbt::Gen &g, const Graph &G, Q &q, unsigned what, unsigned rounds, Used used) {
	Adj fwd = build_adj(G), bwd = build_adj(G, true); unsigned finite = 0, maxw = 0; for (auto x : G.weight) if (x != INF) maxw = std::max(maxw, x); maxw = std::min(20 * maxw + 10, 1000000u);
	auto draw = [&](bool many) { Terminals t; if (many) return draw_many_terminals(g, G.n, maxw); t.push_back({(unsigned)g.below(G.n), 0}); return t; };
	for (unsigned i = 0; i < rounds; ++i) {
		std::string where = "round " + std::to_string(i); bool pinned = (what & many_pinned) && (!(what & ~many_pinned) || g.chance(1, 2));
		if (!pinned) {
			Terminals S = draw(g.chance(3, 4)), T = draw(g.chance(3, 4)); q.reset(); add_all(q, S, T); q.run(); U d = ref_sssp(G, fwd, S); uint64_t want = INF; for (auto &t : T) want = std::min(want, (uint64_t)d[t.first] + t.second);
			REQUIRE_EQ(q.get_distance(), (unsigned)want, where << ": distance between " << S.size() << " sources and " << T.size() << " targets");
			if (what & many_path) check_path(G, G.weight, S, T, want, q.get_node_path(), q.get_arc_path(), q.get_used_source(), q.get_used_target(), where);
			else { unsigned s = q.get_used_source(), t = q.get_used_target(); if (want == INF) { REQUIRE_EQ(s, INVALID, where << ": used source"); REQUIRE_EQ(t, INVALID, where << ": used target"); } else REQUIRE_EQ((uint64_t)min_penalty(S, s) + ref_sssp(G, fwd, {{s, 0}})[t] + min_penalty(T, t), want, where << ": used source and target realise the distance"); }
			if (want != INF && want) ++finite;
		} else {
			bool targets = g.chance(1, 2); U p; for (auto &x : draw(g.chance(3, 4))) p.push_back(x.first); unsigned runs = 1 + g.below(4); if (g.chance(1, 10)) runs = 700; q.reset(); if (targets) q.pin_targets(p); else q.pin_sources(p);
			if (g.chance(1, 10)) runs = 1; uint64_t s = g.bits64();
			for (unsigned k = 0; k < runs; ++k) {
				Terminals X; if (runs < 10) X = draw(g.chance(3, 4)); else X.push_back({(unsigned)(pbt::splitmix(s) % G.n), 0}); if (k) { if (targets) q.reset_source(); else q.reset_target(); }
				if (targets) { add_all(q, X, {}); q.run_to_pinned_targets(); } else { add_all(q, {}, X); q.run_to_pinned_sources(); }
				U got = targets ? q.get_distances_to_targets() : q.get_distances_to_sources(); REQUIRE_EQ(got.size(), p.size(), where << ": number of distances");
				if (runs > 10 && k > 5 && k % 16 && k + 40 < runs && G.n > 500) continue;
				U d = targets ? ref_sssp(G, fwd, X) : ref_sssp(G, bwd, X, true); for (unsigned j = 0; j < p.size(); ++j) REQUIRE_EQ(got[j], d[p[j]], where << " run " << k << ": distance of pinned entry " << j << " = " << p[j] << " of " << p.size() << " with " << X.size() << " terminals");
				used(q, targets, X, p, d); for (auto x : got) if (x != INF && x) { ++finite; break; }
			}
		}
	}
	return finite;
}
} // namespace chc
