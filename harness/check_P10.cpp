// P10: Dijkstra's algorithm: settling order, distances, paths, early termination, reuse, time-dependent FIFO weights.
#include "graphs.hpp"
#include <routingkit/dijkstra.h>
#include <routingkit/sort.h>
using namespace gr;
using RoutingKit::Dijkstra;
using RoutingKit::ScalarGetWeight;

// arcs sorted by tail, as an adjacency array
struct World { Graph G; U first_out; WeightMode mode; };

static void sort_by_tail(World &w) {
	Adj a = build_adj(w.G);
	Graph s; s.n = w.G.n;
	for (auto x : a.arc) s.add(w.G.tail[x], w.G.head[x], w.G.weight[x]);
	w.G = s; w.first_out = a.first;
}
static World draw_world(pbt::Gen &g, unsigned max_n) {
	World w; w.mode = draw_mode(g);
	w.G = draw_graph(g, max_n, w.mode, true, 20000);
	sort_by_tail(w);
	return w;
}

// sources: distinct nodes with departure times
static Terminals draw_sources(pbt::Gen &g, const World &w) {
	Terminals s = draw_terminals(g, w.G.n, w.mode), r;
	for (auto &x : s) { bool dup = false; for (auto &y : r) dup |= y.first == x.first; if (!dup) r.push_back(x); }
	return r;
}

// weight of arc a when departing at time t; satisfies FIFO (arriving earlier is never worse)
struct TimeDependent {
	const U *base; unsigned period;
	unsigned operator()(unsigned a, unsigned t) const {
		unsigned w = (*base)[a];
		if (period == 0 || w >= INF) return w;
		unsigned wait = (period - (unsigned)(((uint64_t)t + a) % period)) % period;
		return (uint64_t)w + wait >= INF ? INF : w + wait;
	}
};

template <class F> static U reference(const World &w, const Terminals &S, const F &f) {
	U dist(w.G.n, INF);
	typedef std::pair<uint64_t, unsigned> E;
	std::priority_queue<E, std::vector<E>, std::greater<E>> q;
	for (auto &s : S) if (s.second < dist[s.first]) { dist[s.first] = s.second; q.push(E(s.second, s.first)); }
	while (!q.empty()) {
		E e = q.top(); q.pop();
		if (e.first != dist[e.second]) continue;
		for (unsigned a = w.first_out[e.second]; a < w.first_out[e.second + 1]; ++a) {
			uint64_t x = f(a, (unsigned)e.first); if (x >= INF) continue;
			uint64_t d = e.first + x; if (d >= INF) continue;
			if (d < dist[w.G.head[a]]) { dist[w.G.head[a]] = d; q.push(E(d, w.G.head[a])); }
		}
	}
	return dist;
}

template <class F> static unsigned run(pbt::Gen &g, const World &w, Dijkstra &d, const F &f, bool thorough_paths) {
	Terminals S = draw_sources(g, w);
	for (auto &s : S) { if (s.second == 0 && g.chance(1, 2)) d.add_source(s.first); else d.add_source(s.first, s.second); }
	U ref = reference(w, S, f);
	unsigned limit = g.chance(1, 3) ? g.below(w.G.n + 1) : w.G.n + 1;
	g.note() << " from {"; for (auto &s : S) g.note() << s.first << "+" << s.second << " "; g.note() << "} limit " << limit;
	std::vector<char> settled(w.G.n, 0);
	unsigned last = 0, count = 0;
	while (!d.is_finished() && count < limit) {
		auto r = d.settle(f);
		REQUIRE(r.node < w.G.n, "settled an invalid node");
		REQUIRE(!settled[r.node], "node " << r.node << " settled twice");
		REQUIRE(r.distance >= last, "settled at distance " << r.distance << " after " << last);
		REQUIRE_EQ(r.distance, ref[r.node], "distance when settling node " << r.node);
		settled[r.node] = 1; last = r.distance; ++count;
	}
	bool complete = d.is_finished();
	unsigned reach = 0;
	for (unsigned x = 0; x < w.G.n; ++x) {
		REQUIRE_EQ(d.was_node_reached(x), (bool)settled[x], "was_node_reached of node " << x);
		if (complete) REQUIRE_EQ(d.was_node_reached(x), ref[x] != INF, "reachability of node " << x);
		else if (!settled[x] && ref[x] != INF) REQUIRE(ref[x] >= last, "node " << x << " at distance " << ref[x] << " was skipped although distance " << last << " was settled");
		REQUIRE_EQ(d.get_distance_to(x), settled[x] ? ref[x] : INF, "distance to node " << x);
		if (!thorough_paths && g.below(8)) continue;
		U np = d.get_node_path_to(x), ap = d.get_arc_path_to(x);
		if (!settled[x]) { REQUIRE(np.empty() && ap.empty(), "path to the unreached node " << x); continue; }
		++reach;
		REQUIRE(!np.empty() && np.size() == ap.size() + 1, "path sizes for node " << x);
		REQUIRE_EQ(np.back(), x, "last node of the path");
		uint64_t t = INF; for (auto &s : S) if (s.first == np.front()) t = s.second;
		REQUIRE(t != INF, "path to " << x << " starts at " << np.front() << ", which is not a source");
		for (size_t i = 0; i < ap.size(); ++i) {
			REQUIRE(ap[i] < w.G.m(), "invalid arc on path");
			REQUIRE_EQ(w.G.tail[ap[i]], np[i], "tail of path arc"); REQUIRE_EQ(w.G.head[ap[i]], np[i + 1], "head of path arc");
			t += f(ap[i], (unsigned)t);
		}
		REQUIRE_EQ(t, (uint64_t)ref[x], "length of the path to node " << x);
	}
	return reach;
}

static void history(pbt::Gen &g, unsigned max_n, unsigned rounds) {
	std::vector<World> W; unsigned k = 1 + g.below(3);
	for (unsigned i = 0; i < k; ++i) { W.push_back(draw_world(g, max_n)); g.note() << " graph" << i << ": " << W[i].G.str(); }
	unsigned cur = 0, reach = 0;
	Dijkstra d;
	if (g.chance(1, 2)) d = Dijkstra(W[0].first_out, W[0].G.tail, W[0].G.head); else d.reset(W[0].first_out, W[0].G.tail, W[0].G.head);
	for (unsigned i = 0; i < rounds; ++i) {
		World &w = W[cur];
		g.note() << "; run on graph" << cur;
		if (g.chance(1, 3)) reach = std::max(reach, run(g, w, d, TimeDependent{&w.G.weight, (unsigned)(1 + g.below(20))}, w.G.n <= 20));
		else reach = std::max(reach, run(g, w, d, ScalarGetWeight(w.G.weight), w.G.n <= 20));
		switch (g.below(4)) {
		case 0: cur = g.below(W.size()); d.reset(W[cur].first_out, W[cur].G.tail, W[cur].G.head); break;
		case 1: { // the graph is replaced in place
			World n = draw_world(g, max_n); W[cur] = n; g.note() << "; graph" << cur << " becomes " << n.G.str();
			d.reset(W[cur].first_out, W[cur].G.tail, W[cur].G.head); break;
		}
		default: d.reset();
		}
	}
	g.nontrivial(reach >= 3);
	g.label(reach >= 10 ? "reached>=10" : reach >= 3 ? "reached>=3" : "reached<3");
}

// more nodes than fit into 16 bits
static void huge(pbt::Gen &g) {
	World w; w.mode = w_small; w.G = draw_huge_graph(g); sort_by_tail(w); Dijkstra d(w.first_out, w.G.tail, w.G.head); unsigned reach = 0;
	for (unsigned i = 0; i < 2; ++i) {
		if (i) d.reset();
		unsigned s = i ? w.G.n - 1 - g.below(3) : g.below(3); d.add_source(s); U ref = reference(w, {{s, 0}}, ScalarGetWeight(w.G.weight)); std::vector<char> st(w.G.n, 0); unsigned last = 0;
		while (!d.is_finished()) { auto r = d.settle(ScalarGetWeight(w.G.weight)); REQUIRE(r.node < w.G.n && !st[r.node], "settled an invalid node or a node twice"); st[r.node] = 1; REQUIRE(r.distance >= last, "settled at distance " << r.distance << " after " << last); last = r.distance; REQUIRE_EQ(r.distance, ref[r.node], "distance when settling node " << r.node); }
		for (unsigned x = 0; x < w.G.n; ++x) { REQUIRE_EQ(d.was_node_reached(x), ref[x] != INF, "reachability of node " << x); REQUIRE_EQ(d.get_distance_to(x), ref[x], "distance to node " << x); if (ref[x] != INF) ++reach; }
		for (unsigned j = 0; j < 4; ++j) { unsigned x = j ? g.below(w.G.n) : i ? 0 : w.G.n - 1; check_path(w.G, w.G.weight, {{s, 0}}, {{x, 0}}, ref[x], d.get_node_path_to(x), d.get_arc_path_to(x), ref[x] == INF ? INVALID : s, ref[x] == INF ? INVALID : x, "path to " + std::to_string(x)); }
	}
	g.nontrivial(reach > 3);
}

// more than 65536 resets of one object
static void long_history(pbt::Gen &g) {
	World w = draw_world(g, 12);
	g.note() << w.G.str();
	Dijkstra d(w.first_out, w.G.tail, w.G.head);
	std::vector<U> D = ref_all_pairs(w.G);
	uint64_t r = g.bits64();
	unsigned round = 0, early = 1 + g.below(5);
	auto query = [&]() {
		if (round) d.reset();
		unsigned s = pbt::splitmix(r) % w.G.n, lim = pbt::splitmix(r) % (w.G.n + 1);
		d.add_source(s);
		std::vector<char> st(w.G.n, 0);
		for (unsigned k = 0; k < lim && !d.is_finished(); ++k) { auto x = d.settle(ScalarGetWeight(w.G.weight)); st[x.node] = 1; }
		for (unsigned x = 0; x < w.G.n; ++x) { REQUIRE_EQ(d.was_node_reached(x), (bool)st[x], "reached flag of " << x << " after " << round << " resets"); REQUIRE_EQ(d.get_distance_to(x), st[x] ? D[s][x] : INF, "distance after " << round << " resets"); }
		++round;
	};
	for (unsigned i = 0; i < early; ++i) query();
	// idle until the reset counter has nearly the value it had during the early queries, then search again
	unsigned cycles = 1 + g.below(2), period = g.chance(1, 2) ? 65535 : 65536; if (g.chance(1, 10)) period = 256;
	unsigned idle = cycles * period - early - g.below(4) + g.below(4); bool busy = g.chance(1, 8);
	for (unsigned i = 0; i < idle; ++i) { if (busy && pbt::splitmix(r) % 8 == 0) query(); else { d.reset(); ++round; } }
	for (unsigned i = 0; i < early + 8; ++i) query();
	g.nontrivial(w.G.n >= 2);
}

pbt::Check pbt::make_check() {
	return Check{"P10", "at least three nodes reached in one search (long histories: at least two nodes)", {
		{"small", 150000, 3000000, [](Gen &g) { history(g, 8, 4); }},
		{"medium", 15000, 300000, [](Gen &g) { history(g, 80, 5); }},
		{"large", 1000, 20000, [](Gen &g) { history(g, 1500, 3); }},
		{"huge", 20, 300, huge, 300},
		{"long_history", 600, 10000, long_history},
	}};
}
