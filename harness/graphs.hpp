// Graph generators and independent reference algorithms.
#pragma once
#include "pbt.hpp"
#include <functional>
#include <queue>
#include <numeric>

namespace gr {
using std::vector;
typedef vector<unsigned> U;

static const unsigned INF = 2147483647u;   // documented infinite weight
static const unsigned INVALID = 4294967295u; // documented invalid id

struct Graph {
	unsigned n = 0;
	U tail, head, weight;
	unsigned m() const { return tail.size(); }
	void add(unsigned t, unsigned h, unsigned w) { tail.push_back(t); head.push_back(h); weight.push_back(w); }
	std::string str() const {
		std::ostringstream o; o << "n=" << n << " arcs=[";
		for (unsigned a = 0; a < m(); ++a) { if (a) o << " "; if (a > 60) { o << "... " << m() << " arcs"; break; } o << tail[a] << "->" << head[a] << ":" << weight[a]; }
		o << "]"; return o.str();
	}
};

enum WeightMode { w_small, w_unit, w_zero_one, w_zero, w_medium, w_large, w_saturating, w_with_inf, w_pow2, w_mode_count };

inline unsigned draw_weight(pbt::Gen &g, WeightMode m) {
	switch (m) {
	case w_unit: return 1;
	case w_zero_one: return g.below(2);
	case w_zero: return 0;
	case w_small: return g.range(1, 9);
	case w_medium: return g.range(0, 1000);
	case w_large: return g.range(0, 1000000);
	// sums of a few arcs reach or exceed the infinite weight
	case w_saturating: return g.chance(1, 3) ? g.range(0, 5) : (g.chance(1, 2) ? INF - 1 - g.below(4) : g.range(INF / 8, INF - 1));
	case w_with_inf: return g.chance(1, 4) ? INF : g.range(0, 20);
	case w_pow2: return 1u << g.below(24);
	default: return 1;
	}
}

inline const char *mode_name(WeightMode m) {
	static const char *n[] = {"small", "unit", "zero_one", "zero", "medium", "large", "saturating", "with_inf", "pow2"};
	return n[m];
}

inline WeightMode draw_mode(pbt::Gen &g) {
	static const vector<WeightMode> v = {w_small, w_small, w_unit, w_zero_one, w_zero_one, w_zero, w_medium, w_medium, w_large, w_saturating, w_with_inf, w_pow2};
	return g.pick(v);
}

// A permutation drawn choice by choice (shrinks to the identity)
inline U draw_permutation(pbt::Gen &g, unsigned n) {
	U p(n); std::iota(p.begin(), p.end(), 0u);
	for (unsigned i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + g.below(n - i)]);
	return p;
}

// Topologies: 0 random sparse, 1 grid, 2 path, 3 cycle, 4 star, 5 complete, 6 tree, 7 DAG, 8 several components, 9 ladder/road, 10 random dense
inline Graph draw_graph(pbt::Gen &g, unsigned max_n, WeightMode mode, bool shuffle = true, unsigned max_arcs = 4000) {
	Graph r;
	unsigned kind = g.chance(1, 40) ? 11 : g.below(11);
	unsigned n = 1 + (unsigned)g.small(max_n - 1);
	if (g.chance(1, 2)) n = 1 + (unsigned)g.below(max_n);
	if (kind == 5 || kind == 10) n = std::min(n, 24u);
	if (kind == 11) n = std::min(n, 6u);
	r.n = n;
	auto w = [&] { return draw_weight(g, mode); };
	auto both = [&](unsigned a, unsigned b) { // one-way or two-way with independent weights
		unsigned k = g.below(4);
		if (k != 3) r.add(a, b, w());
		if (k != 2) r.add(b, a, w());
	};
	switch (kind) {
	case 0: {
		unsigned m = g.below(4 * (uint64_t)n + 1);
		for (unsigned i = 0; i < m; ++i) { unsigned a = g.below(n), b = g.below(n); r.add(a, b, w()); }
		break;
	}
	case 1: {
		unsigned wd = 1; while (wd * wd < n) ++wd;
		for (unsigned i = 0; i < n; ++i) {
			if ((i + 1) % wd && i + 1 < n && !g.chance(1, 8)) both(i, i + 1);
			if (i + wd < n && !g.chance(1, 8)) both(i, i + wd);
		}
		break;
	}
	case 2: for (unsigned i = 0; i + 1 < n; ++i) both(i, i + 1); break;
	case 3: for (unsigned i = 0; i < n; ++i) if (n > 1) both(i, (i + 1) % n); break;
	case 4: for (unsigned i = 1; i < n; ++i) both(0, i); break;
	case 5: for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (i != j && !g.chance(1, 10)) r.add(i, j, w()); break;
	case 6: for (unsigned i = 1; i < n; ++i) both(g.below(i), i); break;
	case 7: {
		unsigned m = g.below(3 * (uint64_t)n + 1);
		for (unsigned i = 0; i < m && n > 1; ++i) { unsigned a = g.below(n - 1); unsigned b = a + 1 + g.below(n - 1 - a); r.add(a, b, w()); }
		break;
	}
	case 8: {
		unsigned parts = 2 + g.below(4);
		unsigned m = g.below(3 * (uint64_t)n + 1);
		for (unsigned i = 0; i < m; ++i) { unsigned a = g.below(n), b = g.below(n); if (a % parts == b % parts) r.add(a, b, w()); }
		break;
	}
	case 9: { // two parallel roads with occasional connections and long bypasses
		unsigned h = n / 2;
		for (unsigned i = 0; i + 1 < h; ++i) { r.add(i, i + 1, w()); r.add(h + i + 1, h + i, w()); }
		for (unsigned i = 0; i < h; ++i) if (g.chance(1, 3)) both(i, h + i);
		for (unsigned i = 0; i < h / 4; ++i) { unsigned a = g.below(n), b = g.below(n); r.add(a, b, w()); }
		break;
	}
	case 10: {
		unsigned m = g.below((uint64_t)n * n + 1);
		for (unsigned i = 0; i < m; ++i) { unsigned a = g.below(n), b = g.below(n); r.add(a, b, w()); }
		break;
	}
	case 11: { // very many parallel arcs, mostly in one direction, the cheapest anywhere in the list
		unsigned bundles = 1 + g.below(4);
		for (unsigned b = 0; b < bundles; ++b) {
			unsigned x = g.below(n), y = g.below(n), k = 1 + g.below(g.chance(1, 3) ? 400 : 70), back = g.below(3); uint64_t s = g.bits64(); unsigned cheap = w(), dear = w(); if (dear < cheap) std::swap(dear, cheap);
			unsigned at = pbt::splitmix(s) % (k + 1); for (unsigned i = 0; i < k; ++i) { bool rev = back && pbt::splitmix(s) % (back * 4) == 0; r.add(rev ? y : x, rev ? x : y, i == at ? cheap : dear); }
		}
		break;
	}
	}
	// parallel arcs, loops
	if (g.chance(1, 3)) {
		unsigned k = g.below(n + 1);
		for (unsigned i = 0; i < k; ++i) {
			if (r.m() && g.chance(3, 4)) { unsigned a = g.below(r.m()); if (g.chance(1, 2)) r.add(r.tail[a], r.head[a], w()); else r.add(r.head[a], r.tail[a], w()); }
			else { unsigned x = g.below(n); r.add(x, x, w()); }
		}
	}
	if (r.m() > max_arcs) { r.tail.resize(max_arcs); r.head.resize(max_arcs); r.weight.resize(max_arcs); }
	if (shuffle && g.chance(1, 2)) {
		U np = draw_permutation(g, n);
		for (auto &x : r.tail) x = np[x];
		for (auto &x : r.head) x = np[x];
		U ap = draw_permutation(g, r.m());
		Graph s; s.n = n; s.tail.resize(r.m()); s.head.resize(r.m()); s.weight.resize(r.m());
		for (unsigned i = 0; i < r.m(); ++i) { s.tail[ap[i]] = r.tail[i]; s.head[ap[i]] = r.head[i]; s.weight[ap[i]] = r.weight[i]; }
		r = s;
	}
	static const char *names[] = {"sparse", "grid", "path", "cycle", "star", "complete", "tree", "dag", "components", "road", "dense", "bundles"};
	g.label(std::string("topology:") + names[kind]);
	return r;
}

// a node order in which separators of the index line (or grid rows) come last: recursive bisection; good enough to keep hierarchies small
inline U bisection_order(unsigned n, unsigned cols) {
	U o; o.reserve(n); unsigned rows = (n + cols - 1) / cols; std::function<void(unsigned, unsigned, unsigned, unsigned)> rec = [&](unsigned r0, unsigned r1, unsigned c0, unsigned c1) {
		if (r0 >= r1 || c0 >= c1) return; if (r1 - r0 == 1 && c1 - c0 == 1) { unsigned v = r0 * cols + c0; if (v < n) o.push_back(v); return; }
		if (r1 - r0 >= c1 - c0) { unsigned m = (r0 + r1) / 2; rec(r0, m, c0, c1); rec(m + 1, r1, c0, c1); for (unsigned c = c0; c < c1; ++c) if (m * cols + c < n) o.push_back(m * cols + c); }
		else { unsigned m = (c0 + c1) / 2; rec(r0, r1, c0, m); rec(r0, r1, m + 1, c1); for (unsigned r = r0; r < r1; ++r) if (r * cols + m < n) o.push_back(r * cols + m); } };
	rec(0, rows, 0, cols); return o;
}
// More than 65536 nodes (and often arcs per path): grid, long path, star or random tree plus extra arcs. One random seed, so a case stays small.
inline Graph draw_huge_graph(pbt::Gen &g, U *order = nullptr) {
	Graph r; unsigned kind = g.below(4), n = 65537 + g.below(8000); uint64_t s = g.bits64(); unsigned maxw = g.pick(U{1, 9, 1000}); auto rnd = [&](unsigned k) { return (unsigned)(pbt::splitmix(s) % k); }; auto w = [&] { return rnd(maxw) + (rnd(8) ? 1 : 0); };
	auto both = [&](unsigned a, unsigned b) { unsigned k = rnd(8); if (k != 0) r.add(a, b, w()); if (k != 1) r.add(b, a, w()); }; unsigned cols = kind == 0 ? 200 + g.below(120) : 1; r.n = n;
	switch (kind) {
	case 0: for (unsigned i = 0; i < n; ++i) { if ((i + 1) % cols && i + 1 < n && rnd(10)) both(i, i + 1); if (i + cols < n && rnd(10)) both(i, i + cols); } break;
	case 1: for (unsigned i = 0; i + 1 < n; ++i) { if (rnd(20000)) r.add(i, i + 1, w()); r.add(i + 1, i, w()); } break;
	case 2: for (unsigned i = 1; i < n; ++i) both(0, i); break;
	default: for (unsigned i = 1; i < n; ++i) both(i - 1 - rnd(std::min(i, 50u)), i); break;
	}
	if (order) { if (kind < 2) *order = bisection_order(n, cols); else { order->resize(n); for (unsigned i = 0; i < n; ++i) (*order)[i] = n - 1 - i; } } static const char *names[] = {"huge grid", "huge path", "huge star", "huge tree"}; g.label(names[kind]); g.note() << names[kind] << " n=" << n << " m=" << r.m() << " seed=" << s; return r;
}

// Hundreds to thousands of nodes from one random seed: grid (0), path (1), tree with extra arcs (2), roads with bypasses (3), or a few hubs that share very many neighbours (4).
// For the hubs only hierarchies with the given order are affordable.
inline Graph draw_wide_graph(pbt::Gen &g, U *order, bool *given_order_only, unsigned lo = 300, unsigned hi = 9000) {
	Graph r; unsigned kind = g.below(5); if (kind == 4) hi = std::min(hi, lo + 1500); unsigned n = lo + g.below(hi - lo); uint64_t s = g.bits64(); unsigned maxw = g.pick(U{1, 9, 1000, 100000}); auto rnd = [&](uint64_t k) { return (unsigned)(pbt::splitmix(s) % k); }; auto w = [&] { return rnd(maxw) + (rnd(8) ? 1 : 0); };
	auto both = [&](unsigned a, unsigned b) { unsigned k = rnd(8); if (k != 0) r.add(a, b, w()); if (k != 1) r.add(b, a, w()); }; r.n = n; U o; unsigned cols = 1;
	switch (kind) {
	case 0: cols = 1; while (cols * cols < n) ++cols; for (unsigned i = 0; i < n; ++i) { if ((i + 1) % cols && i + 1 < n && rnd(10)) both(i, i + 1); if (i + cols < n && rnd(10)) both(i, i + cols); } o = bisection_order(n, cols); break;
	case 1: for (unsigned i = 0; i + 1 < n; ++i) { if (rnd(500)) r.add(i, i + 1, w()); if (rnd(500)) r.add(i + 1, i, w()); } o = bisection_order(n, 1); break;
	case 2: for (unsigned i = 1; i < n; ++i) both(i - 1 - rnd(std::min(i, 50u)), i); for (unsigned i = 0; i < 20; ++i) both(rnd(n), rnd(n)); for (unsigned i = n; i-- > 0;) o.push_back(i); break;
	case 3: { cols = 2 + rnd(6); for (unsigned i = 0; i < n; ++i) { if ((i + 1) % cols && i + 1 < n && rnd(3)) both(i, i + 1); if (i + cols < n && rnd(20)) both(i, i + cols); if (rnd(40) == 0) { unsigned j = std::min<uint64_t>(n - 1, (uint64_t)i + rnd(20 * cols)); r.add(i, j, w() * 2); } } o = bisection_order(n, cols); break; }
	default: { unsigned k = 2 + rnd(5); bool front = rnd(2); unsigned h0 = front ? 0 : n - k, l0 = front ? k : 0; std::vector<unsigned> arcs;
		if (rnd(2)) for (unsigned a = 0; a < k; ++a) for (unsigned b = 0; b < k; ++b) if (a != b && rnd(2)) r.add(h0 + a, h0 + b, 3 * maxw + 1 - rnd(maxw));
		for (unsigned i = 0; i + k < n; ++i) for (unsigned a = 0; a < k; ++a) if (rnd(3)) both(l0 + i, h0 + a);
		for (unsigned i = 0; i + k < n; ++i) o.push_back(l0 + i); for (unsigned i = o.size(); i > 1; --i) std::swap(o[i - 1], o[rnd(i)]); for (unsigned a = 0; a < k; ++a) o.push_back(h0 + a); break; }
	}
	if (order) *order = o; if (given_order_only) *given_order_only = kind == 4; static const char *names[] = {"wide grid", "wide path", "wide tree", "wide road", "wide hubs"}; g.label(names[kind]); g.note() << names[kind] << " n=" << n << " m=" << r.m() << " seed=" << s; return r;
}

// ---------- reference shortest paths (64 bit; lengths that reach INF count as unreachable, arcs of weight INF are closed) ----------
inline unsigned max_degree(const Graph &g) { U d(g.n, 0); for (auto x : g.tail) ++d[x]; for (auto x : g.head) ++d[x]; return *std::max_element(d.begin(), d.end()); }
struct Adj { U first, arc; };
inline Adj build_adj(const Graph &g, bool reverse = false) {
	Adj r; const U &t = reverse ? g.head : g.tail;
	r.first.assign(g.n + 1, 0); r.arc.resize(g.m());
	for (auto x : t) ++r.first[x + 1];
	for (unsigned i = 0; i < g.n; ++i) r.first[i + 1] += r.first[i];
	U p(r.first.begin(), r.first.end() - 1);
	for (unsigned a = 0; a < g.m(); ++a) r.arc[p[t[a]]++] = a;
	return r;
}

// multi source with initial distances
inline U ref_sssp(const Graph &g, const Adj &adj, const vector<std::pair<unsigned, unsigned>> &sources, bool reverse = false, const U *weight = nullptr) {
	const U &wt = weight ? *weight : g.weight;
	const U &hd = reverse ? g.tail : g.head;
	U dist(g.n, INF);
	typedef std::pair<uint64_t, unsigned> E;
	std::priority_queue<E, vector<E>, std::greater<E>> q;
	for (auto &s : sources) if (s.second < dist[s.first]) { dist[s.first] = s.second; q.push(E(s.second, s.first)); }
	while (!q.empty()) {
		E e = q.top(); q.pop();
		if (e.first != dist[e.second]) continue;
		for (unsigned i = adj.first[e.second]; i < adj.first[e.second + 1]; ++i) {
			unsigned a = adj.arc[i];
			if (wt[a] >= INF) continue;
			uint64_t d = e.first + wt[a];
			if (d >= INF) continue;
			if (d < dist[hd[a]]) { dist[hd[a]] = (unsigned)d; q.push(E(d, hd[a])); }
		}
	}
	return dist;
}

inline vector<U> ref_all_pairs(const Graph &g, const U *weight = nullptr) {
	Adj a = build_adj(g); vector<U> r(g.n);
	for (unsigned s = 0; s < g.n; ++s) r[s] = ref_sssp(g, a, {{s, 0}}, false, weight);
	return r;
}

typedef vector<std::pair<unsigned, unsigned>> Terminals; // (node, penalty)

// distance between penalised sources and targets; INF if >= INF
inline unsigned ref_distance(const vector<U> &apsp, const Terminals &s, const Terminals &t) {
	uint64_t best = INF;
	for (auto &x : s) for (auto &y : t) {
		if (apsp[x.first][y.first] >= INF) continue;
		best = std::min<uint64_t>(best, (uint64_t)x.second + apsp[x.first][y.first] + y.second);
	}
	return (unsigned)best;
}

inline unsigned min_penalty(const Terminals &s, unsigned x) {
	unsigned r = INF; for (auto &p : s) if (p.first == x) r = std::min(r, p.second);
	return r;
}

// checks that a path is a walk of the graph from a source to a target of exactly the given total length
inline void check_path(const Graph &g, const U &weight, const Terminals &S, const Terminals &T, unsigned dist, const U &node_path, const U &arc_path, unsigned used_source, unsigned used_target, const std::string &what) {
	if (dist == INF) {
		REQUIRE(node_path.empty(), what << ": node path of an unreachable pair is not empty: " << pbt::show(node_path));
		REQUIRE(arc_path.empty(), what << ": arc path of an unreachable pair is not empty: " << pbt::show(arc_path));
		REQUIRE_EQ(used_source, INVALID, what << ": used source of an unreachable pair");
		REQUIRE_EQ(used_target, INVALID, what << ": used target of an unreachable pair");
		return;
	}
	REQUIRE(!node_path.empty(), what << ": node path of a reachable pair is empty");
	REQUIRE_EQ(arc_path.size() + 1, node_path.size(), what << ": path sizes");
	for (auto x : node_path) REQUIRE(x < g.n, what << ": invalid node on path " << pbt::show(node_path));
	for (size_t i = 0; i < arc_path.size(); ++i) {
		REQUIRE(arc_path[i] < g.m(), what << ": invalid arc " << arc_path[i] << " on path");
		REQUIRE_EQ(g.tail[arc_path[i]], node_path[i], what << ": tail of path arc " << i);
		REQUIRE_EQ(g.head[arc_path[i]], node_path[i + 1], what << ": head of path arc " << i);
	}
	REQUIRE_EQ(used_source, node_path.front(), what << ": used source is the first node");
	REQUIRE_EQ(used_target, node_path.back(), what << ": used target is the last node");
	unsigned ps = min_penalty(S, node_path.front()), pt = min_penalty(T, node_path.back());
	REQUIRE(ps != INF, what << ": path starts at " << node_path.front() << " which is not a source");
	REQUIRE(pt != INF, what << ": path ends at " << node_path.back() << " which is not a target");
	uint64_t sum = (uint64_t)ps + pt;
	for (auto a : arc_path) sum += weight[a];
	REQUIRE_EQ(sum, (uint64_t)dist, what << ": length of the returned path against the reported distance");
}

// penalty such that sums stay below INF in the non-saturating modes
inline Terminals draw_terminals(pbt::Gen &g, unsigned n, WeightMode mode, unsigned max_count = 4) {
	Terminals r;
	unsigned k = g.chance(1, 2) ? 1 : 1 + g.below(max_count);
	if (k > 1 && g.chance(1, 30)) k = 1 + g.below(60);
	bool pen = g.chance(1, 2);
	for (unsigned i = 0; i < k; ++i) {
		unsigned x = g.below(n);
		unsigned p = 0;
		if (pen) p = mode == w_saturating ? (unsigned)(g.chance(1, 2) ? g.below(INF) : g.below(10)) : (mode == w_large || mode == w_pow2 ? g.below(2000000) : g.below(mode == w_medium ? 3000 : 30));
		r.push_back({x, p});
	}
	return r;
}

// order types for hierarchies
inline U draw_order(pbt::Gen &g, unsigned n) {
	switch (g.below(4)) {
	case 0: { U p(n); std::iota(p.begin(), p.end(), 0u); return p; }
	case 1: { U p(n); for (unsigned i = 0; i < n; ++i) p[i] = n - 1 - i; return p; }
	default: return draw_permutation(g, n);
	}
}

// removes the tail of very large sums for code whose contract is "path lengths stay below the infinite weight"
inline bool sums_stay_small(const Graph &g) {
	uint64_t s = 0; for (auto w : g.weight) { if (w >= INF) return false; s += w; }
	return s < INF;
}

} // namespace gr
