// P11: graph fragments, minimum cuts, separators and nested dissection orders.
#include "graphs.hpp"
#include <routingkit/nested_dissection.h>
using namespace gr;
using namespace RoutingKit;
typedef std::pair<unsigned, unsigned> Arc;

static std::vector<Arc> symmetric_arcs(const Graph &G) {
	std::vector<Arc> r;
	for (unsigned a = 0; a < G.m(); ++a) if (G.tail[a] != G.head[a]) { r.push_back({G.tail[a], G.head[a]}); r.push_back({G.head[a], G.tail[a]}); }
	std::sort(r.begin(), r.end());
	return r;
}
static void check_fragment(const GraphFragment &f, const std::string &what) {
	unsigned n = f.node_count(), m = f.arc_count();
	REQUIRE_EQ(f.head.size(), (size_t)m, what << ": head size"); REQUIRE_EQ(f.back_arc.size(), (size_t)m, what << ": back_arc size");
	REQUIRE_EQ(f.first_out.size(), (size_t)n + 1, what << ": first_out size");
	REQUIRE_EQ(f.first_out[0], 0u, what << ": first_out"); REQUIRE_EQ(f.first_out[n], m, what << ": first_out end");
	for (unsigned x = 0; x < n; ++x) {
		REQUIRE(f.first_out[x] <= f.first_out[x + 1], what << ": first_out is not monotone");
		for (unsigned a = f.first_out[x]; a < f.first_out[x + 1]; ++a) {
			REQUIRE_EQ(f.tail[a], x, what << ": tail of arc " << a);
			REQUIRE(f.head[a] < n && f.head[a] != x, what << ": head of arc " << a);
			REQUIRE(f.back_arc[a] < m && f.back_arc[a] != a, what << ": back arc of " << a);
			REQUIRE_EQ(f.back_arc[f.back_arc[a]], a, what << ": back arc of the back arc of " << a);
			REQUIRE_EQ(f.tail[f.back_arc[a]], f.head[a], what << ": tail of the back arc of " << a);
			REQUIRE_EQ(f.head[f.back_arc[a]], f.tail[a], what << ": head of the back arc of " << a);
		}
	}
}
static std::vector<Arc> global_arcs(const GraphFragment &f) {
	std::vector<Arc> r; for (unsigned a = 0; a < f.arc_count(); ++a) r.push_back({f.global_node_id[f.tail[a]], f.global_node_id[f.head[a]]});
	std::sort(r.begin(), r.end()); return r;
}
static BitVector to_bits(const std::vector<char> &v) { BitVector b(v.size(), false); for (unsigned i = 0; i < v.size(); ++i) if (v[i]) b.set(i); return b; }

// undirected unit capacity maximum flow by augmenting paths
static unsigned max_flow(const GraphFragment &f, const std::vector<char> &S, const std::vector<char> &T) {
	unsigned n = f.node_count(); std::vector<int> flow(f.arc_count(), 0); unsigned total = 0;
	for (;;) {
		U pred(n, INVALID), q; std::vector<char> seen(n, 0);
		for (unsigned x = 0; x < n; ++x) if (S[x]) { seen[x] = 1; q.push_back(x); }
		unsigned hit = INVALID;
		for (size_t i = 0; i < q.size() && hit == INVALID; ++i) {
			unsigned x = q[i];
			for (unsigned a = f.first_out[x]; a < f.first_out[x + 1]; ++a) {
				unsigned y = f.head[a];
				if (flow[a] >= 1 || seen[y]) continue;
				seen[y] = 1; pred[y] = a;
				if (T[y]) { hit = y; break; }
				q.push_back(y);
			}
		}
		if (hit == INVALID) return total;
		++total;
		for (unsigned x = hit; !S[x]; x = f.tail[pred[x]]) { ++flow[pred[x]]; --flow[f.back_arc[pred[x]]]; }
	}
}
static unsigned crossing(const GraphFragment &f, const BitVector &b) { unsigned c = 0; for (unsigned a = 0; a < f.arc_count(); ++a) if (b.is_set(f.tail[a]) && !b.is_set(f.head[a])) ++c; return c; }

static void check_cut(const GraphFragment &f, const CutSide &c, const std::vector<char> &S, const std::vector<char> &T, unsigned flow, int kind, const std::string &what) {
	unsigned n = f.node_count(), count = 0;
	REQUIRE_EQ(c.is_node_on_side.size(), (uint64_t)n, what << ": size");
	bool source_on = false, source_off = false, target_on = false, target_off = false;
	for (unsigned x = 0; x < n; ++x) {
		bool on = c.is_node_on_side.is_set(x);
		if (on) ++count;
		if (S[x]) (on ? source_on : source_off) = true;
		if (T[x]) (on ? target_on : target_off) = true;
	}
	REQUIRE(source_on != source_off, what << ": sources are on both sides"); REQUIRE(target_on != target_off, what << ": targets are on both sides");
	REQUIRE(source_on != target_on, what << ": sources and targets are on the same side");
	if (kind == 0) REQUIRE(source_on, what << ": the source cut has no sources");
	if (kind == 1) REQUIRE(target_on, what << ": the target cut has no targets");
	REQUIRE_EQ(c.node_on_side_count, count, what << ": node count of the side");
	REQUIRE_EQ(c.cut_size, flow, what << ": cut size against the maximum flow");
	REQUIRE_EQ(crossing(f, c.is_node_on_side), flow, what << ": arcs crossing the cut");
}

static void fragments(pbt::Gen &g) {
	bool big = g.chance(1, 250); Graph G;
	if (big) { // thousands of nodes in very many components
		uint64_t s = g.bits64(); G.n = 500 + g.below(g.chance(1, 6) ? 80000 : 6000); unsigned m = g.below(2 * G.n), reach = g.pick(U{2, 10, 1000000}); for (unsigned i = 0; i < m; ++i) { unsigned a = pbt::splitmix(s) % G.n, b = std::min<uint64_t>(G.n - 1, a + pbt::splitmix(s) % reach); if (pbt::splitmix(s) % 2) std::swap(a, b); G.add(a, b, 1); } g.note() << "n=" << G.n << " m=" << m << " seed=" << s; g.label("many components");
	} else G = draw_graph(g, g.chance(1, 5) ? 200 : 14, w_unit);
	if (g.chance(1, 30)) G = Graph();
	if (!big) g.note() << G.str();
	GraphFragment f = make_graph_fragment(G.n, G.tail, G.head);
	REQUIRE_EQ(f.node_count(), G.n, "node count");
	check_fragment(f, "fragment");
	U id(G.n); std::iota(id.begin(), id.end(), 0u);
	REQUIRE_EQ(f.global_node_id, id, "global node IDs");
	REQUIRE_EQ(global_arcs(f), symmetric_arcs(G), "arcs of the fragment");
	auto parts = decompose_graph_fragment_into_connected_components(f);
	U seen; std::vector<Arc> arcs;
	for (auto &p : parts) {
		REQUIRE(p.node_count() > 0, "empty component");
		check_fragment(p, "component");
		std::vector<char> r(p.node_count(), 0); U st{0}; r[0] = 1; unsigned cnt = 1;
		while (!st.empty()) { unsigned x = st.back(); st.pop_back(); for (unsigned a = p.first_out[x]; a < p.first_out[x + 1]; ++a) if (!r[p.head[a]]) { r[p.head[a]] = 1; ++cnt; st.push_back(p.head[a]); } }
		REQUIRE_EQ(cnt, p.node_count(), "component is not connected");
		seen.insert(seen.end(), p.global_node_id.begin(), p.global_node_id.end());
		auto ga = global_arcs(p); arcs.insert(arcs.end(), ga.begin(), ga.end());
	}
	std::sort(seen.begin(), seen.end()); std::sort(arcs.begin(), arcs.end());
	REQUIRE_EQ(seen, id, "components partition the nodes");
	REQUIRE_EQ(arcs, symmetric_arcs(G), "components partition the arcs");
	g.nontrivial(f.arc_count() >= 4);
}

// A long strip of layers of varying width: bottlenecks far away from the sources and the targets.
static Graph draw_strip(pbt::Gen &g, U &first, U &last) {
	Graph G; uint64_t s = g.bits64(); auto rnd = [&](unsigned k) { return (unsigned)(pbt::splitmix(s) % k); }; unsigned layers = 3 + g.below(g.chance(1, 4) ? 1500 : 80), wide = 1 + g.below(8), change = 1 + g.below(40), density = 1 + g.below(4); std::vector<U> L; unsigned w = 1 + rnd(wide);
	for (unsigned i = 0; i < layers; ++i) { if (rnd(change) == 0) w = 1 + rnd(wide); U v; for (unsigned j = 0; j < w; ++j) v.push_back(G.n++); L.push_back(v); }
	auto arc = [&](unsigned a, unsigned b) { if (rnd(2)) G.add(a, b, 1); else G.add(b, a, 1); };
	for (unsigned i = 0; i < layers; ++i) { for (unsigned a : L[i]) { if (i + 1 < layers) for (unsigned k = 0; k < density; ++k) if (k == 0 || rnd(3) == 0) arc(a, L[i + 1][rnd(L[i + 1].size())]); if (i && rnd(2)) arc(a, L[i - 1][rnd(L[i - 1].size())]); if (rnd(4) == 0 && L[i].size() > 1) arc(a, L[i][rnd(L[i].size())]); if (i > 1 && rnd(20) == 0) arc(a, L[i - 1 - rnd(std::min(i, 10u))][0]); } }
	first = L[0]; last = L.back(); if (rnd(2)) { U p(G.n); std::iota(p.begin(), p.end(), 0u); for (unsigned i = G.n; i > 1; --i) std::swap(p[i - 1], p[rnd(i)]); for (auto *v : {&G.tail, &G.head, &first, &last}) for (auto &x : *v) x = p[x]; }
	g.note() << "strip of " << layers << " layers n=" << G.n << " m=" << G.m() << " seed=" << s; return G;
}

static void flows(pbt::Gen &g, unsigned max_n) {
	U first, last_layer; Graph G = max_n ? draw_graph(g, max_n, w_unit, true, 3000) : draw_strip(g, first, last_layer);
	if (G.n < 2) { G.n = 2; }
	GraphFragment f = make_graph_fragment(G.n, G.tail, G.head);
	std::vector<char> S(G.n, 0), T(G.n, 0);
	if (!max_n && g.chance(3, 4)) { for (auto x : first) S[x] = 1; for (auto x : last_layer) T[x] = 1; }
	else { unsigned s = g.below(G.n), t = (s + 1 + g.below(G.n - 1)) % G.n; S[s] = 1; T[t] = 1; }
	unsigned extra = !max_n ? (g.chance(1, 3) ? g.below(4) : 0) : g.chance(1, 2) ? g.below(G.n) : 0;
	for (unsigned i = 0; i < extra; ++i) { unsigned x = g.below(G.n); if (!S[x] && !T[x]) (g.chance(1, 2) ? S : T)[x] = 1; }
	if (max_n) g.note() << G.str(); g.note() << " sources"; for (unsigned x = 0; x < G.n && x < 80; ++x) g.note() << (S[x] ? 'S' : T[x] ? 'T' : '.');
	BlockingFlow b(f, to_bits(S), to_bits(T));
	unsigned last = 0, rounds = 0;
	REQUIRE(!b.is_finished(), "finished before the first step");
	while (!b.is_finished()) {
		b.advance();
		REQUIRE(b.get_current_flow_intensity() >= last, "the flow decreased");
		last = b.get_current_flow_intensity();
		REQUIRE(++rounds <= f.arc_count() + 2, "the flow does not terminate");
	}
	unsigned want = max_flow(f, S, T);
	REQUIRE_EQ(last, want, "flow intensity");
	check_cut(f, b.get_source_cut(), S, T, want, 0, "source cut");
	check_cut(f, b.get_target_cut(), S, T, want, 1, "target cut");
	CutSide c = b.get_balanced_cut();
	check_cut(f, c, S, T, want, 2, "balanced cut");
	CutSide sc = b.get_source_cut(), tc = b.get_target_cut();
	// the balanced cut is no worse than the two extreme cuts
	auto small = [&](const CutSide &x) { return std::min(x.node_on_side_count, G.n - x.node_on_side_count); };
	REQUIRE(small(c) >= std::min(small(sc), small(tc)), "the balanced cut is less balanced than both other cuts");
	CutSide p = c; pick_smaller_side(p);
	REQUIRE(p.node_on_side_count <= G.n - p.node_on_side_count, "pick_smaller_side returns the larger side");
	check_cut(f, p, S, T, want, 2, "smaller side");
	for (const CutSide *x : {&sc, &tc, &c}) for (int flip = 0; flip < 2; ++flip) { // any side, also the larger one
		CutSide y = *x; if (flip) { y.is_node_on_side.inplace_not(); y.node_on_side_count = G.n - y.node_on_side_count; } CutSide z = y; pick_smaller_side(z); bool same = true, other = true; unsigned k = 0; for (unsigned v = 0; v < G.n; ++v) { bool a = y.is_node_on_side.is_set(v), b = z.is_node_on_side.is_set(v); k += b; if (a == b) other = false; else same = false; }
		REQUIRE_EQ(z.node_on_side_count, k, "pick_smaller_side: node count"); REQUIRE_EQ(z.cut_size, y.cut_size, "pick_smaller_side: cut size"); REQUIRE(k <= G.n - k && (same || other), "pick_smaller_side of " << y.node_on_side_count << " of " << G.n << " nodes gives " << k << " nodes"); }
	BitVector sep = derive_separator_from_cut(f, (g.chance(1, 2) ? c : p).is_node_on_side);
	REQUIRE_EQ(sep.size(), (uint64_t)G.n, "separator size");
	for (unsigned a = 0; a < f.arc_count(); ++a) {
		unsigned x = f.tail[a], y = f.head[a];
		if (c.is_node_on_side.is_set(x) != c.is_node_on_side.is_set(y)) REQUIRE(sep.is_set(x) || sep.is_set(y), "the arc " << x << "," << y << " connects the two sides and avoids the separator");
	}
	REQUIRE(sep.population_count() <= want, "the separator has more nodes than the cut has arcs");
	g.nontrivial(want >= 1);
	g.label(want >= 3 ? "flow>=3" : want ? "flow>=1" : "flow=0");
}

static void draw_coords(pbt::Gen &g, unsigned n, std::vector<float> &lat, std::vector<float> &lon) {
	unsigned kind = g.below(4);
	for (unsigned i = 0; i < n; ++i) {
		if (kind == 0) { lat.push_back((float)g.below(3)); lon.push_back((float)g.below(3)); } // many ties
		else if (kind == 1) { lat.push_back(0); lon.push_back(0); }
		else { lat.push_back((float)(g.below(180001) / 1000.0 - 90)); lon.push_back((float)(g.below(360001) / 1000.0 - 180)); }
	}
}

static void inertial(pbt::Gen &g, unsigned max_n) {
	Graph G = draw_graph(g, max_n, w_unit, true, 2000);
	if (G.n < 2) G.n = 2;
	unsigned n = G.n;
	GraphFragment f = make_graph_fragment(n, G.tail, G.head);
	std::vector<float> lat, lon; draw_coords(g, n, lat, lon);
	bool def = g.chance(1, 3);
	unsigned balance = def ? 25 : g.below(51);
	g.note() << G.str() << " balance " << balance << " lat" << pbt::show(lat) << " lon" << pbt::show(lon);
	CutSide c = def ? inertial_flow(f, lat, lon) : inertial_flow(f, balance, lat, lon);
	unsigned count = c.is_node_on_side.population_count();
	unsigned side = std::max(1u, n * balance / 100);
	REQUIRE_EQ(c.node_on_side_count, count, "node count of the side");
	REQUIRE_EQ(crossing(f, c.is_node_on_side), c.cut_size, "arcs crossing the cut");
	REQUIRE(count >= side && n - count >= side, "a side has fewer than " << side << " nodes: " << count << " of " << n);
	if (!def) { // with distinct keys the four directions have unique terminals
		unsigned best = INVALID; bool unique = true;
		for (unsigned d = 0; d < 4 && unique; ++d) {
			std::vector<std::pair<float, unsigned>> k;
			for (unsigned x = 0; x < n; ++x) { volatile float v = d == 0 ? lat[x] : d == 1 ? lon[x] : d == 2 ? lat[x] + lon[x] : lat[x] - lon[x]; k.push_back({v, x}); }
			std::sort(k.begin(), k.end());
			for (unsigned i = 0; i + 1 < n; ++i) if (k[i].first == k[i + 1].first) unique = false;
			std::vector<char> S(n, 0), T(n, 0);
			for (unsigned i = 0; i < side; ++i) { S[k[i].second] = 1; T[k[n - 1 - i].second] = 1; }
			best = std::min(best, max_flow(f, S, T));
		}
		if (unique) { REQUIRE_EQ(c.cut_size, best, "the cut is not the smallest of the four directions"); g.label("distinct keys"); }
	}
	g.nontrivial(c.cut_size >= 1);
}

static void check_decomposition(const Graph &G, const SeparatorDecomposition &d) {
	unsigned n = G.n;
	U seen(d.order); std::sort(seen.begin(), seen.end());
	U id(n); std::iota(id.begin(), id.end(), 0u);
	REQUIRE_EQ(seen, id, "the order is not a permutation");
	REQUIRE(!d.tree.empty(), "empty tree");
	unsigned k = d.tree.size();
	U parent(k, INVALID), owner(n, INVALID); U st{0}; std::vector<char> vis(k, 0); vis[0] = 1; unsigned visited = 1;
	U subtree_begin(k, INVALID);
	while (!st.empty()) {
		unsigned x = st.back(); st.pop_back();
		REQUIRE(d.tree[x].first_separator_vertex <= d.tree[x].last_separator_vertex && d.tree[x].last_separator_vertex <= n, "separator range of tree node " << x);
		for (unsigned i = d.tree[x].first_separator_vertex; i < d.tree[x].last_separator_vertex; ++i) { REQUIRE_EQ(owner[i], INVALID, "position " << i << " belongs to two tree nodes"); owner[i] = x; }
		for (unsigned c = d.tree[x].left_child; c != 0; c = d.tree[c].right_sibling) {
			REQUIRE(c < k, "invalid tree link"); REQUIRE(!vis[c], "tree node " << c << " has two parents");
			vis[c] = 1; ++visited; parent[c] = x; st.push_back(c);
			REQUIRE(d.tree[c].last_separator_vertex <= d.tree[x].first_separator_vertex, "a child separator comes after its parent separator");
		}
	}
	REQUIRE_EQ(visited, k, "tree nodes that can not be reached from the root");
	for (unsigned i = 0; i < n; ++i) REQUIRE(owner[i] != INVALID, "position " << i << " belongs to no tree node");
	U pos(n); for (unsigned i = 0; i < n; ++i) pos[d.order[i]] = i;
	for (unsigned a = 0; a < G.m(); ++a) {
		unsigned u = owner[pos[G.tail[a]]], v = owner[pos[G.head[a]]];
		bool related = false;
		for (unsigned x = u; x != INVALID; x = parent[x]) if (x == v) related = true;
		for (unsigned x = v; x != INVALID; x = parent[x]) if (x == u) related = true;
		REQUIRE(related, "the arc " << G.tail[a] << "," << G.head[a] << " connects two separated parts");
	}
}

static void dissection(pbt::Gen &g, unsigned max_n) {
	Graph G = draw_graph(g, max_n, w_unit, true, 2000);
	if (g.chance(1, 40)) G = Graph();
	std::vector<float> lat, lon; draw_coords(g, G.n, lat, lon);
	g.note() << G.str() << " lat" << pbt::show(lat) << " lon" << pbt::show(lon);
	unsigned kind = g.below(3);
	uint64_t r = g.bits64();
	auto separator = [&](const GraphFragment &f) -> BitVector {
		unsigned n = f.node_count();
		REQUIRE(n >= 2, "the separator callback got a fragment with " << n << " nodes");
		check_fragment(f, "fragment given to the callback");
		if (kind == 0) { // any non-empty set of nodes is a legal separator
			BitVector b(n, false); b.set(pbt::splitmix(r) % n);
			unsigned k = pbt::splitmix(r) % 4; for (unsigned i = 0; i < k; ++i) b.set(pbt::splitmix(r) % n);
			return b;
		}
		CutSide c = inertial_flow(f, lat, lon); pick_smaller_side(c);
		return derive_separator_from_cut(f, c.is_node_on_side);
	};
	if (kind == 2) {
		U order = g.chance(1, 2) ? compute_nested_node_dissection_order_using_inertial_flow(G.n, G.tail, G.head, lat, lon) : compute_nested_node_dissection_order_using_inertial_flow(G.n, G.tail, G.head, lat, lon, std::function<void(const std::string &)>());
		U seen(order); std::sort(seen.begin(), seen.end());
		U id(G.n); std::iota(id.begin(), id.end(), 0u);
		REQUIRE_EQ(seen, id, "the order is not a permutation");
	}
	SeparatorDecomposition d = compute_separator_decomposition(make_graph_fragment(G.n, G.tail, G.head), separator);
	check_decomposition(G, d);
	if (kind == 1) REQUIRE_EQ(compute_nested_node_dissection_order(make_graph_fragment(G.n, G.tail, G.head), separator), d.order, "order of compute_nested_node_dissection_order");
	if (kind == 1) REQUIRE_EQ(compute_nested_node_dissection_order_using_inertial_flow(G.n, G.tail, G.head, lat, lon), d.order, "order of compute_nested_node_dissection_order_using_inertial_flow");
	g.nontrivial(d.tree.size() >= 3);
}

// more nodes than fit into 16 bits; coordinates follow the shape of the graph so that small cuts exist
static void dissection_huge(pbt::Gen &g) {
	unsigned n = 65537 + g.below(3000), cols = 1 + g.below(12); uint64_t s = g.bits64(); Graph G; G.n = n; std::vector<float> lat, lon;
	for (unsigned i = 0; i < n; ++i) { if ((i + 1) % cols && i + 1 < n && pbt::splitmix(s) % 10) G.add(i, i + 1, 1); if (i + cols < n && pbt::splitmix(s) % 50) G.add(i + cols, i, 1); lat.push_back(i / cols * 0.001f); lon.push_back(i % cols * 0.001f); }
	g.note() << "n=" << n << " columns=" << cols << " seed=" << s;
	GraphFragment f = make_graph_fragment(n, G.tail, G.head); check_fragment(f, "fragment"); REQUIRE_EQ(f.node_count(), n, "nodes of the fragment");
	if (g.chance(1, 2)) {
		U order = compute_nested_node_dissection_order_using_inertial_flow(n, G.tail, G.head, lat, lon), id(n); std::iota(id.begin(), id.end(), 0u); std::sort(order.begin(), order.end()); REQUIRE_EQ(order, id, "the order is not a permutation");
	} else check_decomposition(G, compute_separator_decomposition(std::move(f), [&](const GraphFragment &f) { CutSide c = inertial_flow(f, lat, lon); pick_smaller_side(c); return derive_separator_from_cut(f, c.is_node_on_side); }));
	g.nontrivial();
}

// a log callback, or none, changes nothing
static void logged(pbt::Gen &g) {
	unsigned n = g.chance(1, 2) ? g.range(1, 40) : g.range(990, 3000), cols = g.range(1, 40); uint64_t s = g.bits64(); Graph G; G.n = n; std::vector<float> lat, lon; unsigned gap = g.range(3, 60);
	for (unsigned i = 0; i < n; ++i) { auto both = [&](unsigned a, unsigned b) { G.add(a, b, 1); G.add(b, a, 1); }; if ((i + 1) % cols && i + 1 < n && pbt::splitmix(s) % gap) both(i, i + 1); if (i + cols < n && pbt::splitmix(s) % gap) both(i, i + cols); lat.push_back(i / cols * 0.001f); lon.push_back(i % cols * 0.001f); }
	g.note() << "n=" << n << " columns=" << cols << " gaps " << gap << " seed=" << s; std::vector<std::string> lines; std::function<void(const std::string &)> none, log = [&](const std::string &l) { lines.push_back(l); };
	auto sep = [&](const std::function<void(const std::string &)> &log) { return [&lat, &lon, log](const GraphFragment &f) { CutSide c = inertial_flow(f, lat, lon, log); pick_smaller_side(c); return derive_separator_from_cut(f, c.is_node_on_side); }; };
	auto a = compute_separator_decomposition(make_graph_fragment(n, G.tail, G.head), sep(none), none), b = compute_separator_decomposition(make_graph_fragment(n, G.tail, G.head), sep(log), log);
	check_decomposition(G, b); REQUIRE(a.order == b.order && a.tree.size() == b.tree.size(), "a log callback changes the decomposition"); for (unsigned i = 0; i < a.tree.size(); ++i) REQUIRE(a.tree[i].left_child == b.tree[i].left_child && a.tree[i].right_sibling == b.tree[i].right_sibling && a.tree[i].first_separator_vertex == b.tree[i].first_separator_vertex && a.tree[i].last_separator_vertex == b.tree[i].last_separator_vertex, "a log callback changes the decomposition tree");
	U x = compute_nested_node_dissection_order_using_inertial_flow(n, G.tail, G.head, lat, lon, none), y = compute_nested_node_dissection_order_using_inertial_flow(n, G.tail, G.head, lat, lon, log), z = compute_nested_node_dissection_order(make_graph_fragment(n, G.tail, G.head), sep(none), g.chance(1, 2) ? none : log);
	REQUIRE(x == y && x == a.order && z == x, "the order depends on the log callback or on the way it is computed"); g.nontrivial(n > 3); g.label(n > 1000 ? "more than 1000 nodes" : "small");
}

// the same for graphs of which only the balance and the crossing arcs are checked
static void inertial_huge(pbt::Gen &g) {
	unsigned n = g.chance(1, 3) ? 1000 + g.below(9000) : 65530 + g.below(3000), cols = 1 + g.below(12); uint64_t s = g.bits64(); Graph G; G.n = n; std::vector<float> lat, lon; unsigned gap = g.chance(1, 2) ? 50 : 1000000;
	for (unsigned i = 0; i < n; ++i) { if ((i + 1) % cols && i + 1 < n && pbt::splitmix(s) % 10) G.add(i, i + 1, 1); if (i + cols < n && pbt::splitmix(s) % gap) G.add(i + cols, i, 1); lat.push_back(i / cols * 0.001f); lon.push_back(i % cols * 0.001f); }
	bool def = g.chance(1, 4); unsigned balance = def ? 25 : g.range(1, 50); g.note() << "n=" << n << " columns=" << cols << " seed=" << s << " balance " << balance;
	GraphFragment f = make_graph_fragment(n, G.tail, G.head); CutSide c = def ? inertial_flow(f, lat, lon) : inertial_flow(f, balance, lat, lon); unsigned count = c.is_node_on_side.population_count(), side = std::max<uint64_t>(1, (uint64_t)n * balance / 100);
	REQUIRE_EQ(c.node_on_side_count, count, "node count of the side"); REQUIRE_EQ(crossing(f, c.is_node_on_side), c.cut_size, "arcs crossing the cut"); REQUIRE(count >= side && n - count >= side, "a side has fewer than " << side << " nodes: " << count << " of " << n);
	CutSide d = c; pick_smaller_side(d); unsigned small = d.is_node_on_side.population_count(); REQUIRE_EQ(d.node_on_side_count, small, "node count of the smaller side"); REQUIRE(small <= n - small && (small == count || small == n - count), "smaller side"); BitVector sep = derive_separator_from_cut(f, d.is_node_on_side);
	for (unsigned a = 0; a < f.arc_count(); ++a) REQUIRE(sep.is_set(f.tail[a]) || sep.is_set(f.head[a]) || d.is_node_on_side.is_set(f.tail[a]) == d.is_node_on_side.is_set(f.head[a]), "an arc crosses the cut without touching the separator"); REQUIRE(sep.population_count() <= c.cut_size, "separator larger than the cut");
	g.nontrivial();
}

pbt::Check pbt::make_check() {
	return Check{"P11", "fragments: at least four arcs; flows and inertial flow: a cut of at least one arc; dissection: at least three separators", {
		{"fragments", 60000, 1200000, fragments},
		{"flows_small", 80000, 1600000, [](Gen &g) { flows(g, 12); }},
		{"flows_large", 4000, 80000, [](Gen &g) { flows(g, 150); }},
		{"flows_strip", 3000, 60000, [](Gen &g) { flows(g, 0); }},
		{"inertial", 30000, 600000, [](Gen &g) { inertial(g, g.chance(1, 5) ? 80 : 14); }},
		{"dissection_small", 30000, 600000, [](Gen &g) { dissection(g, 14); }},
		{"logged", 200, 3000, logged}, {"dissection_huge", 8, 100, dissection_huge, 300},
		{"inertial_huge", 24, 400, inertial_huge, 300},
		{"dissection_large", 1500, 30000, [](Gen &g) { dissection(g, 200); }},
	}};
}
