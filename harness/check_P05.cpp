// P05: extra weights of a contraction hierarchy are the ordered fold over the arcs of the path the query chose.
#include "cch_common.hpp"
#include <climits>
#include <cstdlib>
using namespace cchc;
using RoutingKit::ContractionHierarchyExtraWeight;
using RoutingKit::SaturatedWeightAddition;

// counts allocations while armed, because some functions are documented not to allocate
static bool g_armed = false; static unsigned long g_allocations = 0;
#ifndef __SANITIZE_ADDRESS__
void *operator new(std::size_t n) { if (g_armed) ++g_allocations; void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (g_armed && p) ++g_allocations; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { if (g_armed && p) ++g_allocations; std::free(p); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { if (g_armed) ++g_allocations; return std::malloc(n ? n : 1); }
#endif

// non-commutative weight that remembers the arcs; default constructed values must never be linked
struct Seq {
	U arcs; bool real = false;
	bool operator==(const Seq &o) const { return arcs == o.arcs && real == o.real; }
};
static bool g_linked_default = false;
struct SeqLink {
	Seq operator()(const Seq &a, const Seq &b) const {
		if (!a.real || !b.real) g_linked_default = true;
		Seq r; r.real = true; r.arcs = a.arcs; r.arcs.insert(r.arcs.end(), b.arcs.begin(), b.arcs.end()); return r;
	}
};
static std::vector<Seq> seq_weights(unsigned m) { std::vector<Seq> v(m); for (unsigned i = 0; i < m; ++i) { v[i].arcs = {i}; v[i].real = true; } return v; }

struct Extra { // the extra weights used by a case
	U uw; std::vector<int> iw; std::vector<std::string> sw; std::vector<Seq> qw;
};
static Extra draw_extra(pbt::Gen &g, unsigned m) {
	Extra e; unsigned k = g.below(4), s = g.below(4);
	for (unsigned i = 0; i < m; ++i) {
		e.uw.push_back(k == 0 ? g.below(100) : k == 1 ? (g.chance(1, 5) ? INF : (unsigned)g.below(50)) : k == 2 ? INF / 4 + g.below(INF / 2) : (unsigned)g.below(3));
		e.iw.push_back(s == 0 ? (int)g.irange(-50, 50) : s == 1 ? (int)g.irange(0, INT_MAX) : s == 2 ? (int)g.irange(INT_MIN, 0) : (int)g.irange(-1000000, 1000000));
		e.sw.push_back("[" + std::to_string(i) + "]");
	}
	e.qw = seq_weights(m);
	return e;
}
static unsigned fold_u(const Extra &e, const U &arcs) { if (arcs.empty()) return 0; uint64_t s = 0; for (auto a : arcs) s += e.uw[a]; return s >= INF ? INF : (unsigned)s; }
static int fold_i(const Extra &e, const U &arcs) { int64_t s = 0; for (auto a : arcs) s += e.iw[a]; return s > INT_MAX ? INT_MAX : s < INT_MIN ? INT_MIN : (int)s; }
static std::string fold_s(const Extra &e, const U &arcs) { std::string r; for (auto a : arcs) r += e.sw[a]; return r; }
static const auto concat = [](const std::string &l, const std::string &r) { return l + r; };

static void check_walk(const Graph &G, const U &arcs, unsigned s, unsigned t, uint64_t len, const std::string &what) {
	unsigned x = s; uint64_t sum = 0;
	for (auto a : arcs) { REQUIRE(a < G.m(), what << ": invalid arc"); REQUIRE_EQ(G.tail[a], x, what << ": tail of next arc"); x = G.head[a]; sum += G.weight[a]; }
	REQUIRE_EQ(x, t, what << ": walk ends at the target");
	REQUIRE_EQ(sum, len, what << ": length of the walk");
}

static void p2p(pbt::Gen &g, unsigned max_n) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode); std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	auto D = ref_all_pairs(G);
	Extra e = draw_extra(g, G.m());
	g.note() << G.str() << " " << how;
	g_linked_default = false;
	ContractionHierarchyExtraWeight<unsigned> eu(ch, e.uw, SaturatedWeightAddition());
	ContractionHierarchyExtraWeight<int> ei; ei.reset(ch, e.iw, SaturatedWeightAddition());
	ContractionHierarchyExtraWeight<std::string> es(ch, e.sw, concat);
	ContractionHierarchyExtraWeight<Seq> eq; eq.reset(ch, e.qw, SeqLink());
	if (g.chance(1, 3)) { eu.reset(ch, e.uw.data(), SaturatedWeightAddition()); es.reset(ch, e.sw.data(), concat); }
	ContractionHierarchyQuery q(ch);
	size_t longest = 0;
	for (unsigned i = 0; i < 10; ++i) {
		Terminals S = draw_terminals(g, G.n, mode), T = draw_terminals(g, G.n, mode);
		q.reset(); add_all(q, S, T); q.run();
		U arcs = q.get_arc_path();
		std::string what = "query " + show_terminals(S) + "->" + show_terminals(T);
		REQUIRE_EQ(q.get_distance(), ref_distance(D, S, T), what << ": distance");
		REQUIRE_EQ(q.get_extra_weight_distance(e.uw, SaturatedWeightAddition()), fold_u(e, arcs), what << ": unsigned extra weight, path " << pbt::show(arcs));
		REQUIRE_EQ(q.get_extra_weight_distance(eu, SaturatedWeightAddition()), fold_u(e, arcs), what << ": prepared unsigned extra weight");
		bool mixed = false; { bool p = false, n = false; int64_t a = 0; for (auto x : arcs) { (e.iw[x] < 0 ? n : p) = true; a += std::llabs((long long)e.iw[x]); } mixed = p && n && a > INT_MAX; }
		if (!mixed) {
			REQUIRE_EQ(q.get_extra_weight_distance(e.iw, SaturatedWeightAddition()), fold_i(e, arcs), what << ": int extra weight");
			REQUIRE_EQ(q.get_extra_weight_distance(ei, SaturatedWeightAddition()), fold_i(e, arcs), what << ": prepared int extra weight");
		}
		REQUIRE_EQ(q.get_extra_weight_distance(e.sw, concat), fold_s(e, arcs), what << ": string extra weight");
		REQUIRE_EQ(q.get_extra_weight_distance(es, concat), fold_s(e, arcs), what << ": prepared string extra weight");
		const std::string *sp = e.sw.data();
		REQUIRE_EQ(q.get_extra_weight_distance(sp, concat), fold_s(e, arcs), what << ": string extra weight given as pointer");
		REQUIRE_EQ(q.get_extra_weight_distance(eq, SeqLink()).arcs, arcs, what << ": prepared arc sequence");
		REQUIRE_EQ(q.get_extra_weight_distance(e.qw, SeqLink()).arcs, arcs, what << ": arc sequence");
		longest = std::max(longest, arcs.size());
	}
	REQUIRE(!g_linked_default, "a default constructed weight was passed to the link function");
	g.nontrivial(longest >= 3);
}

static void m2m(pbt::Gen &g, unsigned max_n) {
	WeightMode mode = draw_mode(g);
	Graph G = draw_graph(g, max_n, mode); std::string how;
	ContractionHierarchy ch = draw_ch(g, G, &how);
	auto D = ref_all_pairs(G);
	Extra e = draw_extra(g, G.m());
	g_linked_default = false;
	ContractionHierarchyExtraWeight<unsigned> eu(ch, e.uw, SaturatedWeightAddition());
	ContractionHierarchyExtraWeight<std::string> es(ch, e.sw, concat);
	ContractionHierarchyExtraWeight<Seq> eq(ch, e.qw, SeqLink());
	bool tg = g.chance(1, 2);
	U pinned; unsigned len = g.below(g.chance(1, 4) ? 3 * G.n + 1 : 8); for (unsigned i = 0; i < len; ++i) pinned.push_back(g.below(G.n));
	g.note() << G.str() << " " << how << (tg ? " pin_targets" : " pin_sources") << pbt::show(pinned);
	ContractionHierarchyQuery q(ch);
	if (tg) q.pin_targets(pinned); else q.pin_sources(pinned);
	size_t longest = 0;
	for (unsigned r = 0; r < 4; ++r) {
		Terminals X = draw_terminals(g, G.n, mode);
		if (r) { if (tg) q.reset_source(); else q.reset_target(); }
		if (tg) { add_all(q, X, {}); q.run_to_pinned_targets(); } else { add_all(q, {}, X); q.run_to_pinned_sources(); }
		g.note() << (tg ? " from" : " to") << show_terminals(X);
		auto get_seq = [&](bool prepared, int form) {
			std::vector<Seq> out, tmp(G.n), dist(len + 1);
			if (form == 0) out = prepared ? (tg ? q.get_extra_weight_distances_to_targets(eq, SeqLink()) : q.get_extra_weight_distances_to_sources(eq, SeqLink())) : (tg ? q.get_extra_weight_distances_to_targets(e.qw, SeqLink()) : q.get_extra_weight_distances_to_sources(e.qw, SeqLink()));
			else if (form == 1) out = prepared ? (tg ? q.get_extra_weight_distances_to_targets(eq, SeqLink(), tmp) : q.get_extra_weight_distances_to_sources(eq, SeqLink(), tmp)) : (tg ? q.get_extra_weight_distances_to_targets(e.qw, SeqLink(), tmp) : q.get_extra_weight_distances_to_sources(e.qw, SeqLink(), tmp));
			else {
				dist[len].arcs = {77};
				for (unsigned i = 0; i < len; ++i) dist[i].arcs = {4711};
				if (prepared) { if (tg) q.get_extra_weight_distances_to_targets(eq, SeqLink(), tmp, dist); else q.get_extra_weight_distances_to_sources(eq, SeqLink(), tmp, dist); }
				else { if (tg) q.get_extra_weight_distances_to_targets(e.qw, SeqLink(), tmp, dist); else q.get_extra_weight_distances_to_sources(e.qw, SeqLink(), tmp, dist); }
				REQUIRE_EQ(dist[len].arcs, U{77}, "write past the output");
				dist.pop_back(); out = dist;
			}
			return out;
		};
		std::vector<Seq> a = get_seq(g.below(2), g.below(3)), b = get_seq(g.below(2), g.below(3));
		REQUIRE_EQ(a.size(), (size_t)len, "number of results");
		U used = tg ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources();
		U dist = tg ? q.get_distances_to_targets() : q.get_distances_to_sources();
		U u1 = tg ? q.get_extra_weight_distances_to_targets(e.uw, SaturatedWeightAddition()) : q.get_extra_weight_distances_to_sources(e.uw, SaturatedWeightAddition());
		U u2 = tg ? q.get_extra_weight_distances_to_targets(eu, SaturatedWeightAddition()) : q.get_extra_weight_distances_to_sources(eu, SaturatedWeightAddition());
		std::vector<std::string> s1 = tg ? q.get_extra_weight_distances_to_targets(es, concat) : q.get_extra_weight_distances_to_sources(es, concat);
		for (unsigned i = 0; i < len; ++i) {
			std::string what = "pinned entry " + std::to_string(i);
			REQUIRE_EQ(a[i].arcs, b[i].arcs, what << ": all forms of the call agree");
			unsigned want = tg ? ref_distance(D, X, {{pinned[i], 0}}) : ref_distance(D, {{pinned[i], 0}}, X);
			REQUIRE_EQ(dist[i], want, what << ": distance");
			if (want == INF) REQUIRE(a[i].arcs.empty() && !a[i].real, what << ": extra weight of an unreachable entry is not default constructed");
			else {
				uint64_t l = want - min_penalty(X, used[i]);
				if (tg) check_walk(G, a[i].arcs, used[i], pinned[i], l, what); else check_walk(G, a[i].arcs, pinned[i], used[i], l, what);
				longest = std::max(longest, a[i].arcs.size());
			}
			REQUIRE_EQ(u1[i], fold_u(e, a[i].arcs), what << ": unsigned extra weight");
			REQUIRE_EQ(u2[i], fold_u(e, a[i].arcs), what << ": prepared unsigned extra weight");
			REQUIRE_EQ(s1[i], fold_s(e, a[i].arcs), what << ": string extra weight");
		}
	}
	REQUIRE(!g_linked_default, "a default constructed weight was passed to the link function");
	g.nontrivial(longest >= 3);
}

// query, extra weight, temporary and output objects that live through several hierarchies and roles
static void reuse(pbt::Gen &g, unsigned max_n) {
	unsigned k = 2 + g.below(2), biggest = 0; std::vector<Graph> G(k); std::vector<ContractionHierarchy> C(k); std::vector<std::vector<U>> D(k); std::vector<Extra> E(k); std::vector<WeightMode> M(k);
	std::string how;
	for (unsigned i = 0; i < k; ++i) {
		M[i] = draw_mode(g); G[i] = draw_graph(g, i == 0 ? max_n : 1 + g.below(max_n), M[i]);
		if (g.chance(1, 3)) { U w = padded(G[i].weight); Cch cch = draw_cch(g, G[i]); Metric m(cch, w); C[i] = m.build_contraction_hierarchy_using_perfect_witness_search(); g.label("built:perfect customization"); } else C[i] = draw_ch(g, G[i], &how);
		D[i] = ref_all_pairs(G[i]); E[i] = draw_extra(g, G[i].m()); biggest = std::max(biggest, G[i].n); g.note() << " graph " << i << " " << G[i].str();
	}
	ContractionHierarchyQuery q; ContractionHierarchyExtraWeight<Seq> eq; ContractionHierarchyExtraWeight<unsigned> eu; ContractionHierarchyExtraWeight<int> ei;
	std::vector<Seq> tmp(biggest + 3); for (auto &t : tmp) t.arcs = {12345}; U utmp(biggest, 99); std::vector<int> itmp(biggest, -5); size_t longest = 0; g_linked_default = false; unsigned switches = 0; unsigned last = ~0u; unsigned eq_of = ~0u, eu_of = ~0u;
	for (unsigned step = 0; step < 7; ++step) {
		unsigned i = g.below(k); const Graph &H = G[i]; Extra &e = E[i]; switches += last != ~0u && last != i; bool fresh_query = last != i; last = i;
		if (g.chance(1, 3)) { e = draw_extra(g, H.m()); if (eq_of == i) eq_of = ~0u; if (eu_of == i) eu_of = ~0u; }
		if (eq_of != i) { eq.reset(C[i], e.qw, SeqLink()); eq_of = i; } if (eu_of != i) { eu.reset(C[i], e.uw, SaturatedWeightAddition()); ei.reset(C[i], e.iw, SaturatedWeightAddition()); eu_of = i; }
		if (fresh_query || g.chance(1, 4)) q.reset(C[i]); else q.reset();
		unsigned mode = g.below(3); g.note() << " use " << i << " mode " << mode;
		if (mode == 0) {
			Terminals S = draw_terminals(g, H.n, M[i]), T = draw_terminals(g, H.n, M[i]); add_all(q, S, T); q.run(); g.note() << show_terminals(S) << show_terminals(T);
			U arcs = q.get_arc_path(); REQUIRE_EQ(q.get_distance(), ref_distance(D[i], S, T), "distance");
			REQUIRE_EQ(q.get_extra_weight_distance(eq, SeqLink()).arcs, arcs, "prepared arc sequence"); REQUIRE_EQ(q.get_extra_weight_distance(e.qw, SeqLink()).arcs, arcs, "arc sequence"); REQUIRE_EQ(q.get_extra_weight_distance(eu, SaturatedWeightAddition()), fold_u(e, arcs), "prepared unsigned extra weight"); longest = std::max(longest, arcs.size());
		} else {
			bool tg = mode == 1; U pinned; unsigned len = g.below(8); for (unsigned j = 0; j < len; ++j) pinned.push_back(g.below(H.n)); if (tg) q.pin_targets(pinned); else q.pin_sources(pinned);
			unsigned rounds = 1 + g.below(3);
			for (unsigned r = 0; r < rounds; ++r) {
				Terminals X = draw_terminals(g, H.n, M[i]); if (r) { if (tg) q.reset_source(); else q.reset_target(); }
				if (tg) { add_all(q, X, {}); q.run_to_pinned_targets(); } else { add_all(q, {}, X); q.run_to_pinned_sources(); }
				std::vector<Seq> out(len); U u1(len, 3), u2(len, 3); std::vector<int> i1(len, 3), i2(len, 3);
				if (tg) { if (g.chance(1, 2)) q.get_extra_weight_distances_to_targets(eq, SeqLink(), tmp, out); else q.get_extra_weight_distances_to_targets(e.qw, SeqLink(), tmp, out); } else { if (g.chance(1, 2)) q.get_extra_weight_distances_to_sources(eq, SeqLink(), tmp, out); else q.get_extra_weight_distances_to_sources(e.qw, SeqLink(), tmp, out); }
				g_allocations = 0; g_armed = true;
				if (tg) { q.get_extra_weight_distances_to_targets(eu, SaturatedWeightAddition(), utmp, u1); q.get_extra_weight_distances_to_targets(e.uw, SaturatedWeightAddition(), utmp, u2); q.get_extra_weight_distances_to_targets(ei, SaturatedWeightAddition(), itmp, i1); q.get_extra_weight_distances_to_targets(e.iw, SaturatedWeightAddition(), itmp, i2); }
				else { q.get_extra_weight_distances_to_sources(eu, SaturatedWeightAddition(), utmp, u1); q.get_extra_weight_distances_to_sources(e.uw, SaturatedWeightAddition(), utmp, u2); q.get_extra_weight_distances_to_sources(ei, SaturatedWeightAddition(), itmp, i1); q.get_extra_weight_distances_to_sources(e.iw, SaturatedWeightAddition(), itmp, i2); }
				g_armed = false; REQUIRE_EQ(g_allocations, 0ul, "memory was allocated or freed although tmp and dist were given");
				U dist = tg ? q.get_distances_to_targets() : q.get_distances_to_sources(), used = tg ? q.get_used_sources_to_targets() : q.get_used_targets_to_sources();
				for (unsigned j = 0; j < len; ++j) {
					unsigned want = tg ? ref_distance(D[i], X, {{pinned[j], 0}}) : ref_distance(D[i], {{pinned[j], 0}}, X); std::string what = "pinned entry " + std::to_string(j); REQUIRE_EQ(dist[j], want, what << ": distance");
					if (want == INF) REQUIRE(out[j].arcs.empty() && !out[j].real, what << ": extra weight of an unreachable entry is not default constructed");
					else { uint64_t l = want - min_penalty(X, used[j]); if (tg) check_walk(H, out[j].arcs, used[j], pinned[j], l, what); else check_walk(H, out[j].arcs, pinned[j], used[j], l, what); longest = std::max(longest, out[j].arcs.size()); }
					REQUIRE_EQ(u1[j], fold_u(e, out[j].arcs), what << ": prepared unsigned extra weight"); REQUIRE_EQ(u2[j], u1[j], what << ": unsigned extra weight");
					bool p = false, n = false; int64_t a = 0; for (auto x : out[j].arcs) { (e.iw[x] < 0 ? n : p) = true; a += std::llabs((long long)e.iw[x]); }
					if (!(p && n && a > INT_MAX)) { REQUIRE_EQ(i1[j], fold_i(e, out[j].arcs), what << ": prepared int extra weight"); REQUIRE_EQ(i2[j], i1[j], what << ": int extra weight"); }
				}
			}
		}
	}
	REQUIRE(!g_linked_default, "a default constructed weight was passed to the link function");
	g.nontrivial(switches && longest >= 2); g.label("reuse");
}

// long paths: extra weights of grids and paths with thousands of nodes
static void big(pbt::Gen &g) {
	Graph H; unsigned n = H.n = g.range(3000, 70000); U name(n); std::iota(name.begin(), name.end(), 0u); if (g.chance(1, 2)) { uint64_t s = g.bits64(); for (unsigned i = n; i-- > 1;) std::swap(name[i], name[pbt::splitmix(s) % (i + 1)]); }
	uint64_t s = g.bits64(); auto add = [&](unsigned a, unsigned b) { H.tail.push_back(name[a]); H.head.push_back(name[b]); H.weight.push_back(1 + pbt::splitmix(s) % 100); };
	bool ladder = g.chance(1, 2); unsigned step = ladder ? 2 : 1; for (unsigned i = 0; i + step < n; ++i) { add(i, i + step); if (i % 3) add(i + step, i); } if (ladder) for (unsigned i = 0; i + 1 < n; i += 2) { if (i % 7 == 0) add(i, i + 1); if (i % 5 == 0) add(i + 1, i); }
	g.note() << (ladder ? "ladder" : "path") << " of " << n << " nodes";
	ContractionHierarchy ch = ContractionHierarchy::build(n, H.tail, H.head, H.weight); Extra e = draw_extra(g, 0); for (unsigned i = 0; i < H.m(); ++i) e.uw.push_back(pbt::splitmix(s) % 1000);
	ContractionHierarchyExtraWeight<unsigned> eu(ch, e.uw, SaturatedWeightAddition()); ContractionHierarchyQuery q(ch); size_t longest = 0;
	for (unsigned i = 0; i < 3; ++i) {
		unsigned a = i == 0 ? 0 : g.below(n), b = i == 0 ? n - 1 - (ladder && n % 2 == 0) : a + g.below(n - a); q.reset().add_source(name[a]).add_target(name[b]).run(); U arcs = q.get_arc_path(); unsigned d = q.get_distance(); longest = std::max(longest, arcs.size());
		if (d != INF) check_walk(H, arcs, name[a], name[b], d, "long path"); REQUIRE_EQ(q.get_extra_weight_distance(eu, SaturatedWeightAddition()), fold_u(e, arcs), "prepared unsigned extra weight of a long path"); REQUIRE_EQ(q.get_extra_weight_distance(e.uw, SaturatedWeightAddition()), fold_u(e, arcs), "unsigned extra weight of a long path");
		if (d != INF) { q.reset().pin_targets({name[b], name[a], name[b]}).add_source(name[a]).run_to_pinned_targets(); U r = q.get_extra_weight_distances_to_targets(eu, SaturatedWeightAddition()); REQUIRE_EQ(q.get_distances_to_targets(), (U{d, 0, d}), "pinned distance of a long path"); if (!ladder) REQUIRE_EQ(r, (U{fold_u(e, arcs), 0, fold_u(e, arcs)}), "extra weight of a pinned long path");
			q.reset().pin_sources({name[b], name[a]}).add_target(name[b]).run_to_pinned_sources(); r = q.get_extra_weight_distances_to_sources(eu, SaturatedWeightAddition()); REQUIRE_EQ(q.get_distances_to_sources(), (U{0, d}), "pinned distance of a long path"); if (!ladder) REQUIRE_EQ(r, (U{0, fold_u(e, arcs)}), "extra weight of a pinned long path"); }
	}
	g.nontrivial(longest > 1000); g.label("big");
}

static void saturated(pbt::Gen &g) {
	SaturatedWeightAddition add;
	auto du = [&]() -> unsigned { switch (g.below(4)) { case 0: return g.below(5); case 1: return INF - g.below(5); case 2: return g.below((uint64_t)INF + 1); default: return INF / 2 + g.below(4) - 2; } };
	auto di = [&]() -> int { switch (g.below(5)) { case 0: return (int)g.irange(-4, 4); case 1: return INT_MAX - (int)g.below(5); case 2: return INT_MIN + (int)g.below(5); case 3: return (int)g.irange(INT_MIN, INT_MAX); default: return (g.chance(1, 2) ? INT_MAX / 2 : INT_MIN / 2) + (int)g.irange(-3, 3); } };
	for (int k = 0; k < 200; ++k) {
		unsigned a = du(), b = du();
		uint64_t s = std::min<uint64_t>((uint64_t)a + b, INF);
		REQUIRE_EQ(add(a, b), (unsigned)s, "saturated sum of " << a << " and " << b);
		int x = di(), y = di();
		int64_t t = std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, (int64_t)x + y));
		REQUIRE_EQ(add(x, y), (int)t, "saturated sum of " << x << " and " << y);
	}
	g.nontrivial();
}

pbt::Check pbt::make_check() {
	return Check{"P05", "a folded path has at least three arcs (reuse: at least two arcs and a change of hierarchy; big: more than 1000 arcs; saturated addition: always)", {
		{"p2p_small", 80000, 2000000, [](Gen &g) { p2p(g, 10); }},
		{"p2p_medium", 5000, 120000, [](Gen &g) { p2p(g, 50); }},
		{"m2m_small", 80000, 2000000, [](Gen &g) { m2m(g, 10); }},
		{"m2m_medium", 5000, 120000, [](Gen &g) { m2m(g, 50); }},
		{"reuse_small", 30000, 800000, [](Gen &g) { reuse(g, 9); }},
		{"reuse_medium", 2500, 60000, [](Gen &g) { reuse(g, 40); }},
		{"big", 24, 300, big, 120},
		{"saturated_addition", 5000, 50000, saturated},
	}};
}
