// P27: the validators accept exactly the well-formed data.
#include "ch_common.hpp"
#include "cch_common.hpp"
#include <routingkit/customizable_contraction_hierarchy.h>
#include "verify.h"
using namespace chc;

template<class F> static bool rejects(const F &f) { try { f(); } catch (std::runtime_error &) { return true; } return false; }

static unsigned odd_value(pbt::Gen &g, unsigned limit) { switch (g.below(5)) { case 0: return limit; case 1: return INVALID; case 2: return limit ? limit - 1 : 0; case 3: return (unsigned)g.bits64(); default: return g.below(limit + 2); } }

// one random change, which may or may not make the data invalid
static void disturb(pbt::Gen &g, U &v, unsigned limit) {
	switch (g.below(6)) {
	case 0: v.push_back(odd_value(g, limit)); break;
	case 1: if (!v.empty()) v.pop_back(); break;
	case 2: if (!v.empty()) v[g.below(v.size())] = odd_value(g, limit); break;
	case 3: if (v.size() >= 2) std::swap(v[g.below(v.size())], v[g.below(v.size())]); break;
	case 4: if (!v.empty()) ++v[g.below(v.size())]; break;
	default: if (g.chance(1, 4)) v.clear(); else if (!v.empty()) --v[g.below(v.size())]; break;
	}
}

static bool sorted(const U &v, size_t a, size_t b) { for (size_t i = a + 1; i < b; ++i) if (v[i - 1] > v[i]) return false; return true; }
static bool index_ok(const U &first, size_t n) { return !first.empty() && first.front() == 0 && first.back() == n && sorted(first, 0, first.size()); }
static bool below(const U &v, unsigned limit) { for (auto x : v) if (x >= limit) return false; return true; }
static bool graph_ok(const U &first_out, const U &head) { return index_ok(first_out, head.size()) && below(head, first_out.size() - 1); }
static bool ipp_ok(unsigned period, const U &first, const U &dep, const U &tt) {
	if (!index_ok(first, dep.size()) || tt.size() != dep.size() || !below(dep, period)) return false;
	for (size_t a = 0; a + 1 < first.size(); ++a) if (first[a] == first[a + 1] || !sorted(dep, first[a], first[a + 1])) return false;
	return true;
}

static void make_graph(pbt::Gen &g, U &first_out, U &head) {
	unsigned n = g.below(8); first_out.assign(1, 0);
	for (unsigned x = 0; x < n; ++x) { unsigned k = g.below(4); for (unsigned i = 0; i < k; ++i) head.push_back(g.below(n)); first_out.push_back(head.size()); }
}

static void make_ipp(pbt::Gen &g, unsigned arcs, unsigned period, U &first, U &dep, U &tt) {
	first.assign(1, 0);
	for (unsigned a = 0; a < arcs; ++a) { U d; unsigned k = 1 + g.below(3); for (unsigned i = 0; i < k; ++i) d.push_back(g.below(period)); std::sort(d.begin(), d.end()); dep.insert(dep.end(), d.begin(), d.end()); first.push_back(dep.size()); }
	for (size_t i = 0; i < dep.size(); ++i) tt.push_back(g.below(100));
}

static void graph(pbt::Gen &g) {
	U f, h; make_graph(g, f, h);
	REQUIRE(!rejects([&] { RoutingKit::check_if_graph_is_valid(f, h); }), "a valid graph was rejected: " << pbt::show(f) << " " << pbt::show(h));
	unsigned n = f.size() - 1, k = 1 + g.below(2);
	for (unsigned i = 0; i < k; ++i) { if (g.chance(1, 2)) disturb(g, f, h.size()); else disturb(g, h, n); }
	bool want = !graph_ok(f, h); g.note() << "first_out " << pbt::show(f) << " head " << pbt::show(h) << (want ? " invalid" : " valid"); g.label(want ? "invalid" : "valid");
	REQUIRE_EQ(rejects([&] { RoutingKit::check_if_graph_is_valid(f, h); }), want, "graph rejected");
	g.nontrivial(n >= 2);
}

static void time_dependent(pbt::Gen &g) {
	unsigned period = 1 + g.below(50); U f, h, first, dep, tt; make_graph(g, f, h); make_ipp(g, h.size(), period, first, dep, tt);
	REQUIRE(!rejects([&] { RoutingKit::check_if_td_graph_is_valid(period, f, h, first, dep, tt); }), "a valid time dependent graph was rejected");
	REQUIRE(!rejects([&] { RoutingKit::check_if_arc_ipp_are_valid(period, first, dep, tt); }), "valid interpolation points were rejected");
	unsigned n = f.size() - 1, k = 1 + g.below(2);
	for (unsigned i = 0; i < k; ++i) switch (g.below(6)) { case 0: disturb(g, f, h.size()); break; case 1: disturb(g, h, n); break; case 2: disturb(g, first, dep.size()); break; case 3: disturb(g, dep, period); break; case 4: disturb(g, tt, 100); break; default: period = g.below(period + 1); }
	bool ipp = !ipp_ok(period, first, dep, tt), all = ipp || !graph_ok(f, h) || first.size() != h.size() + 1;
	g.note() << "period " << period << " first_out " << pbt::show(f) << " head " << pbt::show(h) << " first_ipp " << pbt::show(first) << " departure " << pbt::show(dep) << " travel " << pbt::show(tt); g.label(all ? "invalid" : "valid");
	REQUIRE_EQ(rejects([&] { RoutingKit::check_if_arc_ipp_are_valid(period, first, dep, tt); }), ipp, "interpolation points rejected");
	REQUIRE_EQ(rejects([&] { RoutingKit::check_if_td_graph_is_valid(period, f, h, first, dep, tt); }), all, "time dependent graph rejected");
	g.nontrivial(h.size() >= 2);
}

static void queries(pbt::Gen &g) {
	unsigned period = 1 + g.below(50), n = 1 + g.below(9), k = g.below(6); U s, st, t, r;
	for (unsigned i = 0; i < k; ++i) { s.push_back(g.below(n)); st.push_back(g.below(period)); t.push_back(g.below(n)); r.push_back(g.below(32)); }
	REQUIRE(!rejects([&] { RoutingKit::check_if_sst_queries_are_valid(period, n, s, st, t, r); }), "valid queries were rejected");
	switch (g.below(6)) { case 0: disturb(g, s, n); break; case 1: disturb(g, st, period); break; case 2: disturb(g, t, n); break; case 3: disturb(g, r, 32); break; case 4: n = g.below(n + 1); break; default: period = g.below(period + 1); }
	bool want = !below(s, n) || !below(t, n) || !below(st, period) || st.size() != s.size() || t.size() != s.size() || r.size() != s.size();
	g.note() << "period " << period << " nodes " << n << " source " << pbt::show(s) << " time " << pbt::show(st) << " target " << pbt::show(t) << " rank " << pbt::show(r); g.label(want ? "invalid" : "valid");
	REQUIRE_EQ(rejects([&] { RoutingKit::check_if_sst_queries_are_valid(period, n, s, st, t, r); }), want, "queries rejected");
	g.nontrivial(k >= 1);
}

// a hierarchy from any of the ways to get one
static ContractionHierarchy draw_any(pbt::Gen &g, const Graph &G) {
	if (g.chance(1, 4)) {
		RoutingKit::CustomizableContractionHierarchy cch(draw_permutation(g, G.n), G.tail, G.head, [](const std::string &) {}, g.chance(1, 2));
		U w = cchc::padded(G.weight); RoutingKit::CustomizableContractionHierarchyMetric m(cch, w);
		return m.build_contraction_hierarchy_using_perfect_witness_search();
	}
	ContractionHierarchy ch = draw_ch(g, G);
	if (g.chance(1, 4)) { std::stringstream s; ch.write(s); ch = ContractionHierarchy::read(s); }
	return ch;
}

// A hierarchy with one broken field is refused by the validator; the untouched one is accepted.
static void hierarchy(pbt::Gen &g) {
	Graph G = draw_graph(g, 14, g.chance(1, 2) ? w_small : draw_mode(g));
	ContractionHierarchy ch = draw_any(g, G);
	RoutingKit::check_contraction_hierarchy_for_errors(ch);
	unsigned n = ch.rank.size(); bool fwd = g.chance(1, 2); auto &S = fwd ? ch.forward : ch.backward; unsigned m = S.head.size();
	auto arc = [&] { if (m == 0) throw pbt::Discard{}; return (unsigned)g.below(m); };
	auto of_kind = [&](bool original) { U c; for (unsigned a = 0; a < m; ++a) if (S.is_shortcut_an_original_arc.is_set(a) == original) c.push_back(a); if (c.empty()) throw pbt::Discard{}; return g.pick(c); };
	auto resize = [&](U &v) { if (v.empty() || g.chance(1, 2)) v.push_back(g.below(n + 1)); else v.pop_back(); };
	auto big = [&](unsigned limit) -> unsigned { switch (g.below(3)) { case 0: return limit; case 1: return INVALID; default: return limit + (unsigned)g.below(INVALID - limit); } };
	std::string what;
	switch (g.below(21)) {
	case 0: what = "rank swapped"; { if (n < 2) throw pbt::Discard{}; unsigned i = g.below(n), j = g.below(n); if (i == j) throw pbt::Discard{}; std::swap(ch.rank[i], ch.rank[j]); } break;
	case 1: what = "order swapped"; { if (n < 2) throw pbt::Discard{}; unsigned i = g.below(n), j = g.below(n); if (i == j) throw pbt::Discard{}; std::swap(ch.order[i], ch.order[j]); } break;
	case 2: what = "order entry repeated"; { if (n < 2) throw pbt::Discard{}; unsigned i = g.below(n), j = g.below(n); if (i == j) throw pbt::Discard{}; ch.order[i] = ch.order[j]; } break;
	case 3: what = "order entry out of range"; ch.order[g.below(n)] = big(n); break;
	case 4: what = "rank entry out of range"; ch.rank[g.below(n)] = big(n); break;
	case 5: what = "rank size"; resize(ch.rank); break;
	case 6: what = "order size"; resize(ch.order); break;
	case 7: what = "first_out size"; resize(S.first_out); break;
	case 8: what = "head size"; resize(S.head); break;
	case 9: what = "weight size"; resize(S.weight); break;
	case 10: what = "shortcut_first_arc size"; resize(S.shortcut_first_arc); break;
	case 11: what = "shortcut_second_arc size"; resize(S.shortcut_second_arc); break;
	case 12: what = "original arc flags size"; S.is_shortcut_an_original_arc.resize(m + 1 + g.below(3)); break;
	case 13: what = "first_out front"; S.first_out[0] = 1 + g.below(3); break;
	case 14: what = "first_out not monotone"; { unsigned i = g.below(n); S.first_out[i] = S.first_out[i + 1] + 1 + g.below(3); } break;
	case 15: what = "head out of range"; S.head[arc()] = big(n); break;
	case 16: what = "arc not upward"; { unsigned a = arc(), x = 0; while (S.first_out[x + 1] <= a) ++x; S.head[a] = g.below(x + 1); } break;
	case 17: what = "half of a shortcut out of range"; { unsigned a = of_kind(false); bool first = g.chance(1, 2); (first ? S.shortcut_first_arc : S.shortcut_second_arc)[a] = big(first ? ch.backward.head.size() : ch.forward.head.size()); } break;
	case 18: what = "shortcut weight"; { unsigned a = of_kind(false); unsigned k = g.below(3); if (k == 0) S.weight[a] += 1 + g.below(3); else if (k == 1) S.weight[a] -= 1 + g.below(3); else S.weight[a] += 1 + (unsigned)g.below(INVALID - 1); } break;
	case 19: what = "half of a shortcut not below it"; { // with the same weight, so that the sums still fit
		U &own = fwd ? S.shortcut_second_arc : S.shortcut_first_arc; std::vector<std::pair<unsigned, unsigned>> c; for (unsigned a = 0; a < m; ++a) if (!S.is_shortcut_an_original_arc.is_set(a)) for (unsigned b = a; b < m; ++b) if (S.weight[b] == S.weight[own[a]]) c.push_back({a, b});
		if (c.empty()) throw pbt::Discard{}; auto x = g.pick(c); own[x.first] = x.second; } break;
	default: what = "ids of an original arc"; { unsigned a = of_kind(true); if (g.chance(1, 2)) S.shortcut_first_arc[a] = INVALID; else S.shortcut_second_arc[a] = big(n); } break;
	}
	g.note() << G.str() << " " << (fwd ? "forward " : "backward ") << what; g.label("broken:" + what);
	bool thrown = false;
	try { RoutingKit::check_contraction_hierarchy_for_errors(ch); } catch (std::exception &) { thrown = true; }
	REQUIRE(thrown, "the validator accepted a hierarchy with " << what << " broken");
	g.nontrivial(n > 1);
}

// large hierarchies built by the library are accepted
static void wide(pbt::Gen &g) {
	Graph G; ContractionHierarchy ch = draw_wide_ch(g, G); RoutingKit::check_contraction_hierarchy_for_errors(ch); g.nontrivial();
	if (ch.forward.head.empty()) return; unsigned a = g.below(ch.forward.head.size()), x = 0; while (ch.forward.first_out[x + 1] <= a) ++x;
	ch.forward.head[a] = g.below(x + 1); bool thrown = false; try { RoutingKit::check_contraction_hierarchy_for_errors(ch); } catch (std::exception &) { thrown = true; }
	REQUIRE(thrown, "the validator accepted a large hierarchy with an arc that does not lead upward");
}

pbt::Check pbt::make_check() {
	return Check{"P27", "graph: at least two nodes; time dependent: at least two arcs; queries: at least one query; hierarchy: at least two nodes", {
		{"graph", 60000, 1200000, graph},
		{"time_dependent", 60000, 1200000, time_dependent},
		{"queries", 40000, 800000, queries},
		{"hierarchy", 40000, 600000, hierarchy},
		{"wide", 40, 1000, wide, 300},
	}};
}
