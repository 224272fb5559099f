// P24: independent objects may be used by several threads at once on shared, unchanging data.
#include "cch_common.hpp"
#include "osm_world.hpp"
#include "verify.h"
#include <routingkit/dijkstra.h>
#include <routingkit/geo_position_to_node.h>
#include <routingkit/osm_decoder.h>
#include <routingkit/osm_simple.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <routingkit/nested_dissection.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/vector_io.h>
#include <routingkit/osm_profile.h>
#include <routingkit/osm_graph_builder.h>
#include <routingkit/graph_util.h>
#include <routingkit/filter.h>
#include <routingkit/id_mapper.h>
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/geo_dist.h>
#include <routingkit/timestamp_flag.h>
#include <functional>
#include <random>
#include <sstream>
#include <atomic>
#include <thread>
using namespace cchc;
using namespace RoutingKit;

struct Shared {
	Graph G; std::vector<U> D, D2; U w2, first_out, tail, head, weight; std::vector<U> extra; // sorted copy of the graph for Dijkstra
	ContractionHierarchy ch; Cch cch; Metric metric; std::vector<float> lat, lon; GeoPositionToNode geo; std::string pbf_name; unsigned pbf_nodes = 0, pbf_ways = 0; mutable Parallel par; ContractionHierarchyExtraWeight<unsigned> ew; std::vector<unsigned> arc_extra; std::vector<bool> largest; std::vector<std::string> file;
};
struct Op { unsigned kind, s, t; U list; };

static void execute(const Shared &S, const Op &o, unsigned thread, ContractionHierarchyQuery &chq, Query &cq) {
	auto &G = S.G; Terminals a{{o.s, 0}}, b{{o.t, 0}};
	switch (o.kind) {
	case 0: { chq.reset().add_source(o.s).add_target(o.t).run(); unsigned d = chq.get_distance(); REQUIRE_EQ(d, S.D[o.s][o.t], "CH distance " << o.s << "->" << o.t << " in thread " << thread); check_path(G, G.weight, a, b, d, chq.get_node_path(), chq.get_arc_path(), chq.get_used_source(), chq.get_used_target(), "CH query in a thread"); unsigned e = chq.get_extra_weight_distance(S.ew, [](unsigned x, unsigned y) { return x + y; }); unsigned want = 0; for (auto x : chq.get_arc_path()) want += S.arc_extra[x]; if (d != INF) REQUIRE_EQ(e, want, "extra weight in a thread"); break; }
	case 1: { chq.reset().pin_targets(o.list).add_source(o.s).run_to_pinned_targets(); U d = chq.get_distances_to_targets(); for (unsigned i = 0; i < o.list.size(); ++i) REQUIRE_EQ(d[i], S.D[o.s][o.list[i]], "CH pinned distance in thread " << thread); break; }
	case 2: { cq.reset().add_source(o.s).add_target(o.t).run(); check_cch_query(G, G.weight, cq, a, b, S.D[o.s][o.t], "CCH query in a thread"); break; }
	case 3: { cq.reset().pin_sources(o.list).add_target(o.t).run_to_pinned_sources(); U d = cq.get_distances_to_sources(); for (unsigned i = 0; i < o.list.size(); ++i) REQUIRE_EQ(d[i], S.D[o.list[i]][o.t], "CCH pinned distance in thread " << thread); break; }
	case 4: { const U &w = o.s % 2 ? S.w2 : G.weight; Metric m(S.cch, w); m.customize(); Query q(m); q.add_source(o.s).add_target(o.t).run(); check_cch_query(G, w, q, a, b, (o.s % 2 ? S.D2 : S.D)[o.s][o.t], "CCH with own metric in a thread"); break; }
	case 5: { Metric m(S.cch, S.w2); m.customize(); Partial p(S.cch); m.reset(G.weight); for (unsigned i = 0; i < G.m(); ++i) p.update_arc(i); p.customize(m); Query q(m); q.add_source(o.s).add_target(o.t).run(); check_cch_query(G, G.weight, q, a, b, S.D[o.s][o.t], "CCH with partial customization in a thread"); break; }
	case 6: { Metric m(S.cch, S.w2); ContractionHierarchy c = m.customize().build_contraction_hierarchy_using_perfect_witness_search(); ContractionHierarchyQuery q(c); REQUIRE_EQ(q.add_source(o.s).add_target(o.t).run().get_distance(), S.D2[o.s][o.t], "CH from perfect customization in a thread"); break; }
	case 7: { ContractionHierarchy c = ContractionHierarchy::build(G.n, G.tail, G.head, S.w2); ContractionHierarchyQuery q(c); REQUIRE_EQ(q.add_source(o.s).add_target(o.t).run().get_distance(), S.D2[o.s][o.t], "CH built in a thread"); break; }
	case 8: { Dijkstra d(S.first_out, S.tail, S.head); d.add_source(o.s); while (!d.is_finished()) d.settle(ScalarGetWeight(S.weight)); for (unsigned x = 0; x < G.n; ++x) REQUIRE_EQ(d.get_distance_to(x), S.D[o.s][x], "Dijkstra in a thread"); break; }
	case 9: { if (S.lat.empty()) break; auto r = S.geo.find_nearest_neighbor_within_radius(S.lat[o.s], S.lon[o.s], 100000); REQUIRE(r.id < G.n && std::fabs(S.lat[r.id] - S.lat[o.s]) < 1e-4 && std::fabs(S.lon[r.id] - S.lon[o.s]) < 1e-4, "nearest neighbour in a thread"); auto v = S.geo.find_all_nodes_within_radius(S.lat[o.s], S.lon[o.s], 40000000); REQUIRE_EQ((uint64_t)v.size(), (uint64_t)G.n, "all nodes on earth in a thread"); break; }
	case 10: { unsigned n = 0, w = 0; if (o.s % 2) ordered_read_osm_pbf(S.pbf_name, [&](uint64_t, double, double, const TagMap &t) { n += t["k"] != nullptr; }, [&](uint64_t, const std::vector<uint64_t> &, const TagMap &t) { w += t["highway"] != nullptr; }, nullptr); else unordered_read_osm_pbf(S.pbf_name, [&](uint64_t, double, double, const TagMap &t) { n += t["k"] != nullptr; }, [&](uint64_t, const std::vector<uint64_t> &, const TagMap &t) { w += t["highway"] != nullptr; }, nullptr); REQUIRE_EQ(n, S.pbf_nodes, "OSM nodes read in a thread"); REQUIRE_EQ(w, S.pbf_ways, "OSM ways read in a thread"); break; }
	case 11: { U h = S.head; auto p = compute_sort_permutation_using_key(h, G.n, [](unsigned x) { return x; }); U sorted = apply_permutation(p, h); REQUIRE(std::is_sorted(sorted.begin(), sorted.end()), "sorting in a thread"); const std::string &f = S.file[thread]; save_vector(f, sorted); REQUIRE(load_vector<unsigned>(f) == sorted, "vector stored in a thread"); break; }
	case 13: { auto c = compute_largest_strongly_connected_component(S.first_out, S.head); for (unsigned x = 0; x < G.n; ++x) REQUIRE_EQ((bool)c[x], (bool)S.largest[x], "largest component in a thread"); break; }
	case 14: { U ord = compute_nested_node_dissection_order_using_inertial_flow(G.n, G.tail, G.head, S.lat, S.lon); std::vector<bool> seen(G.n); REQUIRE_EQ((uint64_t)ord.size(), (uint64_t)G.n, "order computed in a thread"); for (auto x : ord) { REQUIRE(x < G.n && !seen[x], "order computed in a thread is not a permutation"); seen[x] = true; } break; }
	case 15: { Cch c(o.list, G.tail, G.head); Metric m(c, G.weight); m.customize(); Query q(m); q.add_source(o.s).add_target(o.t).run(); check_cch_query(G, G.weight, q, a, b, S.D[o.s][o.t], "CCH built in a thread"); break; }
	default: { Metric m(S.cch, G.weight); 
#ifdef __SANITIZE_THREAD__
		S.par.customize(m, 1);
#else
		S.par.customize(m, 1 + (o.s + thread) % 3); // one object serves metrics of several threads at the same time
#endif
		 Query q(m); q.add_source(o.s).add_target(o.t).run(); check_cch_query(G, G.weight, q, a, b, S.D[o.s][o.t], "CCH customized through a parallelization in a thread"); }
	}
}

static void threads(pbt::Gen &g) {
	Shared S; WeightMode mode = g.chance(1, 2) ? w_medium : w_small; S.G = draw_graph(g, 40, mode); Graph &G = S.G; if (!G.m()) throw pbt::Discard{}; g.note() << G.str();
	for (unsigned i = 0; i < G.m(); ++i) S.w2.push_back(draw_weight(g, w_medium)); S.D = ref_all_pairs(G); S.D2 = ref_all_pairs(G, &S.w2);
	S.ch = draw_ch(g, G); S.cch = draw_cch(g, G); S.metric = Metric(S.cch, G.weight); S.metric.customize(); S.par = Parallel(S.cch);
	for (unsigned i = 0; i < G.m(); ++i) S.arc_extra.push_back(g.below(1000)); S.ew = ContractionHierarchyExtraWeight<unsigned>(S.ch, S.arc_extra, [](unsigned a, unsigned b) { return a + b; });
	for (unsigned i = 0; i < G.n; ++i) { S.lat.push_back((float)g.irange(-80, 80) + (float)i / 64); S.lon.push_back((float)g.irange(-170, 170) + (float)i / 128); } S.geo = GeoPositionToNode(S.lat, S.lon);
	{ Adj a = build_adj(G); for (unsigned x = 0; x < G.n; ++x) { S.first_out.push_back(S.tail.size()); for (unsigned i = a.first[x]; i < a.first[x + 1]; ++i) { S.tail.push_back(x); S.head.push_back(G.head[a.arc[i]]); S.weight.push_back(G.weight[a.arc[i]]); } } S.first_out.push_back(S.tail.size()); }
	{ // which component is chosen among equally large ones is not part of this property
		auto c = compute_largest_strongly_connected_component(S.first_out, S.head); for (unsigned x = 0; x < G.n; ++x) S.largest.push_back((bool)c[x]); }
	bool osm = g.chance(1, 8); if (osm) { pbf::File f; f.header(pbf::zlib, true); pbf::Block B; std::vector<pbf::Node> ns; for (unsigned i = 0; i < 30; ++i) { pbf::Node n{i, (int64_t)i * 1000, (int64_t)i * 900, {}}; if (i % 3 == 0) { n.tags.push_back({"k", std::to_string(i)}); ++S.pbf_nodes; } ns.push_back(n); } B.dense(ns); std::vector<pbf::Way> ws; for (unsigned i = 0; i < 12; ++i) { pbf::Way w{i, {i, i + 1, i + 2}, {}}; if (i % 2) { w.tags.push_back({"highway", "residential"}); ++S.pbf_ways; } ws.push_back(w); } pbf::Block B2; B2.ways(ws); f.add(B, pbf::zlib); f.add(B2, pbf::zlib); S.pbf_name = pbt::scratch_file("c.pbf"); f.save(S.pbf_name); }
	for (unsigned i = 0; i < 8; ++i) S.file.push_back(pbt::scratch_file("t" + std::to_string(i)));
	unsigned k = 2 + g.below(5), per = 2 + g.below(10); std::vector<std::vector<Op>> ops(k); std::set<unsigned> kinds;
	bool one_kind = g.chance(1, 2); static const std::vector<unsigned> all = {0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14, 15, 16}; unsigned only = osm ? 10 : g.pick(all);
	for (auto &v : ops) for (unsigned i = 0; i < per; ++i) { Op o; o.kind = one_kind || osm ? only : g.pick(all); o.s = g.below(G.n); o.t = g.below(G.n); if (o.kind == 15) o.list = draw_order(g, G.n); else { unsigned l = g.below(6); for (unsigned j = 0; j < l; ++j) o.list.push_back(g.below(G.n)); } kinds.insert(o.kind); v.push_back(o); if (osm && i >= 1) break; }
	g.note() << " " << k << " threads, operations"; for (auto x : kinds) { g.note() << " " << x; g.label("operation " + std::to_string(x)); }
	unsigned reps = osm ? 2 : 4; const Shared &C = S; ContractionHierarchyQuery proto(S.ch); Query cproto(S.metric); bool copies = g.chance(1, 3); // query objects copied from one prototype must be independent
	if (copies) { proto.reset().add_source(ops[0][0].s).add_target(ops[0][0].t).run(); cproto.reset().add_source(ops[0][0].s).add_target(ops[0][0].t).run(); }
	for (unsigned r = 0; r < reps; ++r) {
		std::atomic<unsigned> ready{0}; std::vector<std::exception_ptr> err(k); std::vector<std::thread> ts;
		for (unsigned i = 0; i < k; ++i) ts.emplace_back([&, i] { try { ContractionHierarchyQuery q; Query c; if (copies) { q = proto; c = cproto; } else { q.reset(C.ch); c.reset(C.metric); } ++ready; while (ready < k) std::this_thread::yield(); for (auto &o : ops[i]) execute(C, o, i, q, c); } catch (...) { ready += 1000; err[i] = std::current_exception(); } });
		for (auto &t : ts) t.join();
		for (auto &e : err) if (e) std::rethrow_exception(e);
	}
	g.nontrivial(k >= 2 && G.n > 3);
}
// Every other public function: several threads call them at once, each result has to be the one a single thread got before.
struct Out { std::ostringstream o; template <class T> Out &operator<<(const std::vector<T> &v) { o << v.size() << "("; for (auto x : v) o << +x << ","; o << ")"; return *this; } Out &operator<<(const BitVector &v) { o << v.size() << "b"; for (uint64_t i = 0; i < v.size(); ++i) o << v.is_set(i); return *this; } template <class T> Out &operator<<(const T &x) { o << x << ";"; return *this; } };
typedef std::function<void(Out &, unsigned)> Fn;

static void functions(pbt::Gen &g) {
	Graph G = draw_graph(g, 60, w_medium); if (!G.m()) throw pbt::Discard{}; unsigned n = G.n, m = G.m(); g.note() << G.str(); uint64_t st = g.bits64();
	unsigned big = g.chance(1, 3) ? g.range(2000, 20000) : g.range(1, 300); U keys(big), fine; for (auto &x : keys) x = pbt::splitmix(st) % (big / 3 + 1); fine = keys; for (auto &x : fine) x = (unsigned)pbt::splitmix(st);
	U perm = draw_permutation(g, m), order = draw_order(g, n); BitVector bits(big); for (unsigned i = 0; i < big; ++i) bits.set(i, pbt::splitmix(st) & 1); LocalIDMapper shared_mapper(bits); IDMapper shared_map(bits);
	std::vector<float> lat, lon; for (unsigned i = 0; i < n; ++i) { lat.push_back((float)g.irange(-80, 80) + (float)i / 64); lon.push_back((float)g.irange(-170, 170) + (float)i / 128); }
	U first_out, tail, head, weight; { Adj a = build_adj(G); for (unsigned x = 0; x < n; ++x) { first_out.push_back(tail.size()); std::vector<std::pair<unsigned, unsigned>> l; for (unsigned i = a.first[x]; i < a.first[x + 1]; ++i) l.push_back({G.head[a.arc[i]], G.weight[a.arc[i]]}); std::sort(l.begin(), l.end()); for (auto &y : l) { tail.push_back(x); head.push_back(y.first); weight.push_back(y.second); } } first_out.push_back(tail.size()); }
	const ContractionHierarchy ch = draw_ch(g, G); const Cch cch = draw_cch(g, G); GraphFragment whole = make_graph_fragment(n, G.tail, G.head); std::vector<std::string> file; for (unsigned i = 0; i < 8; ++i) file.push_back(pbt::scratch_file("u" + std::to_string(i)));
	U extra(m); for (auto &x : extra) x = g.below(1000); Metric base(cch, G.weight); base.customize();
	// a small road network with tags and turn restrictions
	osmw::WorldOptions wo; wo.id_modes = 6; osmw::World W = osmw::draw_world(g, wo); static const std::vector<std::string> hw = {"residential", "primary", "motorway", "footway", "cycleway", "track", "steps"}, sp = {"30", "50 mph", "none", "walk", "100;80", "DE:urban", "x", "signals"}, ow = {"yes", "-1", "no", "reversible"};
	for (auto &w : W.ways) { w.tags.push_back({"highway", g.pick(hw)}); if (g.chance(1, 2)) w.tags.push_back({"maxspeed", g.pick(sp)}); if (g.chance(1, 2)) w.tags.push_back({"oneway", g.pick(ow)}); if (g.chance(1, 2)) w.tags.push_back({"name", "road " + std::to_string(w.id)}); if (g.chance(1, 4)) w.tags.push_back({"ref", "B" + std::to_string(w.id)}); if (g.chance(1, 4)) w.tags.push_back({"junction", "roundabout"}); if (g.chance(1, 4)) w.tags.push_back({"bicycle", "designated"}); }
	if (W.ways.size() > 1) for (unsigned i = 0; i < 3; ++i) { auto &a = W.ways[g.below(W.ways.size())], &b = W.ways[g.below(W.ways.size())]; pbf::Relation r; r.id = i + 1; r.members = {{1, a.id, "from"}, {1, b.id, "to"}}; if (!a.nodes.empty() && g.chance(2, 3)) r.members.push_back({0, g.pick(a.nodes), "via"}); r.tags = {{"type", "restriction"}, {"restriction", g.pick(std::vector<std::string>{"no_left_turn", "only_straight_on", "no_u_turn", "only_right_turn"})}}; W.rels.push_back(r); }
	std::string pbf_name = pbt::scratch_file("w.pbf"); osmw::write_world(g, W, pbf_name);
	auto tags_of = [](const pbf::Tags &t) { TagMap x; x.build(t.size(), [&](uint64_t i) { return t[i].first.c_str(); }, [&](uint64_t i) { return t[i].second.c_str(); }); return x; };
	auto key = [](unsigned x) { return x; }; unsigned kc = big / 3 + 1; std::vector<std::pair<const char *, Fn>> F;
	F.push_back({"sort", [&](Out &o, unsigned) { o << compute_sort_permutation_using_key(keys, kc, key) << compute_inverse_sort_permutation_using_key(keys, kc, key) << compute_stable_sort_permutation_using_key(keys, kc, key) << compute_inverse_stable_sort_permutation_using_key(keys, kc, key) << sort_using_key(keys, kc, key) << stable_sort_using_key(keys, kc, key) << is_sorted_using_key(keys, kc, key) << sort_using_key(U(keys), kc, key) << stable_sort_using_key(U(keys), kc, key); }});
	F.push_back({"sort by comparison", [&](Out &o, unsigned) { o << compute_stable_sort_permutation_using_less(fine) << compute_inverse_stable_sort_permutation_using_less(keys) << sort_using_less(fine) << stable_sort_using_comparator(keys, [](unsigned a, unsigned b) { return a > b; }) << is_sorted_using_less(fine) << sort_using_less(U(fine)) << stable_sort_using_less(U(fine)); }});
	F.push_back({"permutations", [&](Out &o, unsigned) { std::mt19937 r(big); U q = random_permutation(m, r); o << q << apply_permutation(perm, extra) << apply_inverse_permutation(perm, extra) << chain_permutation_first_left_then_right(perm, q) << invert_permutation(perm) << is_permutation(perm) << identity_permutation(m) << apply_permutation_to_elements_of(perm, q); U e = extra; for (auto &x : e) x = x % 2 ? x % m : invalid_id; inplace_apply_permutation_to_possibly_invalid_elements_of(perm, e); o << e; }});
	F.push_back({"inverse vectors", [&](Out &o, unsigned) { o << invert_vector(tail, n) << invert_inverse_vector(first_out); }});
	F.push_back({"graph utilities", [&](Out &o, unsigned) { o << compute_inverse_sort_permutation_first_by_tail_then_by_head(n, G.tail, G.head) << compute_sort_permutation_first_by_left_then_by_right(n, G.tail, n, G.head); U t = G.tail; o << compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n, t, G.head) << t; t = G.tail; o << compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n, t, G.head) << t; for (unsigned x = 0; x < n; ++x) o << find_arc_or_return_invalid(first_out, head, x, n - 1 - x) << find_arc_or_return_invalid_given_sorted_head(first_out, head, x, x / 2); U p; for (unsigned i = 0, x = 0; i < 20 && first_out[x] != first_out[x + 1]; ++i) { p.push_back(first_out[x]); x = head[first_out[x]]; } U np = convert_arc_path_to_node_path(0, head, p); o << np << convert_node_path_to_arc_path(first_out, head, np); }});
	F.push_back({"ID mappers", [&](Out &o, unsigned) { LocalIDMapper a(bits); IDMapper b(bits); for (unsigned i = 0; i < big; ++i) { o << a.to_local(i, invalid_id) << b.to_local(i, invalid_id) << shared_mapper.to_local(i, 7) << shared_map.to_local(i, 7); } for (unsigned i = 0; i < b.local_id_count(); ++i) o << b.to_global(i) << shared_map.to_global(i); }});
	F.push_back({"filters", [&](Out &o, unsigned) { o << keep_element_of_vector_if(bits, fine) << remove_element_from_vector_if(bits, fine); }});
	F.push_back({"bit vectors", [&](Out &o, unsigned) { BitVector c = bits; c.resize(big + 700, true); BitVector e = bits; e.resize(big + 600, BitVector::uninitialized); for (unsigned i = big; i < big + 600; ++i) e.set(i, i % 5 == 0); o << e; e.resize(big / 2, BitVector::uninitialized); o << e << e.population_count(); BitVector d(big + 700); d.set(big / 2); o << (c ^ d) << (c & d) << ~bits << c.population_count() << (bits < c) << (bits == bits) << bits.is_any_set() << bits.are_all_set() << (uint64_t)make_bit_vector(big, [](uint64_t x) { return x % 3 == 0; }).population_count(); }});
	F.push_back({"queues", [&](Out &o, unsigned) { MinIDQueue q(big); for (unsigned i = 0; i < big; ++i) q.push({i, fine[i] % 1000}); for (unsigned i = 0; i < big; i += 3) q.decrease_key({i, fine[i] % 500}); U keys_out; while (!q.empty()) keys_out.push_back(q.pop().key); o << keys_out; IDSetMinQueue s(big); for (auto x : keys) s.push(x); U ids; while (!s.empty()) ids.push_back(s.pop()); o << ids; TimestampFlags t(big); t.set(big / 2); t.reset_all(); o << t.is_set(big / 2); }});
	F.push_back({"components", [&](Out &o, unsigned) { auto c = compute_largest_strongly_connected_component(first_out, head); auto scc = compute_strongly_connected_components(first_out, head); o << c << scc.component_of << scc.component_count; for (auto &x : decompose_graph_fragment_into_connected_components(whole)) o << x.global_node_id << x.first_out << x.head << x.tail << x.back_arc; }});
	F.push_back({"nested dissection", [&](Out &o, unsigned) { auto sep = [&](const GraphFragment &f) { auto c = inertial_flow(f, 30, lat, lon); pick_smaller_side(c); return derive_separator_from_cut(f, c.is_node_on_side); }; o << compute_nested_node_dissection_order(whole, sep); auto d = compute_separator_decomposition(whole, sep); o << d.order; for (auto &x : d.tree) o << x.left_child << x.right_sibling << x.first_separator_vertex << x.last_separator_vertex; o << compute_nested_node_dissection_order_using_inertial_flow(n, G.tail, G.head, lat, lon); }});
	F.push_back({"CH", [&](Out &o, unsigned t) { std::string said; ContractionHierarchy c = ContractionHierarchy::build(n, G.tail, G.head, G.weight, [&](std::string x) { if (x.find("degree") != std::string::npos) said += x; }); o << said.c_str(); c.save_file(file[t]); ContractionHierarchy d = ContractionHierarchy::load_file(file[t]), e = ContractionHierarchy::build_given_order(order, G.tail, G.head, G.weight); for (auto *x : {&c, &d, &e}) { o << x->rank << x->order << x->forward.head << x->backward.weight; check_contraction_hierarchy_for_errors(*x); } o << (c.forward.first_out == d.forward.first_out); }});
	F.push_back({"CH extra weights", [&](Out &o, unsigned) { ContractionHierarchyExtraWeight<unsigned> x(ch, extra, [](unsigned a, unsigned b) { return a + b; }); ContractionHierarchyQuery q(ch); for (unsigned i = 0; i < n; i += 3) { q.reset().add_source(i).add_target(n - 1 - i).run(); if (q.get_distance() != INF) o << q.get_distance() << q.get_extra_weight_distance(x, [](unsigned a, unsigned b) { return a + b; }); else o << "no path"; } }});
	F.push_back({"CH pinned sources", [&](Out &o, unsigned) { ContractionHierarchyQuery q(ch); U l = {0, n / 2, n - 1}; q.pin_sources(l); for (unsigned i = 0; i < n; i += 4) o << q.reset_target().add_target(i).run_to_pinned_sources().get_distances_to_sources(); }});
	F.push_back({"CH pinned extra weights", [&](Out &o, unsigned) { auto add = [](unsigned a, unsigned b) { return a + b; }; ContractionHierarchyExtraWeight<unsigned> x(ch, extra, add); ContractionHierarchyQuery q(ch); U l; for (unsigned i = 0; i < n; i += 1 + n / 8) l.push_back(i); U tmp(n);
		for (unsigned i = 0; i < n; i += 5) { q.reset().pin_targets(l).add_source(i).run_to_pinned_targets(); U d = q.get_distances_to_targets(), us = q.get_used_sources_to_targets(), e[4] = {q.get_extra_weight_distances_to_targets(x, add), q.get_extra_weight_distances_to_targets(extra, add), q.get_extra_weight_distances_to_targets(x, add, tmp), q.get_extra_weight_distances_to_targets(extra, add, tmp)}; o << d; for (unsigned j = 0; j < l.size(); ++j) o << (d[j] == INF ? 0 : us[j]); for (auto &v : e) for (unsigned j = 0; j < l.size(); ++j) o << (d[j] == INF ? 0 : v[j]);
			q.reset().pin_sources(l).add_target(i).run_to_pinned_sources(); d = q.get_distances_to_sources(); us = q.get_used_targets_to_sources(); U f[4] = {q.get_extra_weight_distances_to_sources(x, add), q.get_extra_weight_distances_to_sources(extra, add), q.get_extra_weight_distances_to_sources(x, add, tmp), q.get_extra_weight_distances_to_sources(extra, add, tmp)}; o << d; for (unsigned j = 0; j < l.size(); ++j) o << (d[j] == INF ? 0 : us[j]); for (auto &v : f) for (unsigned j = 0; j < l.size(); ++j) o << (d[j] == INF ? 0 : v[j]); } }});
	F.push_back({"CCH", [&](Out &o, unsigned) { Cch c(order, G.tail, G.head); Metric x(c, extra); x.customize(); o << x.forward << x.backward; Metric y(cch, G.weight); y.customize(); Query q(y); for (unsigned i = 0; i < n; i += 3) { q.reset().add_source(i).add_target(n - 1 - i).run(); o << q.get_distance() << q.get_node_path().size(); } y.reset(extra).customize(); q.reset(y); o << q.add_source(0).add_target(n - 1).run().get_distance(); }});
	F.push_back({"CCH partial", [&](Out &o, unsigned) { Metric x = base; Partial p(cch); x.reset(extra); for (unsigned i = 0; i < m; ++i) p.update_arc(i); p.customize(x); o << x.forward << x.backward; ContractionHierarchy c = x.build_contraction_hierarchy_using_perfect_witness_search(); ContractionHierarchyQuery q(c); for (unsigned i = 0; i < n; i += 3) o << q.reset().add_source(i).add_target(n - 1 - i).run().get_distance(); }});
	F.push_back({"geometry", [&](Out &o, unsigned) { GeoPositionToNode p(lat, lon); for (unsigned i = 0; i < n; i += 2) { auto r = p.find_nearest_neighbor_within_radius(lat[i] + 0.01f, lon[i], 1e6f); o << r.id << r.distance; o << (uint64_t)p.find_all_nodes_within_radius(lat[i], lon[i], 500000).size(); o << geo_dist(lat[i], lon[i], lat[0], lon[0]); } }});
	F.push_back({"vector files", [&](Out &o, unsigned t) { save_vector(file[t], fine); o << load_vector<unsigned>(file[t]); save_vector(file[t], lat); o << load_vector<float>(file[t]); std::vector<std::string> s; for (unsigned i = 0; i < n; ++i) s.push_back(std::string(i % 5, 'a' + t % 3)); save_vector(file[t], s); o << (load_vector<std::string>(file[t]) == s); save_bit_vector(file[t], bits); o << (load_bit_vector(file[t]) == bits); }});
	F.push_back({"validators", [&](Out &o, unsigned) { U h = head; h[0] = n; try { check_if_graph_is_valid(first_out, head); o << "ok"; check_if_graph_is_valid(first_out, h); } catch (std::exception &e) { o << e.what(); } }});
	F.push_back({"profiles", [&](Out &o, unsigned t) { auto log = [&](const std::string &s) { o << s; }; for (auto &w : W.ways) { TagMap x = tags_of(w.tags); o << is_osm_way_used_by_cars(w.id, x, log) << is_osm_way_used_by_bicycles(w.id, x, log) << is_osm_way_used_by_pedestrians(w.id, x, log) << get_osm_way_name(w.id, x, log) << (unsigned)get_osm_way_bicycle_comfort_level(w.id, x, log) << (int)get_osm_car_direction_category(w.id, x, log) << (int)get_osm_bicycle_direction_category(w.id, x, log); if (is_osm_way_used_by_cars(w.id, x)) o << get_osm_way_speed(w.id, x, log); }
		for (auto &r : W.rels) { std::vector<OSMRelationMember> ms; for (auto &x : r.members) ms.push_back({x.type == 0 ? OSMIDType::node : OSMIDType::way, x.id, x.role.c_str()}); decode_osm_car_turn_restrictions(r.id, ms, tags_of(r.tags), [&](OSMTurnRestriction x) { o << x.from_way << x.via_node << x.to_way << (int)x.direction << (int)x.category; }, log); } (void)t; }});
	F.push_back({"OSM", [&](Out &o, unsigned) { try { auto map = load_osm_id_mapping_from_pbf(pbf_name, nullptr, [](uint64_t i, const TagMap &t) { return is_osm_way_used_by_cars(i, t); }); o << map.is_modelling_node << map.is_routing_node << map.is_routing_way; auto r = load_osm_routing_graph_from_pbf(pbf_name, map, [](uint64_t i, unsigned, const TagMap &t) { return get_osm_car_direction_category(i, t); }, [](uint64_t i, const std::vector<OSMRelationMember> &l, const TagMap &t, std::function<void(OSMTurnRestriction)> f) { decode_osm_car_turn_restrictions(i, l, t, f); }, nullptr, false, OSMRoadGeometry::uncompressed); o << r.first_out << r.head << r.way << r.geo_distance << r.latitude << r.longitude << r.is_arc_antiparallel_to_way << r.forbidden_turn_from_arc << r.forbidden_turn_to_arc << r.first_modelling_node << r.modelling_node_latitude; } catch (std::exception &e) { o << e.what(); } }});
	F.push_back({"OSM loaders", [&](Out &o, unsigned) { try { auto c = simple_load_osm_car_routing_graph_from_pbf(pbf_name); o << c.first_out << c.head << c.travel_time << c.geo_distance << c.forbidden_turn_from_arc << c.forbidden_turn_to_arc; auto b = simple_load_osm_bicycle_routing_graph_from_pbf(pbf_name); o << b.head << b.arc_comfort_level; auto p = simple_load_osm_pedestrian_routing_graph_from_pbf(pbf_name); o << p.first_out << p.head << p.latitude; } catch (std::exception &e) { o << e.what(); } }});

	unsigned pool = 1 + g.below(4); std::vector<unsigned> use; for (unsigned i = 0; i < pool; ++i) use.push_back(g.below(F.size())); if (g.chance(1, 2)) use.resize(1); // mostly the same function in all threads
	unsigned k = 2 + g.below(4), per = 1 + g.below(4); std::vector<std::vector<unsigned>> todo(k); for (auto &v : todo) for (unsigned i = 0; i < per; ++i) v.push_back(g.pick(use));
	std::map<std::pair<unsigned, unsigned>, std::string> golden; for (unsigned i = 0; i < k; ++i) for (auto f : todo[i]) if (!golden.count({f, i})) { Out o; F[f].second(o, i); golden[{f, i}] = o.o.str(); }
	g.note() << " " << k << " threads:"; for (auto f : use) { g.note() << " " << F[f].first; g.label(F[f].first); }
	for (unsigned r = 0; r < 3; ++r) {
		std::atomic<unsigned> ready{0}; std::vector<std::exception_ptr> err(k); std::vector<std::thread> ts;
		for (unsigned i = 0; i < k; ++i) ts.emplace_back([&, i] { try { ++ready; while (ready < k) std::this_thread::yield(); for (auto f : todo[i]) { Out o; F[f].second(o, i); REQUIRE(o.o.str() == golden[std::make_pair(f, i)], F[f].first << ": another result than in a single thread"); } } catch (...) { err[i] = std::current_exception(); } });
		for (auto &t : ts) t.join();
		for (auto &e : err) if (e) std::rethrow_exception(e);
	}
	g.nontrivial(n > 3);
}
pbt::Check pbt::make_check() {
	return {"P24", "at least two threads on a graph of more than three nodes", {{"threads", 2500, 100000, threads, 60, 12}, {"functions", 1500, 60000, functions, 60, 12}}};
}
