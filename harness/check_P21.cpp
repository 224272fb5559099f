// P21: turn restrictions: from OSM relations to forbidden pairs of arcs.
#include "osm_turns.hpp"
#include <routingkit/osm_profile.h>
using namespace RoutingKit;
using namespace osmw;

static void decode(pbt::Gen &g) {
	std::vector<uint64_t> ids; for (unsigned i = 0; i < 4; ++i) ids.push_back(g.chance(1, 4) ? g.below(1ull << 62) : g.below(100)); Relation r = draw_relation(g, g.below(1000), ids, ids); g.note() << str(r);
	TagMap t; t.build(r.tags.size(), [&](uint64_t i) { return r.tags[i].first.c_str(); }, [&](uint64_t i) { return r.tags[i].second.c_str(); });
	std::vector<OSMRelationMember> ml; for (auto &m : r.members) ml.push_back({m.type == 0 ? OSMIDType::node : m.type == 1 ? OSMIDType::way : OSMIDType::relation, m.id, m.role.c_str()});
	std::vector<OSMTurnRestriction> got; std::function<void(const std::string &)> log; if (g.chance(1, 2)) log = [](const std::string &) {};
	decode_osm_car_turn_restrictions(r.id, ml, t, [&](OSMTurnRestriction x) { got.push_back(x); }, log); auto exp = decode_relation(r);
	typedef std::tuple<uint64_t, bool, int, uint64_t, uint64_t, uint64_t> K; std::vector<K> a, b; static const OSMTurnDirection ds[] = {OSMTurnDirection::left_turn, OSMTurnDirection::right_turn, OSMTurnDirection::straight_on, OSMTurnDirection::u_turn};
	for (auto &x : exp) a.push_back(K(r.id, x.mandatory, x.direction, x.from, x.has_via ? x.via : ~0ull, x.to));
	for (auto &x : got) { int d = 0; while (ds[d] != x.direction) ++d; b.push_back(K(x.osm_relation_id, x.category == OSMTurnRestrictionCategory::mandatory, d, x.from_way, x.via_node, x.to_way)); }
	std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE_EQ((uint64_t)b.size(), (uint64_t)a.size(), "number of restrictions of a relation"); REQUIRE(a == b, "restrictions of a relation differ");
	g.nontrivial(!exp.empty() || r.members.size() > 2); g.label(exp.empty() ? "no restriction" : exp.size() > 1 ? "several restrictions" : "one restriction");
}

// ---------------------------------------------------------------- whole pipeline
static int dir_of(const Way &y) { auto d = tag(y.tags, "dir"); return d ? std::stoi(*d) : 0; }
enum Size { small, large, huge, many, wide_ids, extended };
static void pipeline(pbt::Gen &g, Size size) {
	WorldOptions o; o.far = false; o.max_nodes = g.chance(1, 4) ? 20 : 9; o.max_ways = g.chance(1, 4) ? 14 : 7; o.max_len = 5;
	if (size == large) { o.min_nodes = 100; o.max_nodes = 900; o.min_ways = 100; o.max_ways = 700; o.max_len = 12; } else if (size == huge) { bool many_ways = g.chance(1, 2); o.min_nodes = 20000; o.max_nodes = 30000; o.min_ways = many_ways ? 80000 : 22000; o.max_ways = o.min_ways + 2000; o.max_len = many_ways ? 3 : 6; o.id_modes = 6; } else if (size == wide_ids) { o.wide_ids = true; o.min_nodes = 6; o.max_nodes = 40; o.min_ways = 5; o.max_ways = 25; o.id_modes = 6; }
	bool brief = size == large || size == huge || size == many || size == extended; World w = draw_world(g, o); if (size == extended) extend_world(g, w, 800); if (w.ways.empty() || w.nodes.empty()) throw pbt::Discard{};
	unsigned dirs = g.below(3); for (auto &y : w.ways) { unsigned d = dirs == 0 ? 0 : dirs == 1 ? g.below(3) : 1 + g.below(2); if (g.chance(1, 15)) d = 3; y.tags.push_back({"dir", std::to_string(d)}); if (g.chance(1, 12)) y.tags.push_back({"unused", "yes"}); }
	auto used = [](const Way &y) { return !tag(y.tags, "unused"); }; bool all = g.chance(1, 4);
	Model m = build_model(w, used, dir_of, [](const Node &) { return false; }, all);
	bool own = g.chance(1, 2); // own decoder instead of the standard one
	std::vector<uint64_t> ways, nodes; for (auto &y : w.ways) ways.push_back(y.id); for (auto &x : w.nodes) nodes.push_back(x.id);
	unsigned k = size == extended ? 10 + g.below(250) : size == large ? 20 + g.below(400) : size == huge ? 600 + g.below(100) : size == many ? 65600 + g.below(1000) : 1 + g.below(6); uint64_t rid = 0;
	Index ix(m); std::vector<Restriction> rs; std::map<uint64_t, std::vector<Restriction>> of; unsigned effective = 0; std::vector<std::pair<unsigned, unsigned>> exp; std::string hows;
	for (unsigned i = 0; i < k; ++i) {
		Relation r; rid += 1 + g.below(9); std::vector<Restriction> d;
		if (m.arcs.size() > 1 && g.chance(5, 6)) { // a turn that exists
			unsigned a = g.below(m.arcs.size()); std::vector<unsigned> outs; for (unsigned b : ix.out[m.arcs[a].head]) if (b != a || m.arcs[a].tail == m.arcs[a].head) outs.push_back(b);
			unsigned b = outs.empty() ? g.below(m.arcs.size()) : g.pick(outs); Restriction x{g.chance(1, 2), (int)g.below(4), m.way_ids[m.arcs[a].way], m.route_ids[m.arcs[a].head], m.way_ids[m.arcs[b].way], !g.chance(1, 3)}; if (!x.has_via) x.via = ~0ull;
			r.id = rid; r.tags.push_back({"restriction", std::string(x.mandatory ? "only_" : "no_") + DIRNAME[x.direction]}); r.members.push_back({1, x.from, "from"}); if (x.has_via) r.members.push_back({0, x.via, "via"}); r.members.push_back({1, x.to, "to"});
		} else r = draw_relation(g, rid, ways, nodes);
		d = decode_relation(r); bool certain = true; for (auto &x : d) { auto v = forbidden(m, ix, x); certain &= v.certain; }
		if (!certain) { g.label("dropped: angle near a limit"); continue; }
		for (auto &x : d) { auto v = forbidden(m, ix, x); effective += !v.turns.empty(); exp.insert(exp.end(), v.turns.begin(), v.turns.end()); g.label(v.how); if (!brief) hows += " [" + v.how + "]"; }
		of[r.id] = d; w.rels.push_back(r);
	}
	if (brief) g.note() << w.nodes.size() << " nodes " << w.ways.size() << " ways " << m.arcs.size() << " arcs " << w.rels.size() << " relations"; else {for (auto &x : w.nodes) g.note() << " n" << x.id << "(" << x.lat << "," << x.lon << ")"; for (auto &y : w.ways) { g.note() << " w" << y.id << (used(y) ? "" : "(unused)") << "/" << dir_of(y) << ":"; for (auto v : y.nodes) g.note() << v << "-"; } for (auto &r : w.rels) g.note() << str(r); } g.note() << (all ? " all" : "") << hows;
	std::string name = pbt::scratch_file("w.pbf"); bool sorted = write_world(g, w, name); bool flag = sorted && g.chance(1, 3); unsigned geo = g.below(3);
	std::function<void(const std::string &)> log; if (g.chance(1, 3)) log = [](const std::string &) {};
	auto mapping = load_osm_id_mapping_from_pbf(name, nullptr, [&](uint64_t, const TagMap &t) { return t["unused"] == nullptr; }, log, all);
	static const OSMWayDirectionCategory cs[] = {OSMWayDirectionCategory::open_in_both, OSMWayDirectionCategory::only_open_forwards, OSMWayDirectionCategory::only_open_backwards, OSMWayDirectionCategory::closed}; static const OSMRoadGeometry gs[] = {OSMRoadGeometry::none, OSMRoadGeometry::uncompressed, OSMRoadGeometry::first_and_last}; static const OSMTurnDirection ds[] = {OSMTurnDirection::left_turn, OSMTurnDirection::right_turn, OSMTurnDirection::straight_on, OSMTurnDirection::u_turn};
	auto G = load_osm_routing_graph_from_pbf(name, mapping, [&](uint64_t, unsigned, const TagMap &t) { return cs[t["dir"][0] - '0']; },
		[&](uint64_t id, const std::vector<OSMRelationMember> &ml, const TagMap &t, std::function<void(OSMTurnRestriction)> on) { if (!own) decode_osm_car_turn_restrictions(id, ml, t, on, log); else for (auto &x : of[id]) on(OSMTurnRestriction{id, x.mandatory ? OSMTurnRestrictionCategory::mandatory : OSMTurnRestrictionCategory::prohibitive, ds[x.direction], x.from, x.has_via ? x.via : (uint64_t)-1, x.to}); }, log, flag, gs[geo]);
	std::vector<unsigned> tail; compare_graph(m, G.first_out, G.head, G.geo_distance, G.latitude, G.longitude, &G.way, &G.is_arc_antiparallel_to_way, &tail);
	auto &F = G.forbidden_turn_from_arc; auto &T = G.forbidden_turn_to_arc; REQUIRE_EQ((uint64_t)F.size(), (uint64_t)T.size(), "sizes of the forbidden turn vectors");
	// arcs are identified by what they are, not by their position among parallel arcs
	typedef std::tuple<unsigned, unsigned, unsigned, bool, std::vector<Pos>> K; typedef std::pair<K, K> KK; std::vector<KK> a, b;
	auto mk = [&](unsigned i) { auto &x = m.arcs[i]; return K(x.tail, x.head, x.way, x.anti, geo == 0 ? std::vector<Pos>() : geo == 1 ? x.geo : ends(x.geo)); };
	std::map<KK, int> dummy; auto lib = [&](unsigned i) { std::vector<Pos> p; if (geo) for (unsigned j = G.first_modelling_node[i]; j < G.first_modelling_node[i + 1]; ++j) p.push_back({G.modelling_node_latitude[j], G.modelling_node_longitude[j]}); return K(tail[i], G.head[i], G.way[i], G.is_arc_antiparallel_to_way[i], p); };
	std::sort(exp.begin(), exp.end()); exp.erase(std::unique(exp.begin(), exp.end()), exp.end());
	for (size_t i = 0; i < F.size(); ++i) {
		REQUIRE(F[i] < G.head.size() && T[i] < G.head.size(), "forbidden turn " << i << " names an arc that does not exist"); REQUIRE_EQ(G.head[F[i]], tail[T[i]], "forbidden turn " << i << " is between arcs that do not meet");
		if (i) REQUIRE(std::make_pair(F[i - 1], T[i - 1]) < std::make_pair(F[i], T[i]), "forbidden turns not sorted or with duplicates at " << i); b.push_back({lib(F[i]), lib(T[i])});
	}
	for (auto &x : exp) a.push_back({mk(x.first), mk(x.second)});
	std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
	auto s = [](const KK &x) { std::ostringstream o; o << std::get<0>(x.first) << "->" << std::get<1>(x.first) << " (way " << std::get<2>(x.first) << ") then " << std::get<0>(x.second) << "->" << std::get<1>(x.second) << " (way " << std::get<2>(x.second) << ")"; return o.str(); };
	std::vector<KK> missing, extra; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(missing)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
	if (!missing.empty()) pbt::fail("turn is not forbidden: " + s(missing.front()));
	if (!extra.empty()) pbt::fail("turn must not be forbidden: " + s(extra.front()));
	g.nontrivial(effective > 0);
}

pbt::Check pbt::make_check() {
	return {"P21", "decode: a relation with a restriction or more than two members; pipeline: at least one restriction that forbids a turn",
		{{"decode", 30000, 1000000, decode, 20}, {"pipeline", 6000, 300000, [](pbt::Gen &g) { pipeline(g, small); }, 30}, {"large", 200, 6000, [](pbt::Gen &g) { pipeline(g, large); }, 60}, {"extended", 250, 8000, [](pbt::Gen &g) { pipeline(g, extended); }, 60}, {"huge", 6, 60, [](pbt::Gen &g) { pipeline(g, huge); }, 600}, {"many", 6, 60, [](pbt::Gen &g) { pipeline(g, many); }, 600}, {"wide_ids", 3, 12, [](pbt::Gen &g) { pipeline(g, wide_ids); }, 600, 1, true}}};
}
