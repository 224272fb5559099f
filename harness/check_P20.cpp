// P20: the routing graph extracted from an OSM file equals the network the file describes.
#include "osm_world.hpp"
#include <routingkit/id_mapper.h>
using namespace RoutingKit;
using namespace osmw;

static void decorate(pbt::Gen &g, World &w) { // the meaning of the tags is up to the callbacks below
	unsigned used = g.below(3), dirs = g.below(3), bus = g.below(3);
	for (auto &y : w.ways) { if (used == 0 || !g.chance(1, 4)) y.tags.push_back({"used", "yes"}); unsigned d = dirs == 0 ? 0 : dirs == 1 ? g.below(4) : 1 + g.below(2); y.tags.push_back({"dir", std::to_string(d)}); y.tags.push_back({"self", std::to_string(y.id)}); }
	for (auto &x : w.nodes) { if (bus == 1 && g.chance(1, 4)) x.tags.push_back({"stop", "yes"}); if (g.chance(1, 5)) x.tags.push_back({"name", "n" + std::to_string(x.id)}); }
}
static bool used(const Way &y) { return tag(y.tags, "used") != nullptr; }
static int dir_of(const Way &y) { return std::stoi(*tag(y.tags, "dir")); }
static bool stop(const Node &x) { return tag(x.tags, "stop") != nullptr; }
static std::string dump(const World &w) { std::ostringstream o; for (auto &x : w.nodes) o << " n" << x.id << "(" << x.lat << "," << x.lon << (stop(x) ? ",stop" : "") << ")"; for (auto &y : w.ways) { o << " w" << y.id << (used(y) ? "" : "(unused)") << "/" << dir_of(y) << ":"; for (auto v : y.nodes) o << v << "-"; } return o.str(); }

static void check_bits(const BitVector &b, const std::set<uint64_t> &s, const char *what) {
	for (auto x : s) REQUIRE(x < b.size() && b.is_set(x), what << ": OSM id " << x << " missing");
	uint64_t c = 0; for (uint64_t i = 0; i < b.size() && c <= s.size(); ++i) if (i % 64 == 0 && i + 64 <= b.size() && !b.data()[i / 64]) i += 63; else if (b.is_set(i)) { ++c; REQUIRE(s.count(i), what << ": OSM id " << i << " must not be included"); }
	REQUIRE_EQ(b.population_count(), (uint64_t)s.size(), what << ": number of ids");
}

static void extract(pbt::Gen &g, bool big, bool huge = false, bool wide = false, bool extended = false) {
	WorldOptions o; if (wide) { o.wide_ids = true; o.min_nodes = 8; o.max_nodes = 60; o.min_ways = 4; o.max_ways = 25; o.id_modes = 6; } else if (huge) { bool many = g.chance(1, 2); o.min_nodes = many ? 66000 : 30000; o.max_nodes = o.min_nodes + 2000; o.min_ways = many ? 5000 : 66000; o.max_ways = o.min_ways + 500; o.max_len = many ? 40 : 4; o.id_modes = 6; } else if (extended) { o.max_nodes = 30; o.max_ways = 12; o.id_modes = 6; } else if (big) { o.max_nodes = 400; o.max_ways = 150; o.max_len = 30; }
	World w = draw_world(g, o); if (extended) extend_world(g, w); if (g.chance(1, 3)) { w.granularity = 1000; for (auto &x : w.nodes) { x.lat /= 10; x.lon /= 10; } } decorate(g, w); std::string name = pbt::scratch_file("w.pbf"); bool sorted = write_world(g, w, name);
	bool all = g.chance(1, 4), node_cb = g.chance(2, 3), way_cb = g.chance(5, 6), turn_cb = g.chance(1, 4), flag = sorted && g.chance(1, 2), log = g.chance(1, 3); unsigned geo = g.below(3);
	if (!big) g.note() << dump(w); else g.note() << w.nodes.size() << " nodes " << w.ways.size() << " ways";
	g.note() << (sorted ? " sorted" : "") << (flag ? " flag" : "") << (all ? " all" : "") << (node_cb ? " node_cb" : "") << (way_cb ? " way_cb" : "") << (turn_cb ? " turn_cb" : "") << " geometry " << geo;
	Model m = build_model(w, used, [&](const Way &y) { return way_cb ? dir_of(y) : 0; }, [&](const Node &x) { return node_cb && stop(x); }, all);
	std::function<void(const std::string &)> logger; if (log) logger = [](const std::string &) {};
	std::map<uint64_t, const Way *> by_id; for (auto &y : w.ways) by_id[y.id] = &y;
	std::function<bool(uint64_t, const TagMap &)> ncb; if (node_cb) ncb = [&](uint64_t, const TagMap &t) { return t["stop"] != nullptr; };
	auto mapping = load_osm_id_mapping_from_pbf(name, ncb, [&](uint64_t id, const TagMap &t) { REQUIRE(by_id.count(id) && t["self"] && std::to_string(id) == t["self"], "way " << id << " reported with the tags of another way"); return t["used"] != nullptr; }, logger, all);
	check_bits(mapping.is_modelling_node, m.modelling, "modelling nodes"); check_bits(mapping.is_routing_node, m.routing, "routing nodes"); check_bits(mapping.is_routing_way, std::set<uint64_t>(m.way_ids.begin(), m.way_ids.end()), "routing ways");
	std::vector<unsigned> calls(m.way_ids.size()); std::function<OSMWayDirectionCategory(uint64_t, unsigned, const TagMap &)> wcb;
	if (way_cb) wcb = [&](uint64_t id, unsigned local, const TagMap &t) {
		REQUIRE_EQ(local, m.way(id), "routing way id of OSM way " << id); REQUIRE(t["self"] && std::to_string(id) == t["self"], "way " << id << " reported with the tags of another way"); ++calls[local];
		static const OSMWayDirectionCategory c[] = {OSMWayDirectionCategory::open_in_both, OSMWayDirectionCategory::only_open_forwards, OSMWayDirectionCategory::only_open_backwards, OSMWayDirectionCategory::closed}; return c[t["dir"][0] - '0']; };
	std::function<void(uint64_t, const std::vector<OSMRelationMember> &, const TagMap &, std::function<void(OSMTurnRestriction)>)> tcb; if (turn_cb) tcb = [](uint64_t, const std::vector<OSMRelationMember> &, const TagMap &, std::function<void(OSMTurnRestriction)>) {};
	static const OSMRoadGeometry gs[] = {OSMRoadGeometry::none, OSMRoadGeometry::uncompressed, OSMRoadGeometry::first_and_last};
	OSMRoutingGraph G = geo == 0 && !flag ? load_osm_routing_graph_from_pbf(name, mapping, wcb, tcb, logger) : load_osm_routing_graph_from_pbf(name, mapping, wcb, tcb, logger, flag, gs[geo]);
	if (way_cb) for (unsigned i = 0; i < calls.size(); ++i) REQUIRE_EQ(calls[i], 1u, "number of times the callback was given routing way " << i);
	std::vector<unsigned> tail; compare_graph(m, G.first_out, G.head, G.geo_distance, G.latitude, G.longitude, &G.way, &G.is_arc_antiparallel_to_way, &tail);
	REQUIRE_EQ((uint64_t)G.node_count(), (uint64_t)m.route_ids.size(), "node_count()"); REQUIRE_EQ((uint64_t)G.arc_count(), (uint64_t)m.arcs.size(), "arc_count()");
	REQUIRE(G.forbidden_turn_from_arc.empty() && G.forbidden_turn_to_arc.empty(), "forbidden turns without any restriction");
	IDMapper rn(mapping.is_routing_node); for (unsigned i = 0; i < m.route_ids.size(); ++i) REQUIRE_EQ(rn.to_global(i), m.route_ids[i], "OSM id of routing node " << i);
	if (geo == 0) { if (!turn_cb) REQUIRE(G.first_modelling_node.empty() && G.modelling_node_latitude.empty() && G.modelling_node_longitude.empty(), "geometry although none was requested"); }
	else {
		REQUIRE_EQ((uint64_t)G.first_modelling_node.size(), (uint64_t)m.arcs.size() + 1, "size of first_modelling_node"); REQUIRE_EQ((uint64_t)G.modelling_node_latitude.size(), (uint64_t)G.modelling_node_longitude.size(), "sizes of the geometry"); REQUIRE(G.first_modelling_node.front() == 0 && G.first_modelling_node.back() == G.modelling_node_latitude.size(), "first_modelling_node does not cover the geometry");
		auto near = [](Pos a, Pos b) { return std::fabs(a.first - b.first) < 1e-5 && std::fabs(a.second - b.second) < 2e-5; };
		std::multimap<std::tuple<unsigned, unsigned, unsigned, bool>, std::vector<Pos>> exp;
		for (auto &a : m.arcs) exp.insert({std::make_tuple(a.tail, a.head, a.way, a.anti), geo == 1 ? a.geo : ends(a.geo)});
		for (unsigned a = 0; a < G.head.size(); ++a) {
			REQUIRE(G.first_modelling_node[a] <= G.first_modelling_node[a + 1], "first_modelling_node not monotone"); std::vector<Pos> p; for (unsigned i = G.first_modelling_node[a]; i < G.first_modelling_node[a + 1]; ++i) p.push_back({G.modelling_node_latitude[i], G.modelling_node_longitude[i]});
			auto rg = exp.equal_range(std::make_tuple(tail[a], G.head[a], G.way[a], (bool)G.is_arc_antiparallel_to_way[a])); bool found = false;
			for (auto it = rg.first; it != rg.second && !found; ++it) { bool ok = it->second.size() == p.size(); for (size_t i = 0; ok && i < p.size(); ++i) ok = near(it->second[i], p[i]); if (ok) { found = true; exp.erase(it); break; } }
			REQUIRE(found, "geometry of arc " << a << " from " << tail[a] << " to " << G.head[a] << " with " << p.size() << " points is not that of its way");
			// the length belongs to this very geometry
			if (geo == 1) { Pos last = m.node_pos[tail[a]]; double d = 0; for (auto x : p) { d += great_circle(last, x); last = x; } d += great_circle(last, m.node_pos[G.head[a]]); REQUIRE(std::fabs(d - G.geo_distance[a]) <= 1.5 + 0.3 * (p.size() + 1) + 1e-7 * d, "arc " << a << " is " << G.geo_distance[a] << " m long but its geometry " << d << " m"); }
		}
	}
	g.label(geo == 0 ? "no geometry" : geo == 1 ? "geometry" : "first and last"); if (all) g.label("all modelling nodes"); unsigned long inner = 0; for (auto &a : m.arcs) inner += a.geo.size();
	g.nontrivial(m.arcs.size() >= 3 && (inner || all));
}

pbt::Check pbt::make_check() {
	return {"P20", "at least three arcs, and modelling nodes inside an arc unless all were made routing nodes",
		{{"small", 3500, 150000, [](pbt::Gen &g) { extract(g, false); }, 30}, {"large", 150, 6000, [](pbt::Gen &g) { extract(g, true); }, 60}, {"extended", 250, 8000, [](pbt::Gen &g) { extract(g, true, false, false, true); }, 60}, {"huge", 6, 60, [](pbt::Gen &g) { extract(g, true, true); }, 600}, {"wide_ids", 3, 12, [](pbt::Gen &g) { extract(g, false, false, true); }, 600, 1, true}}};
}
