// P22: the standard car, bicycle and pedestrian interpretations of OSM tags, and the one-call loaders built on them.
#include "osm_turns.hpp"
#include "tools.hpp"
#include <routingkit/vector_io.h>
#include <routingkit/osm_profile.h>
#include <routingkit/osm_simple.h>
#include <routingkit/constants.h>
using namespace RoutingKit;
using namespace osmw;
typedef std::set<std::string> S;

// ---------------------------------------------------------------- reference interpretation
struct T { const Tags &t; T(const Tags &x) : t(x) {} std::string operator[](const std::string &k) const { auto p = tag(t, k); return p ? *p : std::string(); } bool has(const std::string &k) const { return tag(t, k); } bool is(const std::string &k, const std::string &v) const { auto p = tag(t, k); return p && *p == v; } bool in(const std::string &k, const S &s) const { auto p = tag(t, k); return p && s.count(*p); } };
static const S LOCAL = {"secondary", "tertiary", "unclassified", "residential", "service", "secondary_link", "tertiary_link", "living_street", "track"};
static S operator+(S a, const S &b) { a.insert(b.begin(), b.end()); return a; }
static const S ACCESS = {"yes", "permissive", "delivery", "designated", "destination"}, ACCESS_SLOW = ACCESS + S{"agricultural", "forestry", "public"};

static bool car_uses(const T &t) {
	if (t.has("junction") || t.is("route", "ferry") || t.is("ferry", "yes")) return true;
	if (!t.has("highway") || t.is("motorcar", "no") || t.is("motor_vehicle", "no") || (t.has("access") && !t.in("access", ACCESS))) return false;
	if (t.in("highway", LOCAL + S{"motorway", "trunk", "primary", "motorway_link", "trunk_link", "primary_link", "motorway_junction", "ferry"})) return true;
	if (t.is("highway", "bicycle_road")) return t.is("motorcar", "yes");
	if (t.in("highway", {"construction", "path", "footway", "cycleway", "bridleway", "pedestrian", "bus_guideway", "raceway", "escape", "steps", "proposed", "conveying"})) return false;
	if (t.in("oneway", {"reversible", "alternating"})) return false;
	return t.has("maxspeed");
}
static bool bicycle_uses(const T &t) {
	if (t.has("junction") || t.is("route", "ferry") || t.is("ferry", "ferry")) return true;
	if (!t.has("highway") || t.is("highway", "proposed") || (t.has("access") && !t.in("access", ACCESS_SLOW)) || t.in("bicycle", {"no", "use_sidepath"})) return false;
	if (t.has("cycleway") || t.has("cycleway:left") || t.has("cycleway:right") || t.has("cycleway:both")) return true;
	return t.in("highway", LOCAL + S{"bicycle_road", "primary", "primary_link", "path", "footway", "cycleway", "bridleway", "pedestrian", "crossing", "escape", "steps", "ferry"});
}
static bool pedestrian_uses(const T &t) {
	if (t.has("junction") || t.is("route", "ferry") || t.is("ferry", "ferry") || t.in("public_transport", {"stop_position", "platform", "stop_area", "station"}) || t.in("railway", {"halt", "platform", "subway_entrance", "station", "tram_stop"})) return true;
	if (!t.has("highway") || (t.has("access") && !t.in("access", ACCESS_SLOW)) || t.is("crossing", "no")) return false;
	return t.in("highway", LOCAL + S{"bicycle_road", "path", "footway", "cycleway", "bridleway", "pedestrian", "escape", "steps", "crossing", "escalator", "elevator", "platform", "ferry"});
}
static const S FWD = {"yes", "true", "1"}, BWD = {"-1", "reverse", "backward"}, BOTH = {"no", "false", "0"}, SWITCHING = {"reversible", "alternating"};
static int car_direction(const T &t) { // -1: a value of oneway nobody knows
	if (t.has("oneway")) return t.in("oneway", BWD) ? backwards : t.in("oneway", FWD) ? forwards : t.in("oneway", BOTH) ? both : t.in("oneway", SWITCHING) ? closed : -1;
	return t.is("junction", "roundabout") || t.in("highway", {"motorway", "motorway_link"}) ? forwards : both;
}
static int bicycle_direction(const T &t) {
	if (t.has("oneway:bicycle")) return t.in("oneway:bicycle", {"-1", "opposite"}) ? backwards : t.in("oneway:bicycle", FWD + S{"no_planned"}) ? forwards : t.in("oneway:bicycle", BOTH + S{"tolerated", "permissive"}) ? both : closed;
	if (!t.has("oneway") || t.in("oneway", BOTH) || t.in("cycleway", {"opposite", "opposite_track", "opposite_lane", "opposite_share_busway"}) || t.has("cycleway:both") || (t.has("cycleway:left") && t.has("cycleway:right"))) return both;
	return t.in("oneway", BWD) ? backwards : t.in("oneway", FWD) ? forwards : closed;
}
static unsigned comfort(const T &t) {
	if (t.is("highway", "cycleway")) return 4;
	if (t.has("cycleway")) return t.is("cycleway", "track") ? 3 : 2;
	return t.in("highway", {"primary", "primary_link"}) || t.is("bicycle", "dismount") ? 0 : 1;
}
static std::string way_name(const T &t) { return t.has("name") && t.has("ref") ? t["name"] + ";" + t["ref"] : t.has("name") ? t["name"] : t["ref"]; }

static const std::map<std::string, unsigned> NAMED = {{"none", 130}, {"unlimited", 130}, {"walk", 5}, {"foot", 5}, {"walking_pace", 5}, {"schritt", 5}, {"urban", 40}, {"living_street", 10}, {"rural", 100}, {"de:rural", 100}, {"at:rural", 100}, {"ro:rural", 100}, {"ru:rural", 90}, {"ua:rural", 90}, {"it:rural", 90}, {"hu:rural", 90}, {"dk:rural", 80}, {"ch:rural", 80}, {"fr:rural", 80}, {"ru:motorway", 110}, {"ch:motorway", 120}, {"at:motorway", 130}, {"ro:motorway", 130}, {"de:motorway", 130}, {"national", 100}, {"ro:trunk", 100}, {"de:zone:30", 30}, {"de:zone30", 30}, {"at:zone30", 30}};
static unsigned one_speed(const std::string &v) { // 0xffffffff: no statement
	if (NAMED.count(v)) return NAMED.at(v);
	if (v.size() > 3 && v[2] == ':') { std::string r = v.substr(3); if (r == "walk") return 5; if (r == "urban") return 40; if (r == "living_street") return 10; }
	if (v.empty() || v[0] < '0' || v[0] > '9') return NONE;
	size_t i = 0; unsigned long n = 0; while (i < v.size() && v[i] >= '0' && v[i] <= '9') n = n * 10 + (v[i++] - '0'); while (i < v.size() && v[i] == ' ') ++i; std::string unit = v.substr(i);
	return unit == "mph" ? n * 1609 / 1000 : unit == "knots" ? n * 1852 / 1000 : n;
}
static unsigned speed(const T &t) {
	if (t.has("maxspeed") && !t.is("maxspeed", "unposted")) {
		std::string s = t["maxspeed"]; for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32;
		unsigned best = NONE; size_t b = 0; for (;;) { size_t e = s.find(';', b); std::string p = s.substr(b, e == std::string::npos ? e : e - b); while (!p.empty() && p[0] == ' ') p.erase(0, 1); best = std::min(best, one_speed(p)); if (e == std::string::npos) break; b = e + 1; }
		if (best != NONE) return std::max(1u, best);
	}
	static const std::map<std::string, unsigned> H = {{"motorway", 90}, {"motorway_link", 45}, {"trunk", 85}, {"trunk_link", 40}, {"primary", 65}, {"primary_link", 30}, {"secondary", 55}, {"secondary_link", 25}, {"tertiary", 40}, {"tertiary_link", 20}, {"unclassified", 25}, {"residential", 25}, {"living_street", 10}, {"service", 8}, {"track", 8}, {"ferry", 5}};
	auto it = H.find(t["highway"]); if (t.has("highway") && it != H.end()) return it->second;
	if (t.has("junction")) return 20;
	if (t.is("route", "ferry") || t.has("ferry")) return 5;
	return 50;
}

// ---------------------------------------------------------------- generator of tags
typedef std::vector<std::string> V;
static std::string draw_maxspeed(pbt::Gen &g) {
	static const V named = [] { V v; for (auto &x : NAMED) v.push_back(x.first); for (auto x : {"signals", "variable", "unposted", "xy:urban", "gb:walk", "fr:living_street", "nonsense", "", "fixme", "xy:rural", "walk2", ":urban", "x:urban"}) v.push_back(x); return v; }();
	auto one = [&] { std::string s; if (g.chance(1, 2)) s = g.pick(named); else { s = std::to_string(g.chance(1, 4) ? g.below(3) : g.chance(1, 5) ? g.below(2000) : g.below(140)); static const V unit = {"", "", " km/h", "km/h", "kmh", " kph", " mph", "mph", " knots", "knots", ".5", " furlongs", "  ", "-80", " mphs", "mph x", "mp", "m/h", " km/hx", "knotsx", " knot", "kmhour", "kphs", "mph ", " MPH/2"}; s += g.pick(unit); } if (g.chance(1, 6)) for (auto &c : s) if (c >= 'a' && c <= 'z' && g.chance(1, 2)) c -= 32; return s; };
	std::string s = one(); while (g.chance(1, 4)) { s += ";"; if (g.chance(1, 2)) s += " "; s += one(); }
	if (g.chance(1, 20)) s = " " + s;
	if (g.chance(1, 300)) { if (g.chance(1, 2)) while (s.size() < 900) s += ";" + one(); else { std::string x = ";" + std::to_string(1 + g.below(4)); unsigned len = g.range(240, 1015); s = "130"; while (s.size() + x.size() < len) s += g.chance(1, 2) ? ";fixme" : ";120"; s += x; } }
	return s;
}
static const V HIGHWAY = {"motorway", "trunk", "primary", "secondary", "tertiary", "unclassified", "residential", "service", "motorway_link", "trunk_link", "primary_link", "secondary_link", "tertiary_link", "motorway_junction", "living_street", "track", "ferry", "bicycle_road", "construction", "path", "footway", "cycleway", "bridleway", "pedestrian", "bus_guideway", "raceway", "escape", "steps", "proposed", "conveying", "crossing", "escalator", "elevator", "platform", "road", "Motorway", "", "motorway_", "residentia"};
static Tags draw_way_tags(pbt::Gen &g, bool plain, bool highway_often) { // plain: no values of oneway that have no meaning
	Tags t; auto add = [&](const char *k, const V &v, unsigned num, unsigned den) { if (g.chance(num, den)) t.push_back({k, g.pick(v)}); };
	static const V access = {"yes", "permissive", "delivery", "designated", "destination", "agricultural", "forestry", "public", "no", "private", "customers", ""}, yn = {"yes", "no", "designated", "destination"}, oneway = {"yes", "true", "1", "-1", "reverse", "backward", "no", "false", "0", "reversible", "alternating"}, oneway2 = {"yes", "-1", "no", "reversible", "maybe", "", "Yes", "2", "-", "10", "opposite"}, junction = {"roundabout", "yes", "jughandle", ""}, route = {"ferry", "bus", "ferr", "Ferry"}, ferry = {"ferry", "no", "yes"}, bike = {"no", "yes", "use_sidepath", "dismount", "designated"}, cyc = {"track", "lane", "opposite", "opposite_track", "opposite_lane", "opposite_share_busway", "no", "tracks"}, owb = {"-1", "opposite", "1", "yes", "true", "no_planned", "0", "no", "false", "tolerated", "permissive", "maybe", ""}, pt = {"stop_position", "platform", "stop_area", "station", "bus"}, rail = {"halt", "platform", "subway_entrance", "station", "tram_stop", "rail", "tram"}, crossing = {"no", "zebra"}, name = {"Main Street", "A", "", "B 10"}, ref = {"B 10", "L 1", ""};
	if (highway_often && g.chance(2, 3)) t.push_back({"highway", HIGHWAY[g.below(17)]}); else if (g.chance(9, 10)) t.push_back({"highway", g.pick(HIGHWAY)});
	add("access", access, 1, 4); add("motorcar", yn, 1, 8); add("motor_vehicle", yn, 1, 8); add("oneway", plain || g.chance(3, 4) ? oneway : oneway2, 2, 5); add("junction", junction, 1, 8); add("route", route, 1, 12); add("ferry", ferry, 1, 15); add("bicycle", bike, 1, 5); add("cycleway", cyc, 1, 5);
	add("cycleway:left", cyc, 1, 8); add("cycleway:right", cyc, 1, 8); add("cycleway:both", cyc, 1, 10); add("oneway:bicycle", owb, 1, 6); add("public_transport", pt, 1, 12); add("railway", rail, 1, 12); add("crossing", crossing, 1, 10); add("name", name, 1, 3); add("ref", ref, 1, 3);
	if (g.chance(1, 3)) t.push_back({"maxspeed", draw_maxspeed(g)});
	if (g.chance(1, 100)) for (auto &x : t) if ((x.first == "name" || x.first == "ref") && g.chance(1, 2)) x.second = std::string(g.range(200, 3000), 'a') + x.second + "z";
	if (g.chance(1, 2)) std::reverse(t.begin(), t.end());
	return t;
}
static std::string str(const Tags &t) { std::string s = "{"; for (auto &x : t) s += x.first + "=" + x.second.substr(0, 60) + " "; return s + "}"; }
static const int UNCLAIMED = -1;
static int as_int(OSMWayDirectionCategory c) { return c == OSMWayDirectionCategory::open_in_both ? both : c == OSMWayDirectionCategory::only_open_forwards ? forwards : c == OSMWayDirectionCategory::only_open_backwards ? backwards : closed; }

static void functions(pbt::Gen &g) {
	Tags tags = draw_way_tags(g, false, g.chance(1, 2)); g.note() << str(tags); T t(tags); TagMap m; m.build(tags.size(), [&](uint64_t i) { return tags[i].first.c_str(); }, [&](uint64_t i) { return tags[i].second.c_str(); });
	std::function<void(const std::string &)> log; if (g.chance(1, 2)) log = [](const std::string &) {}; uint64_t id = g.below(1000);
	REQUIRE_EQ(is_osm_way_used_by_cars(id, m, log), car_uses(t), "way used by cars");
	if (!t.is("ferry", "yes")) { REQUIRE_EQ(is_osm_way_used_by_bicycles(id, m, log), bicycle_uses(t), "way used by bicycles"); REQUIRE_EQ(is_osm_way_used_by_pedestrians(id, m, log), pedestrian_uses(t), "way used by pedestrians"); }
	int cd = car_direction(t), got = as_int(get_osm_car_direction_category(id, m, log)); if (cd == UNCLAIMED) REQUIRE(got == both || got == closed, "an unknown value of oneway made the way a one-way street"); else REQUIRE_EQ(got, cd, "direction for cars (0 both, 1 forwards, 2 backwards, 3 closed)");
	REQUIRE_EQ(as_int(get_osm_bicycle_direction_category(id, m, log)), bicycle_direction(t), "direction for bicycles (0 both, 1 forwards, 2 backwards, 3 closed)");
	unsigned c = get_osm_way_bicycle_comfort_level(id, m, log); REQUIRE_EQ(c, comfort(t), "comfort level"); REQUIRE(c >= get_min_bicycle_comfort_level() && c <= get_max_bicycle_comfort_level(), "comfort level out of range"); REQUIRE_EQ((unsigned)get_min_bicycle_comfort_level(), 0u, "lowest comfort level"); REQUIRE_EQ((unsigned)get_max_bicycle_comfort_level(), 4u, "highest comfort level");
	REQUIRE_EQ(get_osm_way_speed(id, m, log), speed(t), "speed"); REQUIRE_EQ(get_osm_way_name(id, m, log), way_name(t), "name");
	g.nontrivial(tags.size() >= 3); g.label(car_uses(t) ? "used by cars" : "not used by cars");
}
// arbitrary text in the speed tag: no crash, a positive speed
static void speed_text(pbt::Gen &g) {
	unsigned n = g.chance(1, 10) ? g.range(900, 2200) : g.below(30); std::string s; static const std::string alphabet = "0123456789;; kmhpotsduralibn:MPH.?-/"; for (unsigned i = 0; i < n; ++i) s += g.chance(1, 8) ? (char)g.range(1, 255) : alphabet[g.below(alphabet.size())];
	Tags tags = {{"maxspeed", s}}; if (g.chance(1, 2)) tags.push_back({"highway", "residential"}); TagMap m; m.build(tags.size(), [&](uint64_t i) { return tags[i].first.c_str(); }, [&](uint64_t i) { return tags[i].second.c_str(); }); g.note() << pbt::show(s);
	unsigned v = get_osm_way_speed(1, m, g.chance(1, 2) ? std::function<void(const std::string &)>([](const std::string &) {}) : nullptr); REQUIRE(v >= 1, "speed of 0 km/h"); g.nontrivial(n > 3);
}

// ---------------------------------------------------------------- loaders
// every arc of the result must correspond to exactly one expected arc
struct Exp { double dist; unsigned seg, attr; };
template <class Fits> static void match(const Model &m, const std::vector<unsigned> &first_out, const std::vector<unsigned> &head, const std::vector<unsigned> &geo, const std::vector<unsigned> &attr_of_arc, const char *what, const Fits &fits) {
	std::map<std::pair<unsigned, unsigned>, std::vector<Exp>> e; for (size_t i = 0; i < m.arcs.size(); ++i) e[{m.arcs[i].tail, m.arcs[i].head}].push_back({m.arcs[i].dist, m.arcs[i].segments, attr_of_arc[i]});
	for (unsigned v = 0; v + 1 < first_out.size(); ++v) for (unsigned a = first_out[v]; a < first_out[v + 1];) {
		unsigned b = a; while (b < first_out[v + 1] && head[b] == head[a]) ++b; auto &x = e[{v, head[a]}]; REQUIRE_EQ((uint64_t)(b - a), (uint64_t)x.size(), "number of arcs from " << v << " to " << head[a]);
		std::vector<int> owner(x.size(), -1); std::function<bool(unsigned, std::vector<bool> &)> aug = [&](unsigned i, std::vector<bool> &seen) { for (unsigned j = 0; j < x.size(); ++j) if (!seen[j] && std::fabs(geo[i] - x[j].dist) <= 1.01 + 0.2 * x[j].seg + 1e-8 * x[j].dist && fits(i, x[j].attr)) { seen[j] = true; if (owner[j] < 0 || aug(owner[j], seen)) { owner[j] = i; return true; } } return false; };
		for (unsigned i = a; i < b; ++i) { std::vector<bool> seen(x.size()); std::ostringstream o; for (auto &y : x) o << " (" << y.dist << " m, " << y.attr << ")"; REQUIRE(aug(i, seen), what << " of arc " << i << " from " << v << " to " << head[a] << " (" << geo[i] << " m) does not fit any of the ways between these nodes:" << o.str()); }
		a = b;
	}
}
enum Size { small, large, huge, wide_ids };
static World draw_tagged_world(pbt::Gen &g, Size size) {
	WorldOptions o; o.max_nodes = g.chance(1, 4) ? 20 : 9; o.max_ways = g.chance(1, 4) ? 14 : 7; o.max_len = 5;
	if (size == large) { o.min_nodes = 100; o.max_nodes = 900; o.min_ways = 100; o.max_ways = 700; o.max_len = 12; } else if (size == huge) { bool many = g.chance(1, 2); o.min_nodes = many ? 70000 : 20000; o.max_nodes = o.min_nodes + 3000; o.min_ways = many ? 9000 : 85000; o.max_ways = o.min_ways + 1000; o.max_len = many ? 30 : 3; o.id_modes = 6; } else if (size == wide_ids) { o.wide_ids = true; o.min_nodes = 6; o.max_nodes = 40; o.min_ways = 5; o.max_ways = 25; o.id_modes = 6; }
	World w = draw_world(g, o); if (size == small) { for (auto &y : w.ways) y.tags = draw_way_tags(g, true, true); return w; }
	std::vector<Tags> palette; for (unsigned i = 0; i < 60 || palette.empty(); ++i) { Tags t = draw_way_tags(g, true, true); if (tag(t, "ferry") && *tag(t, "ferry") == "yes") continue; if ((size == huge ? i % 8 != 0 : i % 2 != 0) && !car_uses(T(t))) { t = {{"highway", "residential"}, {"name", "street " + std::to_string(i)}}; if (i % 4 == 1) t.push_back({"oneway", i % 8 == 1 ? "yes" : "-1"}); if (i % 3 == 1) t.push_back({"maxspeed", std::to_string(10 + i)}); } palette.push_back(t); }
	uint64_t r = g.bits64(); for (auto &y : w.ways) { y.tags = palette[pbt::splitmix(r) % palette.size()]; if (size == huge && !tag(y.tags, "name")) y.tags.push_back({"name", "n" + std::to_string(y.id)}); } return w;
}
static void describe(pbt::Gen &g, const World &w, Size size) {
	if (size == large || size == huge) { g.note() << w.nodes.size() << " nodes " << w.ways.size() << " ways " << w.rels.size() << " relations"; return; }
	for (auto &x : w.nodes) g.note() << " n" << x.id << "(" << x.lat << "," << x.lon << ")"; for (auto &y : w.ways) { g.note() << " w" << y.id << str(y.tags) << ":"; for (auto v : y.nodes) g.note() << v << "-"; }
}
static void loaders(pbt::Gen &g, Size size) {
	World w = draw_tagged_world(g, size);
	bool all = g.chance(1, 4), sorted = true; unsigned kind = g.below(3); auto never = [](const Node &) { return false; };
	for (auto &y : w.ways) if (tag(y.tags, "ferry") && *tag(y.tags, "ferry") == "yes" && kind) throw pbt::Discard{};
	Model m = kind == 0 ? build_model(w, [](const Way &y) { return car_uses(y.tags); }, [](const Way &y) { return car_direction(y.tags); }, never, all) : kind == 1 ? build_model(w, [](const Way &y) { return bicycle_uses(y.tags); }, [](const Way &y) { return bicycle_direction(y.tags); }, never, all) : build_model(w, [](const Way &y) { return pedestrian_uses(y.tags); }, [](const Way &) { return both; }, never, all);
	std::vector<std::pair<unsigned, unsigned>> exp; std::vector<uint64_t> ways, nodes; for (auto &y : w.ways) ways.push_back(y.id); for (auto &x : w.nodes) nodes.push_back(x.id);
	Index ix(m); unsigned k = size == small || size == wide_ids ? g.below(5) : 20 + g.below(200); for (unsigned i = 0; i < k; ++i) { Relation r = draw_relation(g, i, ways, nodes); if (m.arcs.size() > 1 && g.chance(2, 3)) { unsigned a = g.below(m.arcs.size()); auto &outs = ix.out[m.arcs[a].head]; if (!outs.empty()) { r.members = {{1, m.way_ids[m.arcs[a].way], "from"}, {0, m.route_ids[m.arcs[a].head], "via"}, {1, m.way_ids[m.arcs[g.pick(outs)].way], "to"}}; } }
		bool certain = true; auto d = decode_relation(r); for (auto &x : d) certain &= forbidden(m, ix, x).certain; if (!certain) continue; for (auto &x : d) { auto v = forbidden(m, ix, x); exp.insert(exp.end(), v.turns.begin(), v.turns.end()); } w.rels.push_back(r); if (size == small || size == wide_ids) g.note() << str(r); }
	std::sort(exp.begin(), exp.end()); exp.erase(std::unique(exp.begin(), exp.end()), exp.end());
	describe(g, w, size); g.note() << (all ? " all" : "") << " kind " << kind;
	std::string name = pbt::scratch_file("w.pbf"); sorted = write_world(g, w, name); bool flag = sorted && g.chance(1, 3); std::function<void(const std::string &)> log; if (g.chance(1, 3)) log = [](const std::string &) {};
	std::map<uint64_t, const Way *> by; for (auto &y : w.ways) by[y.id] = &y; std::vector<unsigned> attr; for (auto &a : m.arcs) { T t(by[m.way_ids[a.way]]->tags); attr.push_back(kind == 0 ? speed(t) : comfort(t)); }
	if (kind == 0) {
		auto G = all || flag ? simple_load_osm_car_routing_graph_from_pbf(name, log, all, flag) : log ? simple_load_osm_car_routing_graph_from_pbf(name, log) : simple_load_osm_car_routing_graph_from_pbf(name); std::vector<unsigned> tail; compare_graph(m, G.first_out, G.head, G.geo_distance, G.latitude, G.longitude, nullptr, nullptr, &tail); REQUIRE_EQ((uint64_t)G.node_count(), (uint64_t)m.route_ids.size(), "node_count()"); REQUIRE_EQ((uint64_t)G.arc_count(), (uint64_t)m.arcs.size(), "arc_count()");
		REQUIRE_EQ((uint64_t)G.travel_time.size(), (uint64_t)G.head.size(), "size of travel_time");
		match(m, G.first_out, G.head, G.geo_distance, attr, "travel time", [&](unsigned a, unsigned s) { double ms = (double)G.geo_distance[a] * 3600 / s; return ms >= inf_weight || std::fabs(G.travel_time[a] - ms) <= 1.01; });
		auto &F = G.forbidden_turn_from_arc; auto &Z = G.forbidden_turn_to_arc; REQUIRE_EQ((uint64_t)F.size(), (uint64_t)Z.size(), "sizes of the forbidden turn vectors"); typedef std::tuple<unsigned, unsigned, unsigned> K; std::vector<K> a, b;
		for (size_t i = 0; i < F.size(); ++i) { REQUIRE(F[i] < G.head.size() && Z[i] < G.head.size(), "forbidden turn names an arc that does not exist"); REQUIRE_EQ(G.head[F[i]], tail[Z[i]], "forbidden turn between arcs that do not meet"); if (i) REQUIRE(std::make_pair(F[i - 1], Z[i - 1]) < std::make_pair(F[i], Z[i]), "forbidden turns not sorted or with duplicates"); b.push_back(K(tail[F[i]], G.head[F[i]], G.head[Z[i]])); }
		for (auto &x : exp) a.push_back(K(m.arcs[x.first].tail, m.arcs[x.first].head, m.arcs[x.second].head)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE(a == b, "forbidden turns differ: " << b.size() << " instead of " << a.size()); if (!a.empty()) g.label("with forbidden turns");
	} else if (kind == 1) {
		auto G = all || flag ? simple_load_osm_bicycle_routing_graph_from_pbf(name, log, all, flag) : log ? simple_load_osm_bicycle_routing_graph_from_pbf(name, log) : simple_load_osm_bicycle_routing_graph_from_pbf(name); compare_graph(m, G.first_out, G.head, G.geo_distance, G.latitude, G.longitude, nullptr, nullptr); REQUIRE_EQ((uint64_t)G.node_count(), (uint64_t)m.route_ids.size(), "node_count()"); REQUIRE_EQ((uint64_t)G.arc_count(), (uint64_t)m.arcs.size(), "arc_count()"); REQUIRE_EQ((uint64_t)G.arc_comfort_level.size(), (uint64_t)G.head.size(), "size of arc_comfort_level");
		match(m, G.first_out, G.head, G.geo_distance, attr, "comfort level", [&](unsigned a, unsigned c) { return G.arc_comfort_level[a] == c; });
	} else {
		auto G = all || flag ? simple_load_osm_pedestrian_routing_graph_from_pbf(name, log, all, flag) : log ? simple_load_osm_pedestrian_routing_graph_from_pbf(name, log) : simple_load_osm_pedestrian_routing_graph_from_pbf(name); compare_graph(m, G.first_out, G.head, G.geo_distance, G.latitude, G.longitude, nullptr, nullptr); REQUIRE_EQ((uint64_t)G.node_count(), (uint64_t)m.route_ids.size(), "node_count()"); REQUIRE_EQ((uint64_t)G.arc_count(), (uint64_t)m.arcs.size(), "arc_count()");
	}
	g.label(kind == 0 ? "car" : kind == 1 ? "bicycle" : "pedestrian"); g.nontrivial(m.arcs.size() >= 3);
}

// the command line extractor
static void extract(pbt::Gen &g, Size size) {
	World w = draw_tagged_world(g, size);
	Model m = build_model(w, [](const Way &y) { return car_uses(y.tags); }, [](const Way &y) { return car_direction(y.tags); }, [](const Node &) { return false; }, false);
	describe(g, w, size);
	auto f = [](const char *n) { return pbt::scratch_file(n); }; std::vector<std::string> names = {"fo", "he", "ge", "tt", "wa", "ws", "wn", "la", "lo", "on", "ow"}; for (auto &n : names) { unlink(f(n.c_str()).c_str()); } write_world(g, w, f("w.pbf"));
	bool full = g.chance(2, 3); tools::Result r = full ? tools::run("osm_extract", {f("w.pbf"), f("fo"), f("he"), f("ge"), f("tt"), f("wa"), f("ws"), f("wn"), f("la"), f("lo"), f("on"), f("ow")}) : tools::run("osm_extract", {f("w.pbf"), f("fo"), f("he"), f("ge"), f("tt"), f("la"), f("lo")});
	REQUIRE(r.out.find("Exception : ") == std::string::npos, "osm_extract: " << r.out.substr(0, 400)); for (auto &n : names) REQUIRE_EQ(tools::exists(f(n.c_str())), full || (n != "wa" && n != "ws" && n != "wn" && n != "on" && n != "ow"), "osm_extract: file " << n << " written");
	typedef std::vector<unsigned> V; V fo = tools::load<unsigned>(f("fo")), he = tools::load<unsigned>(f("he")), ge = tools::load<unsigned>(f("ge")), tt = tools::load<unsigned>(f("tt")), wa; auto la = tools::load<float>(f("la")), lo = tools::load<float>(f("lo")); if (full) wa = tools::load<unsigned>(f("wa"));
	compare_graph(m, fo, he, ge, la, lo, full ? &wa : nullptr, nullptr); std::map<uint64_t, const Way *> by; for (auto &y : w.ways) by[y.id] = &y; V attr; for (auto &a : m.arcs) attr.push_back(speed(T(by[m.way_ids[a.way]]->tags)));
	REQUIRE_EQ((uint64_t)tt.size(), (uint64_t)he.size(), "osm_extract: size of travel_time"); match(m, fo, he, ge, attr, "osm_extract: travel time", [&](unsigned a, unsigned s) { double ms = (double)ge[a] * 3600 / s; return ms >= 4294967295.0 || std::fabs(tt[a] - ms) <= 1.01; });
	if (full) {
		V ws = tools::load<unsigned>(f("ws")); auto wn = load_vector<std::string>(f("wn")); REQUIRE(ws.size() == m.way_ids.size() && wn.size() == m.way_ids.size(), "osm_extract: number of ways"); for (size_t i = 0; i < ws.size(); ++i) { T t(by[m.way_ids[i]]->tags); REQUIRE_EQ(ws[i], speed(t), "osm_extract: speed of way " << i); REQUIRE_EQ(wn[i], way_name(t), "osm_extract: name of way " << i); }
		for (unsigned a = 0; a < he.size(); ++a) { double ms = (double)ge[a] * 3600 / ws[wa[a]]; REQUIRE(ms >= 4294967295.0 || std::fabs(tt[a] - ms) <= 1.01, "osm_extract: travel time of arc " << a); }
		auto bits = [&](const char *n, const std::vector<uint64_t> &ids, const char *what) { BitVector b = load_bit_vector(f(n)); REQUIRE_EQ(b.population_count(), (uint64_t)ids.size(), "osm_extract: number of marked " << what); for (auto x : ids) REQUIRE(x < b.size() && b.is_set(x), "osm_extract: " << what << " " << x << " is not marked"); }; bits("on", m.route_ids, "nodes"); bits("ow", m.way_ids, "ways");
	}
	g.label("osm_extract"); g.nontrivial(m.arcs.size() >= 3);
}

pbt::Check pbt::make_check() {
	return {"P22", "functions: at least three tags; speed_text: more than three characters; loaders and extract: at least three arcs",
		{{"functions", 60000, 3000000, functions, 20}, {"speed_text", 20000, 1000000, speed_text, 20}, {"loaders", 4000, 150000, [](pbt::Gen &g) { loaders(g, small); }, 30}, {"loaders_large", 200, 6000, [](pbt::Gen &g) { loaders(g, large); }, 60}, {"loaders_huge", 8, 60, [](pbt::Gen &g) { loaders(g, huge); }, 600}, {"loaders_wide_ids", 3, 12, [](pbt::Gen &g) { loaders(g, wide_ids); }, 600, 1, true}, {"extract", 600, 10000, [](pbt::Gen &g) { extract(g, small); }, 60}, {"extract_large", 30, 1000, [](pbt::Gen &g) { extract(g, large); }, 60}, {"extract_huge", 3, 30, [](pbt::Gen &g) { extract(g, huge); }, 600}}};
}
