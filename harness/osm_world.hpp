// Generated road networks in OSM form, and a reference model of the routing graph they describe.
#pragma once
#include "pbf.hpp"
#include <routingkit/osm_graph_builder.h>
#include <array>
#include <set>

namespace osmw {
using namespace pbf;
static const unsigned NONE = 0xffffffffu;

struct World { std::vector<Node> nodes; std::vector<Way> ways; std::vector<Relation> rels; int64_t granularity = 100; };

inline const std::string *tag(const Tags &t, const std::string &k) { for (auto &x : t) if (x.first == k) return &x.second; return nullptr; }

// ---- generator ----
inline std::vector<uint64_t> draw_ids(pbt::Gen &g, unsigned n, unsigned modes = 8) { // distinct, increasing
	unsigned mode = g.below(modes); uint64_t step = mode == 0 ? 1 : mode < 6 ? 40 : mode == 6 ? 3000 : 200000; std::vector<uint64_t> r; uint64_t x = g.below(step);
	for (unsigned i = 0; i < n; ++i) { r.push_back(x); x += 1 + g.below(step); }
	return r;
}
struct WorldOptions { unsigned max_nodes = 14, max_ways = 8, max_len = 7; bool far = true; unsigned min_nodes = 0, min_ways = 0, id_modes = 8; bool wide_ids = false; };
// IDs beyond 2^32, some of which agree with others modulo 2^32
inline void widen(pbt::Gen &g, std::vector<uint64_t> &id) { std::set<uint64_t> s; uint64_t k = g.below(2); for (size_t i = 0; i < id.size(); ++i) s.insert(i >= 2 && g.chance(1, 2) ? id[i - 1 - g.below(2)] + ((uint64_t)1 << 32) : id[i] + k); id.assign(s.begin(), s.end()); }

inline World draw_world(pbt::Gen &g, const WorldOptions &o) {
	World w; unsigned n = o.min_nodes ? o.min_nodes + g.below(o.max_nodes - o.min_nodes) : g.chance(1, 25) ? 0 : 1 + g.below(o.max_nodes), m = o.min_ways ? o.min_ways + g.below(o.max_ways - o.min_ways) : g.chance(1, 25) ? 0 : 1 + g.below(o.max_ways);
	auto nid = draw_ids(g, n, o.id_modes), wid = draw_ids(g, m, o.id_modes); if (o.wide_ids) { unsigned which = g.below(3); if (which != 1) widen(g, nid); if (which != 0) widen(g, wid); n = nid.size(); m = wid.size(); }
	// positions: lattice points around a centre (so that right angles, straight continuations and coinciding nodes occur), or anywhere
	unsigned place = g.below(o.far ? 5 : 4); int64_t cla = place == 1 ? 0 : g.irange(-800, 800) * 1000000, clo = place == 1 ? 0 : g.irange(-1700, 1700) * 1000000; static const std::vector<int64_t> steps = {10000, 1000, 100000, 2000000}; int64_t st = g.pick(steps);
	for (unsigned i = 0; i < n; ++i) {
		Node x; x.id = nid[i];
		if (place == 4) { x.lat = g.irange(-899000000, 899000000); x.lon = g.irange(-1799000000, 1799000000); }
		else { x.lat = cla + g.irange(-3, 3) * st; x.lon = clo + g.irange(-3, 3) * st; if (g.chance(1, 2)) { x.lat += g.irange(-st / 2, st / 2); x.lon += g.irange(-st / 2, st / 2); } }
		w.nodes.push_back(x);
	}
	for (unsigned i = 0; i < m; ++i) {
		Way y; y.id = wid[i]; unsigned len = !n ? 0 : g.chance(1, 15) ? g.below(2) : 2 + g.below(o.max_len - 1); unsigned style = g.below(4), p = n ? g.below(n) : 0;
		for (unsigned j = 0; j < len; ++j) { y.nodes.push_back(nid[p]); unsigned q = style == 0 ? g.below(n) : style == 1 ? (p + 1) % n : style == 2 ? (p + n - 1) % n : (p + g.below(3)) % n; if (q == p && !g.chance(1, 6)) q = (p + 1) % n; p = q; }
		if (len > 2 && g.chance(1, 8)) y.nodes.back() = y.nodes.front();
		w.ways.push_back(y);
	}
	return w;
}

// Adds junctions where very many ways meet and ways with very many nodes, with and without crossings.
inline void extend_world(pbt::Gen &g, World &w, unsigned max_chain = 4000) {
	uint64_t nid = 0, wid = 0; for (auto &x : w.nodes) nid = std::max(nid, x.id + 1); for (auto &y : w.ways) wid = std::max(wid, y.id + 1); uint64_t s = g.bits64(); auto rnd = [&](uint64_t k) { return (int64_t)(pbt::splitmix(s) % k); };
	int64_t cla = 0, clo = 0; if (!w.nodes.empty()) { auto &x = w.nodes[g.below(w.nodes.size())]; cla = std::max<int64_t>(-800000000, std::min<int64_t>(800000000, x.lat)); clo = std::max<int64_t>(-1600000000, std::min<int64_t>(1600000000, x.lon)); }
	auto node = [&](int64_t la, int64_t lo) { Node x; x.id = nid; nid += 1 + rnd(20); x.lat = la; x.lon = lo; w.nodes.push_back(x); return x.id; };
	auto way = [&](const std::vector<uint64_t> &v) { Way y; y.id = wid; wid += 1 + rnd(20); y.nodes = v; w.ways.push_back(y); };
	unsigned what = 1 + g.below(3), hubs = what & 1 ? 1 + g.below(2) : 0, chains = what & 2 ? 1 + g.below(2) : 0;
	for (unsigned h = 0; h < hubs; ++h) {
		unsigned k = 20 + g.below(g.chance(1, 3) ? 600 : 150); uint64_t c = node(cla + rnd(20000), clo + rnd(20000)); int64_t la = w.nodes.back().lat, lo = w.nodes.back().lon;
		for (unsigned i = 0; i < k; ++i) {
			auto tip = [&] { double a = 6.283185307179586 * rnd(100000) / 100000, r = 20000 + rnd(100000); return node(la + (int64_t)(r * std::sin(a)), lo + (int64_t)(r * std::cos(a))); };
			switch (rnd(4)) { case 0: way({c, tip()}); break; case 1: way({tip(), c}); break; case 2: { auto a = tip(); way({a, c, tip()}); break; } default: { auto a = tip(); way({a, tip(), c}); } }
		}
		g.label("hub"); g.note() << " hub with " << k << " ways";
	}
	for (unsigned c = 0; c < chains; ++c) {
		unsigned k = 20 + g.below(g.chance(1, 3) ? max_chain : 300), every = g.pick(std::vector<unsigned>{0, 0, 1, 1, 3, 20}); std::vector<uint64_t> v; int64_t la = cla, lo = clo; std::vector<std::pair<uint64_t, std::pair<int64_t, int64_t>>> cross;
		for (unsigned i = 0; i < k; ++i) { la += rnd(4001) - 2000; lo += rnd(4001) - 1000; v.push_back(node(la, lo)); if (every && rnd(every) == 0) cross.push_back({v.back(), {la, lo}}); }
		if (rnd(6) == 0) v.push_back(v.front()); way(v);
		for (auto &x : cross) { auto a = node(x.second.first + 3000 + rnd(5000), x.second.second - 2000 + rnd(4000)); if (rnd(2)) way({a, x.first}); else way({x.first, a}); if (rnd(2)) { auto b = node(x.second.first - 3000 - rnd(5000), x.second.second); w.ways.back().nodes = {a, x.first, b}; } }
		g.label("chain"); g.note() << " way with " << k << " nodes and " << cross.size() << " crossings";
	}
}

// write the world, in a random block layout; returns whether the file is sorted by type
inline bool write_world(pbt::Gen &g, const World &w, const std::string &name) {
	struct Chunk { int kind; size_t b, e; }; std::vector<Chunk> c;
	auto cut = [&](int kind, size_t n) { size_t b = 0; while (b < n) { size_t e = g.chance(1, 2) ? n : b + 1 + g.below(n - b); c.push_back({kind, b, e}); b = e; } };
	cut(0, w.nodes.size()); cut(1, w.ways.size()); cut(2, w.rels.size()); bool sorted = true;
	if (g.chance(1, 3)) for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[g.below(i)]);
	for (size_t i = 1; i < c.size(); ++i) sorted &= c[i - 1].kind <= c[i].kind;
	File f; f.header(zlib, sorted && g.chance(1, 2)); size_t i = 0;
	while (i < c.size()) {
		Block b; b.granularity = w.granularity; b.noise.info = g.chance(1, 5); size_t k = 1 + g.below(3);
		for (; k && i < c.size(); --k, ++i) { auto &x = c[i];
			if (x.kind == 0) { std::vector<Node> v(w.nodes.begin() + x.b, w.nodes.begin() + x.e); if (g.chance(1, 4)) b.sparse(v); else b.dense(v); }
			else if (x.kind == 1) b.ways(std::vector<Way>(w.ways.begin() + x.b, w.ways.begin() + x.e));
			else b.relations(std::vector<Relation>(w.rels.begin() + x.b, w.rels.begin() + x.e)); }
		f.add(b, g.chance(1, 3) ? raw_with_size : zlib);
	}
	f.save(name); return sorted;
}

// ---- reference model ----
enum Dir { both, forwards, backwards, closed };
typedef std::pair<float, float> Pos;
struct Arc { unsigned tail, head, way; bool anti; double dist; unsigned segments; std::vector<Pos> geo; };
struct Model {
	std::set<uint64_t> modelling, routing; std::vector<uint64_t> route_ids, way_ids; // local id -> OSM id
	std::map<uint64_t, Pos> pos; std::vector<Arc> arcs; std::vector<Pos> node_pos;
	unsigned node(uint64_t id) const { auto it = std::lower_bound(route_ids.begin(), route_ids.end(), id); return it != route_ids.end() && *it == id ? it - route_ids.begin() : NONE; }
	unsigned way(uint64_t id) const { auto it = std::lower_bound(way_ids.begin(), way_ids.end(), id); return it != way_ids.end() && *it == id ? it - way_ids.begin() : NONE; }
};
inline double great_circle(Pos a, Pos b) {
	const double r = 3.14159265358979323846 / 180, R = 6371000.785; double la = a.first * r, lb = b.first * r, s = std::sin((la - lb) / 2), t = std::sin(((double)a.second - (double)b.second) * r / 2);
	double h = std::min(1.0, s * s + std::cos(la) * std::cos(lb) * t * t); return 2 * R * std::atan2(std::sqrt(h), std::sqrt(1 - h));
}
template <class Used, class Direction, class IsRouting>
inline Model build_model(const World &w, const Used &used, const Direction &dir, const IsRouting &is_routing, bool all) {
	Model m; std::map<uint64_t, unsigned> seen; std::vector<const Way *> rw;
	for (auto &x : w.nodes) { m.pos[x.id] = {(float)(1e-9 * (double)(w.granularity * x.lat)), (float)(1e-9 * (double)(w.granularity * x.lon))}; if (is_routing(x)) { m.modelling.insert(x.id); m.routing.insert(x.id); } }
	for (auto &y : w.ways) if (y.nodes.size() >= 2 && used(y)) { rw.push_back(&y); for (auto v : y.nodes) { m.modelling.insert(v); if (++seen[v] >= 2 || all) m.routing.insert(v); } m.routing.insert(y.nodes.front()); m.routing.insert(y.nodes.back()); }
	m.route_ids.assign(m.routing.begin(), m.routing.end()); for (auto y : rw) m.way_ids.push_back(y->id); std::sort(m.way_ids.begin(), m.way_ids.end());
	for (auto v : m.route_ids) m.node_pos.push_back(m.pos[v]);
	for (auto y : rw) {
		int d = dir(*y); if (d == closed) continue; size_t last = 0;
		for (size_t i = 1; i < y->nodes.size(); ++i) if (m.routing.count(y->nodes[i])) {
			Arc a; a.tail = m.node(y->nodes[last]); a.head = m.node(y->nodes[i]); a.way = m.way(y->id); a.anti = false; a.dist = 0; a.segments = i - last;
			for (size_t j = last; j < i; ++j) { a.dist += great_circle(m.pos[y->nodes[j]], m.pos[y->nodes[j + 1]]); if (j > last) a.geo.push_back(m.pos[y->nodes[j]]); }
			Arc b = a; std::swap(b.tail, b.head); b.anti = true; std::reverse(b.geo.begin(), b.geo.end());
			if (d != backwards) m.arcs.push_back(a);
			if (d != forwards) m.arcs.push_back(b);
			last = i;
		}
	}
	return m;
}
inline std::vector<Pos> ends(const std::vector<Pos> &g) { if (g.size() <= 1) return g; return {g.front(), g.back()}; }

// compares everything but the turns; geometry: 0 must be absent, 1 complete, 2 first and last, 3 unspecified
inline void compare_graph(const Model &m, const std::vector<unsigned> &first_out, const std::vector<unsigned> &head, const std::vector<unsigned> &geo_distance, const std::vector<float> &lat, const std::vector<float> &lon, const std::vector<unsigned> *way, const std::vector<bool> *anti, std::vector<unsigned> *tail_out = nullptr) {
	REQUIRE_EQ((uint64_t)first_out.size(), (uint64_t)m.route_ids.size() + 1, "number of routing nodes plus one"); REQUIRE_EQ((uint64_t)head.size(), (uint64_t)m.arcs.size(), "number of arcs");
	REQUIRE_EQ((uint64_t)geo_distance.size(), (uint64_t)head.size(), "size of geo_distance"); REQUIRE_EQ((uint64_t)lat.size(), (uint64_t)m.route_ids.size(), "size of latitude"); REQUIRE_EQ((uint64_t)lon.size(), (uint64_t)m.route_ids.size(), "size of longitude");
	if (way) REQUIRE_EQ((uint64_t)way->size(), (uint64_t)head.size(), "size of way");
	if (anti) REQUIRE_EQ((uint64_t)anti->size(), (uint64_t)head.size(), "size of is_arc_antiparallel_to_way");
	for (size_t i = 0; i < m.route_ids.size(); ++i) REQUIRE(std::fabs(lat[i] - m.node_pos[i].first) < 1e-5 && std::fabs(lon[i] - m.node_pos[i].second) < 2e-5, "position of routing node " << i << " (OSM " << m.route_ids[i] << ") is " << lat[i] << "," << lon[i] << ", expected " << m.node_pos[i].first << "," << m.node_pos[i].second);
	REQUIRE(first_out.front() == 0 && first_out.back() == head.size(), "first_out does not cover all arcs"); std::vector<unsigned> tail(head.size());
	for (unsigned v = 0; v + 1 < first_out.size(); ++v) { REQUIRE(first_out[v] <= first_out[v + 1], "first_out not monotone"); for (unsigned a = first_out[v]; a < first_out[v + 1]; ++a) tail[a] = v; }
	for (unsigned a = 1; a < head.size(); ++a) REQUIRE(tail[a - 1] != tail[a] || head[a - 1] <= head[a], "arcs of node " << tail[a] << " not sorted by head");
	struct K { unsigned t, h, w; int anti; double d; unsigned seg; bool operator<(const K &o) const { return std::tie(t, h, w, anti, d) < std::tie(o.t, o.h, o.w, o.anti, o.d); } }; std::vector<K> e, r;
	for (auto &a : m.arcs) e.push_back({a.tail, a.head, way ? a.way : 0, anti ? a.anti : 0, a.dist, a.segments});
	for (unsigned a = 0; a < head.size(); ++a) r.push_back({tail[a], head[a], way ? (*way)[a] : 0, anti ? (*anti)[a] : 0, (double)geo_distance[a], 0});
	std::sort(e.begin(), e.end()); std::sort(r.begin(), r.end()); unsigned maxseg = 1; for (auto &x : e) maxseg = std::max(maxseg, x.seg);
	for (size_t i = 0; i < e.size(); ++i) {
		REQUIRE(e[i].t == r[i].t && e[i].h == r[i].h, "arc from " << r[i].t << " to " << r[i].h << " instead of one from " << e[i].t << " to " << e[i].h);
		REQUIRE(e[i].w == r[i].w && e[i].anti == r[i].anti, "arc from " << r[i].t << " to " << r[i].h << ": way " << r[i].w << " antiparallel " << r[i].anti << ", expected way " << e[i].w << " antiparallel " << e[i].anti);
		double tol = 1.01 + 0.2 * maxseg + 1e-8 * e[i].d; // rounding to metres, arc cosine near 1
		REQUIRE(std::fabs(r[i].d - e[i].d) <= tol, "arc from " << r[i].t << " to " << r[i].h << " is " << (uint64_t)r[i].d << " m long, expected " << std::to_string(e[i].d));
	}
	if (tail_out) *tail_out = tail;
}
} // namespace osmw
