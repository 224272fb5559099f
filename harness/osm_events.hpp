// Collects what the OSM reader reports.
#pragma once
#include "pbf.hpp"
#include <routingkit/osm_decoder.h>
namespace pbf {
inline Tags collect_tags(const RoutingKit::TagMap &t) {
	Tags r; for (auto it = t.begin(); it != t.end(); ++it) r.push_back({it->key, it->value});
	if (t.size() != r.size() || t.empty() != r.empty()) pbt::fail("TagMap: size " + std::to_string(t.size()) + " or empty() disagree with the " + std::to_string(r.size()) + " enumerated tags");
	std::sort(r.begin(), r.end()); auto first = [&](const std::string &k) { return std::lower_bound(r.begin(), r.end(), std::make_pair(k, std::string())); };
	for (auto &x : r) { const char *v = t[x.first.c_str()]; bool ok = false; if (v) for (auto it = first(x.first); it != r.end() && it->first == x.first && !ok; ++it) ok = it->second == v; if (!ok) pbt::fail("TagMap: lookup of the enumerated key " + x.first + " fails"); }
	for (auto p : {"highway", "name", "no such key", "", "oneway"}) { auto it = first(p); if ((it == r.end() || it->first != p) && t[p]) pbt::fail(std::string("TagMap: lookup of the absent key ") + p + " returns " + t[p]); }
	return r;
}
struct Callbacks {
	std::vector<Event> ev; uint64_t stop_after = ~0ull; // throws after this many events
	void hit() { if (ev.size() >= stop_after) throw std::string("stop"); }
	std::function<void(uint64_t, double, double, const RoutingKit::TagMap &)> node() { return [this](uint64_t id, double la, double lo, const RoutingKit::TagMap &t) { Event e; e.kind = 0; e.id = id; e.lat = la; e.lon = lo; e.tags = collect_tags(t); ev.push_back(e); hit(); }; }
	std::function<void(uint64_t, const std::vector<uint64_t> &, const RoutingKit::TagMap &)> way() { return [this](uint64_t id, const std::vector<uint64_t> &n, const RoutingKit::TagMap &t) { Event e; e.kind = 1; e.id = id; e.nodes = n; e.tags = collect_tags(t); ev.push_back(e); hit(); }; }
	std::function<void(uint64_t, const std::vector<RoutingKit::OSMRelationMember> &, const RoutingKit::TagMap &)> relation() { return [this](uint64_t id, const std::vector<RoutingKit::OSMRelationMember> &m, const RoutingKit::TagMap &t) { Event e; e.kind = 2; e.id = id; for (auto &x : m) e.members.push_back({x.type == RoutingKit::OSMIDType::node ? 0 : x.type == RoutingKit::OSMIDType::way ? 1 : 2, x.id, x.role}); e.tags = collect_tags(t); ev.push_back(e); hit(); }; }
};
} // namespace pbf
